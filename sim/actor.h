// An actor: one interpreter state with the harness' host functions, driven only through the public embedding API.
#pragma once
#include "model.h"
extern "C" {
#include "yasl.h"
#include "yasl_aux.h"
// exported but not declared in the public header
void *YASL_popuserdata(struct YASL_State *S);
void YASL_throw_err(struct YASL_State *S, int error);
}
struct Actor;
struct Obj { int64_t id; int destroyed; Actor *a; };
struct Actor {
	YASL_State *S = nullptr;
	int id = 0;
	std::vector<std::string> trace;
	int64_t hostcalls = 0, abort_at = -1; int abort_status = 0; bool abort_print = false;
	std::vector<Obj *> objs;
	std::vector<V> hvals;
	std::function<void(Actor &, int64_t)> on_nest;
	std::function<void(Actor &)> on_host;
	std::string out; bool got_out = false;
	int status = -1;
	std::set<std::string> declared;
	bool log = true;
	void note(const std::string &s) { trace.push_back(s); if (log) logf_("[%d] %s", id, s.c_str()); }
	bool open_file(const std::string &path);
	void open_buf(const std::string &src);
	void libs(int mask = 63, bool tostr = true);    // declare libraries, host functions
	void def(const char *name, int (*f)(YASL_State *), int nargs);
	void decl(const std::string &name);             // declare a global holding undef
	void set(const std::string &name, const V &v);
	bool get(const std::string &name, std::string &dumped);
	int run() { return status = YASL_execute(S); }
	std::string capture();
	std::string errtext();
	void close();
	void check_objs(const char *when);
	Obj *mkobj();
	int destroyed_count();
};
Actor *actor_of(YASL_State *S);
Actor &host_enter(YASL_State *S, const char *name);
std::string top_bytes(YASL_State *S);
std::string dump_top(YASL_State *S, int depth = 0);  // dumps the value on top of the stack, leaves it
void push_value(Actor &a, const V &v);
extern const char *OBJ_TAG;
void check_no_leak(const char *when, bool cyclic);
void compare_traces(const char *who, const std::vector<std::string> &want, const std::vector<std::string> &got);
std::string first_diff(const std::string &want, const std::string &got);
