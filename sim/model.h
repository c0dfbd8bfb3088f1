// Executable reference model of the script language (the subset the generators use), its host functions, and the renderer to source text.
#pragma once
#include "rt.h"

struct MObj;
using MP = std::shared_ptr<MObj>;
struct V {
	char t = 'u';               // u b i f s l t e(set) c(closure) h(host fn) o(userdata) x(opaque)
	int64_t i = 0; double d = 0; std::string s; MP o;
	static V undef() { return V(); }
	static V B(bool b) { V v; v.t = 'b'; v.i = b; return v; }
	static V In(int64_t n) { V v; v.t = 'i'; v.i = n; return v; }
	static V F(double d) { V v; v.t = 'f'; v.d = d; return v; }
	static V St(const std::string &s) { V v; v.t = 's'; v.s = s; return v; }
};
struct MEnv;
using EP = std::shared_ptr<MEnv>;
struct MObj {
	char t;
	std::vector<V> items;                       // list, set
	std::vector<std::pair<V, V>> kv;            // table
	MP mt; bool has_mt = false;                 // metatable (user tables)
	N fn; EP env;                               // closure
	std::string name; int64_t id = 0;           // host fn, userdata
	int64_t ver = 0;                            // table: how often it was (or may have been) changed
};
struct MEnv { std::map<std::string, std::shared_ptr<V>> vars; EP up; };

struct ScriptErr { int status; };
struct Abandon { const char *why; };
struct WalkErr { std::string msg; };

struct Model {
	std::vector<std::string> trace;
	std::string out;
	int status = 0;
	bool cyclic = false;                         // a reference cycle may exist: reclamation is not promised
	bool hostbroke = false;
	int64_t fuel = 20000;
	int depth = 0;
	int64_t hostcalls = 0, abort_at = -1; int abort_status = 0; bool abort_print = false;
	std::map<std::string, V> globals;            // host-declared globals
	std::map<std::string, N> modules;            // name -> module AST
	std::function<N(const std::string &)> find_module;   // when set, decides instead of `modules`; null: cannot be loaded
	std::function<V(const std::string &)> find_native;   // value of a native module, or throws
	std::function<void(int64_t)> on_nest; std::function<void(const std::string &)> on_write;
	std::vector<size_t> outat;                   // length of `out` at each host call
	int64_t loads = 0;                           // modules that were loaded
	std::vector<V> hvals;
	bool track_reach = false;                    // record, at each host call, which userdata the program can certainly still reach
	std::vector<std::set<int64_t>> reach;
	std::set<int64_t> reachable(const std::vector<V> &args);
	std::set<int64_t> objs;                      // userdata ids made
	std::function<void(const std::string &)> on_host;
	int64_t nesting = 0;
	const std::vector<std::string> *oracle = nullptr;   // events of the run being judged: decides the order in which tables are walked
	bool walk_next(const V &table, const std::string &tag, const char *hostfn, std::vector<std::string> &seen, bool changed, V &key);
	int loops = 0, maxloops = 0;                 // live for-in loops (recursive)
	// runs a program to completion or error; returns status
	int run(const N &prog, bool keep_env = false, V *exported = nullptr);
	int run_entry(const N &stmts, bool repl);       // one entry of a session: keeps `top` and everything else from earlier entries
	EP top;
	std::vector<V> rets, retv;                   // everything the last call returned / the running return statement returns
	void evs(const N &e, EP env, std::vector<V> &out, bool tail = false);   // the last expression of a list: a call gives all its values
	V ev(const N &e, EP env);
	enum Fl { NORM, BRK, CONT, RET };
	Fl st(const N &s, EP env, V &ret);
	Fl block(const N &b, size_t from, EP env, V &ret, bool newscope = true);
	V call(const V &f, std::vector<V> args);
	V method(const V &obj, const std::string &m, std::vector<V> args);
	V host(const std::string &name, std::vector<V> &args);
	bool matches(const N &pattern, const V &v, std::vector<std::pair<std::string, V>> &bind);
	V idx(const V &o, const V &k);
	void setidx(V &o, const V &k, const V &v);
	V bin(const std::string &op, const V &a, const V &b);
	std::string str(const V &v, std::vector<MObj *> seen = {});
	static bool same(const V &a, const V &b, bool typed);
	bool eq(const V &a, const V &b);
	bool truthy(const V &v);
	void burn(int n = 1) { fuel -= n; if (fuel < 0) throw Abandon{"fuel"}; }
	void note_store(const V &container, const V &val);
	void note_cell(V *cell, const V &val);
	bool rawset(MObj &t, const V &k, const V &v);
	V *rawget(MObj &t, const V &k);
	MP mklist(std::vector<V> v = {});
	V listv(std::vector<V> v = {});
	V tablev();
};
std::string dump(const V &v, int depth = 0);
std::string fmt_float(double d);
std::string render(const N &prog);
std::string quote(const std::string &s);
std::string esc_dump(const std::string &s);
