#pragma once
#include "actor.h"
#include "gen.h"
struct Engine {
	const char *id;
	N (*gen)(Rng &r, int tier);     // makes a plan
	void (*run)(const N &plan);     // child process only; ends in a verdict
};
const Engine *find_engine(const std::string &id);
extern const std::vector<Engine> engines;
// shared plan pieces
void gen_knobs(Rng &r, std::vector<N> &k);
N gen_prog(Rng &r, GenCfg &c, int tries, Model *out, std::function<void(Model &)> prep = nullptr);
GenCfg swarm(Rng &r, int tier);
void std_hvals(Model &m);
std::string runner_src(const N &prog);

// one program on one actor, judged against the model
struct Case {
	N spec;                 // (prog ...) with optional siblings: abort-at, abort-status, abort-print in `holder`
	Model m;
	Actor a;
	std::string src;
	bool prepare(const N &holder, const N &prog, std::function<void(Model &)> prep = nullptr);   // runs the model; false: abandoned
	void start(bool from_file = false, const std::string &path = "");                             // creates the state
	void judge(const char *who);                                                                  // compares everything observable
	void finish(const char *who);                                                                 // deletes the state, checks destructors
};
std::vector<V> fresh_hvals();
N gen_failing_containers(Rng &r, int tier);
N insert_stmts(Rng &r, const N &prog, const std::vector<N> &stmts);
bool open_at_end(const std::string &text);     // source that ends inside a string, comment or bracket
void gen_aborts(Rng &r, std::vector<N> &k, int64_t hostcalls, int pct);
// engines, one file each
#define ENGINE(id) N gen_##id(Rng &r, int tier); void run_##id(const N &plan);
ENGINE(C01) ENGINE(C02) ENGINE(C03) ENGINE(C04) ENGINE(C05) ENGINE(C06) ENGINE(C07) ENGINE(C08) ENGINE(C09) ENGINE(C10) ENGINE(C11) ENGINE(C12) ENGINE(C13) ENGINE(C14) ENGINE(C15) ENGINE(C16) ENGINE(C17) ENGINE(C18)
