// Type-directed program generator (swarm style: every feature can be off in a given run).
#pragma once
#include "model.h"
struct GenCfg {
	bool host = true, closures = true, loops = true, sets = true, tables = true, strings = true, objs = true, mts = false, hcall = false, globals = true;
	bool multi = false;           // functions with any number of results
	bool match = false;           // match statements
	bool errors = false;          // statements that raise on purpose
	int illtyped = 0;             // per mille of expressions of a wrong type
	int stmts = 14, maxdepth = 3;
	int big = 0;                  // bias to container growth
	std::vector<std::string> mods;
	std::map<std::string, std::string> modexports;
	std::string prefix;           // variable name prefix
};
struct Gen {
	Rng &r; GenCfg c;
	struct Var { std::string n; char ty; bool mut; int fn; bool blk; };
	std::vector<Var> vars;
	int next = 0, fnlevel = 0, inloop = 0, blkdepth = 0, total = 0, ininterp = 0;
	std::vector<int> loopstack;
	Gen(Rng &r_, const GenCfg &c_) : r(r_), c(c_) {}
	std::string fresh() { return c.prefix + "v" + std::to_string(next++); }
	bool visible(const Var &v) { return v.fn == fnlevel || c.closures; }
	const Var *pickvar(char ty, bool mut = false);
	char anytype();
	N lit(char ty, int d);
	N ex(char ty, int d);
	N ex0(char ty, int d);
	N iexpr(int d);
	N cond(int d);
	N comp(int d);
	N str();
	N key();
	void stmt(std::vector<N> &out, int d);
	void body(std::vector<N> &out, int n, int d);
	N fnbody(const std::vector<std::pair<std::string, char>> &ps, char ret, int d, const char *head, const std::string &name);
	struct Bind { std::string n; char ty; bool mut; };
	N pattern(char ty, int d, std::vector<Bind> *b);
	N variant(const N &p);
	N matchstmt(int d);
	N program();
	void emits(std::vector<N> &out);
};
N V_(const std::string &n);
N H_(const char *fn, std::vector<N> a);
N X_(N e);
N M_(const char *m, N o, std::vector<N> a);
N BIN(const char *op, N a, N b);
