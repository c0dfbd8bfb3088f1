// C02: ownership shapes, and every way a state can end: never run, only compiled, source rejected, finished, failed, aborted by the host.
#include "engine.h"
#include <algorithm>
namespace {
N IL(int64_t n) { return L("i", I(n)); }
N obj() { return H_("hobj", {IL(0)}); }
struct OG {
	Rng &r; int next = 0, depth = 0, fns = 0;
	std::vector<std::string> v;             // file-level variables
	std::vector<std::string> locals;
	bool closures, mts, loops, files, sets, strs;
	explicit OG(Rng &r_) : r(r_) { closures = r.chance(75); mts = r.chance(50); loops = r.chance(70); files = r.chance(40); sets = r.chance(40); strs = r.chance(60); }
	std::string fresh(const char *p) { return p + std::to_string(next++); }
	std::string anyvar() { if (!locals.empty() && r.chance(60)) return r.pick(locals); return r.pick(v); }
	N key() { static const char *w[] = {"a", "b", "c", "d"}; return r.chance(60) ? S(w[r.next() % 4]) : IL(r.range(0, 5)); }
	N val(int d = 0) {
		switch (r.range(0, 15)) {
		case 0: case 1: case 2: case 3: return obj();
		case 4: return r.chance(50) ? IL(r.range(0, 9)) : L("u");
		case 5: if (strs) return BIN("~", S("s"), L("tern", L("b", I(1)), IL(r.range(0, 99999)), IL(1))); return S("txt");
		case 6: return V_(anyvar());
		default: if (d > 2) return obj(); break;
		}
		switch (r.range(0, 8)) {
		case 0: case 1: { std::vector<N> k{A("ls")}; for (int i = 0, n = (int)r.range(0, 4); i < n; i++) k.push_back(val(d + 1)); return L(k); }
		case 2: case 3: { std::vector<N> k{A("tb")}; int64_t b = r.range(0, 9); for (int i = 0, n = (int)r.range(0, 3); i < n; i++) { k.push_back(IL(b + i)); k.push_back(val(d + 1)); } return L(k); }
		case 4: if (closures) { std::string p = fresh("p"); return L("lam", L(std::vector<N>{A(p)}), L("ret", r.chance(50) ? V_(anyvar()) : L("ls", V_(p), V_(anyvar())))); } return obj();
		case 5: if (mts) return L("mtset", L("tb", S("x"), val(d + 1)), L("tb", S("y"), val(d + 1))); return obj();
		case 6: if (sets) return L("set", IL(1), S("el"), IL(r.range(0, 4))); return obj();
		case 7: { std::vector<N> k{A("clist")}; for (int i = 0, n = (int)r.range(0, 3); i < n; i++) k.push_back(val(d + 1)); return L(k); }
		default: return BIN("+", L("ls", val(d + 1)), L("ls", val(d + 1), val(d + 1)));
		}
	}
	// guarded operations: the variable may hold anything, so each use is guarded by what the generator tracks loosely; a failing one is an ending too
	void stmt(std::vector<N> &o, int d, bool infn) {
		N t = V_(anyvar());
		switch (r.range(0, 23)) {
		case 0: case 1: if (d == 0) { std::string n = fresh("a"); o.push_back(L("let", A(n), val())); v.push_back(n); } else if (infn) { std::string n = fresh("x"); o.push_back(L("let", A(n), val())); locals.push_back(n); } else o.push_back(L("=", A(anyvar()), val())); return;
		case 2: case 3: case 4: o.push_back(L("=", A(anyvar()), r.chance(30) ? L("u") : val())); return;
		case 5: case 6: { std::string n = anyvar(); o.push_back(L("=", A(n), L("ls", val(), val()))); std::vector<N> b; N m = V_(n);
			switch (r.range(0, 7)) {
			case 0: o.push_back(X_(M_("push", m, {val()}))); break;
			case 1: o.push_back(X_(M_("pop", m, {}))); break;
			case 2: o.push_back(L("ix=", m, IL(r.range(-2, 1)), val())); break;
			case 3: o.push_back(X_(M_("insert", m, {IL(r.range(0, 2)), val()}))); break;
			case 4: o.push_back(X_(M_("clear", m, {}))); break;
			case 5: o.push_back(L("=", A(n), L("sl", m, IL(1), L("u")))); break;
			case 6: o.push_back(X_(M_("reverse", m, {}))); break;
			default: o.push_back(X_(H_("hlpush", {m, val()}))); }
			return; }
		case 7: case 8: { std::string n = anyvar(); o.push_back(L("=", A(n), L("tb", S("a"), val(), S("b"), val()))); N m = V_(n);
			switch (r.range(0, 7)) {
			case 0: o.push_back(L("ix=", m, key(), val())); break;
			case 1: o.push_back(L("ix=", m, S("a"), L("u"))); break;
			case 2: o.push_back(X_(M_("remove", m, {key()}))); break;
			case 3: o.push_back(X_(M_("clear", m, {}))); break;
			case 4: o.push_back(L("=", A(n), M_("copy", m, {}))); break;
			case 5: o.push_back(L("=", A(n), BIN("|", m, L("tb", S("b"), val())))); break;
			case 6: o.push_back(X_(H_("htset", {m, key(), val()}))); break;
			default: o.push_back(L("=", A(n), M_("values", m, {}))); }
			return; }
		case 9: if (loops && d < 3) { std::string x = fresh("i"); std::vector<N> b{A("do")}; auto sv = locals; locals.push_back(x); for (int i = 0, n = (int)r.range(1, 3); i < n; i++) { stmt(b, d + 1, infn); } locals = sv; if (r.chance(25)) { std::vector<N> e{A("do"), infn && r.chance(50) ? L("ret", val()) : L(r.chance(50) ? "brk" : "cont")}; b.push_back(L("if", BIN("==", H_("hid", {IL(r.range(0, 2))}), IL(1)), L(e))); }
				std::vector<N> k{A("ls")}; for (int i = 0, n = (int)r.range(1, 3); i < n; i++) k.push_back(val()); o.push_back(L("for", A(x), L(k), L(b))); return; }
			o.push_back(X_(H_("hemit", {IL(1)}))); return;
		case 10: { std::vector<N> b{A("do")}; auto sv = locals; for (int i = 0, n = (int)r.range(1, 3); i < n; i++) stmt(b, d + 1, infn); locals = sv; o.push_back(L("if", BIN("==", H_("hid", {IL(r.range(0, 1))}), IL(1)), L(b))); return; }
		case 11: case 12: if (closures && d == 0 && fns < 4) { // a function with locals, called at once
				std::string f = fresh("f"), p = fresh("p"); fns++; std::vector<N> k{A("fn"), A(f), L(std::vector<N>{A(p)})};
				auto sv = locals; locals = {p}; for (int i = 0, n = (int)r.range(1, 4); i < n; i++) stmt(k, 1, true); k.push_back(L("ret", val())); locals = sv;
				o.push_back(L(k)); std::string n = fresh("a"); o.push_back(L("let", A(n), L("call", V_(f), val()))); v.push_back(n); if (r.chance(40)) o.push_back(L("=", A(n), H_("hcall", {V_(f), val()}))); return; }
			o.push_back(X_(H_("hemit", {t}))); return;
		case 13: case 14: o.push_back(X_(H_("hemit", {r.chance(60) ? t : val()}))); return;
		case 15: { static const char *g[] = {"g0", "g1", "g2"}; o.push_back(X_(H_("hsetg", {S(g[r.next() % 3]), val()}))); return; }
		case 16: if (closures) { std::string n = anyvar(); std::string p = fresh("p"); o.push_back(L("=", A(n), L("lam", L(std::vector<N>{A(p)}), L("ret", L("ls", V_(p), V_(anyvar())))))); o.push_back(L("=", A(anyvar()), L("call", V_(n), val()))); return; } break;
		case 17: if (files && d == 0) { std::string p = "./o" + std::to_string(r.range(0, 2)); switch (r.range(0, 2)) { case 0: o.push_back(L("raw", S("io.open('" + p + "', 'w');"))); break; case 1: { std::string n = fresh("h"); o.push_back(L("raw", S("let " + n + " = io.open('" + p + "', 'a');"))); o.push_back(L("raw", S(n + "->write('some text');"))); if (r.chance(40)) o.push_back(L("raw", S(n + "->close();"))); else if (r.chance(40)) o.push_back(L("raw", S(n + " = undef;"))); else if (closures) { std::string q = fresh("q"); o.push_back(L("raw", S("let " + q + " = fn() { return " + n + "; };"))); } break; } default: { std::string n = fresh("h"); o.push_back(L("raw", S("let " + n + " = [io.open('" + p + "', 'a'), {'h': io.open('./nosuch', 'r')}];"))); } } return; } break;
		case 18: if (mts) { std::string n = anyvar(); o.push_back(L("=", A(n), L("tb", S("q"), val()))); o.push_back(X_(L("mtset", V_(n), r.chance(25) ? L("u") : L("tb", S("m"), val())))); return; } break;
		case 19: if (r.chance(12)) { // failing statements with live operands
				switch (r.range(0, 6)) {
				case 0: o.push_back(X_(BIN("+", L("ls", obj()), obj()))); return;
				case 1: o.push_back(X_(L("ix", L("ls", obj()), IL(9)))); return;
				case 2: o.push_back(L("ix=", L("ls", obj()), IL(9), obj())); return;
				case 3: o.push_back(L("ix=", L("tb"), L("ls", obj()), obj())); return;
				case 4: o.push_back(X_(H_("hthrow", {IL(r.range(0, 9))}))); return;
				case 5: o.push_back(L("echo", L("ls", S("x"), obj()))); return;
				default: o.push_back(X_(L("call", obj(), obj()))); return;
				} }
			break;
		case 22: case 23: if (d < 3) {
				std::string a = fresh("y"), b = fresh("y"); auto sv = locals; std::vector<N> m{A("match")};
				auto pb = [&](const std::string &n) { return L("pbind", A("let"), A(n)); };
				int shape = (int)r.range(0, 3); bool outer = r.chance(40); N x = outer ? t : val(), y = val();
				m.push_back(shape == 0 ? x : shape == 1 ? L("ls", x, y) : shape == 2 ? L("tb", S("a"), x, S("b"), y) : L("ls", L("ls", x), y));
				if (shape && r.chance(50)) m.push_back(L("case", shape == 2 ? L("pvtb", S("a"), pb(fresh("z")), S("b"), L("plit", S("no"))) : L("pls", pb(fresh("z")), L("plit", S("no"))), A("-"), L("do", X_(H_("hemit", {IL(-8)})))));
				if (r.chance(30)) m.push_back(L("case", L("pls", L("pany"), L("pany"), L("pany")), A("-"), L("do", X_(H_("hemit", {IL(-9)})))));
				locals.push_back(a); if (shape) locals.push_back(b);
				std::vector<N> bd{A("do")};
				if (r.chance(40)) bd.push_back(L("=", A(r.pick(v)), V_(r.chance(50) && shape ? b : a)));
				auto in = locals;
				for (int i = 0, n = (int)r.range(0, 2); i < n; i++) { locals = in; std::vector<N> tmp; stmt(tmp, d + 1, infn); for (auto &z : tmp) bd.push_back(z); }
				if (infn && r.chance(20)) bd.push_back(L("ret", V_(a)));
				locals = sv;
				m.push_back(L("case", shape == 0 ? pb(a) : shape == 1 ? L(r.chance(50) ? "pls" : "pvls", pb(a), pb(b)) : shape == 2 ? L(r.chance(50) ? "ptb" : "pvtb", S("a"), pb(a), S("b"), pb(b)) : L("pls", L("pls", pb(a)), pb(b)), A("-"), L(bd)));
				o.push_back(L(m)); return; }
			break;
		case 20: if (loops) { std::string x = fresh("c"); o.push_back(L("=", A(anyvar()), L("comp", L("ls", V_(x), obj()), A(x), L("ls", val(), val())))); return; } break;
		default: o.push_back(X_(H_("hsum", {val(), val(), t}))); return;
		}
		o.push_back(X_(H_("hid", {val()})));
	}
	N program(int tier) {
		std::vector<N> k{A("prog")};
		for (int i = 0; i < 3; i++) { std::string n = fresh("a"); k.push_back(L("let", A(n), i == 0 ? obj() : L("ls"))); v.push_back(n); }
		for (int i = 0, n = (int)r.range(4, tier ? 30 : 20); i < n; i++) stmt(k, 0, false);
		return L(k);
	}
};
void prep(Model &m) { m.track_reach = true; }
void host_ops(Actor &a, const N &ops) {
	if (!ops) return;
	YASL_State *S = a.S;
	int n = 0;
	for (size_t i = 1; i < ops->size(); i++) {
		const std::string &h = ops->k[i]->a;
		if (h == "obj") YASL_pushuserdata(S, a.mkobj(), OBJ_TAG, [](void *p) { if (++((Obj *)p)->destroyed > 1) violation("double-destroy", "destructor of a host value ran twice"); });
		else if (h == "list") { YASL_pushlist(S); YASL_pushuserdata(S, a.mkobj(), OBJ_TAG, [](void *p) { if (++((Obj *)p)->destroyed > 1) violation("double-destroy", "destructor of a host value ran twice"); }); YASL_listpush(S); }
		else if (h == "table") { YASL_pushtable(S); YASL_pushlit(S, "k"); YASL_pushuserdata(S, a.mkobj(), OBJ_TAG, [](void *p) { if (++((Obj *)p)->destroyed > 1) violation("double-destroy", "destructor of a host value ran twice"); }); YASL_tableset(S); }
		else if (h == "str") YASL_pushlstr(S, "some host bytes", 15);
		else if (h == "int") YASL_pushint(S, 5);
		else if (h == "pop") { if (n > 0) { YASL_pop(S); n--; } continue; }
		else if (h == "dup") { if (n > 0) { YASL_duptop(S); n++; } continue; }
		else if (h == "glob") { if (n > 0) { a.decl("hg"); YASL_setglobal(S, "hg"); n--; } continue; }
		else if (h == "mt") { YASL_pushtable(S); YASL_registermt(S, "host metatable"); continue; }
		else if (h == "setmt") { YASL_pushtable(S); YASL_pushtable(S); YASL_setmt(S); }
		else continue;
		n++;
	}
}
std::vector<N> gen_ops(Rng &r, const char *head) {
	std::vector<N> k{A(head)};
	static const char *o[] = {"obj", "list", "table", "str", "int", "pop", "dup", "glob", "mt", "setmt"};
	for (int i = 0, n = (int)r.range(0, 8); i < n; i++) k.push_back(A(o[r.next() % 10]));
	return k;
}
}
N gen_C02(Rng &r, int tier) {
	N p; Model m;
	for (int i = 0; i < 8 && !p; i++) {
		if (r.chance(75)) { OG g(r); p = g.program(tier); }
		else { GenCfg c = swarm(r, tier); c.objs = true; Gen g(r, c); p = g.program(); }
		Model m2; std_hvals(m2);
		try { m2.run(p); m = m2; } catch (Abandon &) { p = nullptr; }
	}
	if (!p) p = L("prog", X_(H_("hemit", {IL(1)})));
	std::vector<N> k{A("plan"), p};
	gen_knobs(r, k);
	std::string e = r.chance(76) ? "run" : r.chance(40) ? "broken" : r.chance(50) ? "compile" : "none";
	k.push_back(L("ending", A(e)));
	if (e == "run") gen_aborts(r, k, m.hostcalls, 60);
	if (e == "broken") { static const char *t[] = {"}", ")", "]", "let", "@", "x y", "fn (", "[1, 2", "{1: ", "if {", "\"a#{", "'", "nosuchvar;", "1 = 2;", "for x <-", "fn q() { break; };", "{:", "const zq = 1; zq = 2;", "-> f", "match 1 {"}; k.push_back(L("damage", I(r.range(0, 1000)), S(t[r.next() % 20]))); }
	k.push_back(L(gen_ops(r, e == "none" ? "ops" : "after")));
	if (r.chance(15)) k.push_back(L("faults", L(r.chance(50) ? "close-fail" : "write-err", S("*"), I(r.range(1, 4)), I(0), I(0))));
	return L(k);
}
void run_C02(const N &plan) {
	N p = find(plan, "prog");
	if (!p) discard("no program");
	std::string e = "run";
	if (N n = find(plan, "ending")) e = n->k[1]->a;
	Case c;
	if (!c.prepare(plan, p, prep)) discard("model");
	N dmg = find(plan, "damage");
	if (e == "broken" && dmg && dmg->size() > 2) {
		std::vector<size_t> at{0}; for (size_t i = 0; i < c.src.size(); i++) if (c.src[i] == '\n') at.push_back(i + 1);
		c.src.insert(at[(size_t)dmg->k[1]->num() % at.size()], dmg->k[2]->a + "\n");
	}
	logs(c.src);
	set_step_budget(60000000);
	c.start();
	bool cyc = false;
	auto files = [&](const char *when) { for (auto &o : w.opens) if (o.closes != 1) violation("not-closed", "%s: stream #%d (%s) was closed %lld times", when, o.id, o.path.c_str(), (long long)o.closes); };
	if (e == "none") host_ops(c.a, find(plan, "ops"));
	else if (e == "compile" || e == "broken") {
		int s = YASL_compile(c.a.S);
		logf_("compile %d", s);
		if (!c.a.trace.empty()) violation("ran", "compiling ran the program");
		if (e == "compile" && s != YASL_SUCCESS) violation("status", "a program of the language does not compile: status %d", s);
		if (e == "broken") {
			Actor b; b.id = 2;
			b.open_buf(c.src); b.libs();
			if (s != YASL_SUCCESS) {
				int s2 = b.run();
				if (s2 != s) violation("status", "compile says %d, execute says %d", s, s2);
				if (!b.trace.empty()) violation("ran", "rejected source ran");
				probe("rejected");
			}
			b.close(); b.check_objs("rejected source");
		}
	} else {
		// while the state lives, what the program can certainly still reach is not destroyed
		c.a.on_host = [&](Actor &a) {
			size_t i = (size_t)a.hostcalls - 1;
			if (i >= c.m.reach.size()) return;
			for (int64_t id : c.m.reach[i]) if (id >= 1 && (size_t)id <= a.objs.size() && a.objs[(size_t)id - 1]->destroyed) violation("destroyed-but-reachable", "host call %lld: userdata %lld was destroyed while the program can still reach it", (long long)a.hostcalls, (long long)id);
		};
		c.a.run();
		c.judge("run");
		host_ops(c.a, find(plan, "after"));
		cyc = c.m.cyclic;
	}
	c.a.close();
	if (!cyc) { c.a.check_objs("after the state was deleted"); files("after the state was deleted"); }
	check_no_leak("after the state was deleted", cyc);
	sh->nontrivial = sh->loghash | 1;
	finish_ok();
}
