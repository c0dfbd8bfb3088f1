// C16: walks over lists, tables and strings while script and host change, clear, drop or replace what is walked.
#include "engine.h"
namespace {
N IL(int64_t n) { return L("i", I(n)); }
struct WG {
	Rng &r; int tier;
	int next = 0, depth = 0, loops = 0, fnl = 0, size = 0, limit, walkid = 0, nfn = 0;
	bool tabs, cbs, host, hostwalk, nested, objs, errs, drops, big, wide;
	std::vector<std::string> xs;     // loop variables in scope (any type)
	WG(Rng &r_, int t) : r(r_), tier(t) {
		tabs = r.chance(70); cbs = r.chance(45); host = r.chance(60); hostwalk = tabs && r.chance(50); nested = r.chance(60); objs = r.chance(40); errs = r.chance(30); drops = r.chance(60); big = r.chance(20);
		wide = r.chance(9);       // far more elements than any small counter holds, and few statements
		limit = wide ? 22 : t ? 90 : 55;
	}
	std::string fresh(const char *p) { return p + std::to_string(next++); }
	std::string lname() { return "l" + std::to_string(r.range(0, 1)); }
	std::string tname() { return "t" + std::to_string(r.range(0, 1)); }
	N val() {
		if (objs && r.chance(15)) return H_("hobj", {IL(0)});
		if (nested && r.chance(8)) return L("ls", IL(r.range(0, 9)));
		return IL(r.range(0, big ? 200 : 12));
	}
	N key() { return r.chance(60) ? IL(r.range(0, big ? 60 : 8)) : S(std::string("k") + (char)('a' + r.range(0, big ? 15 : 5))); }
	N cnt() { return BIN("==", BIN("%", V_("n"), IL(r.range(2, 4))), IL(r.range(0, 1))); }
	N budget(std::vector<N> s) { std::vector<N> b{A("do"), L("=", A("bud"), BIN("-", V_("bud"), IL(1)))}; b.insert(b.end(), s.begin(), s.end()); return L("if", BIN(">", V_("bud"), IL(0)), L(b)); }
	N nonempty(N l, N s) { return L("if", BIN(">", L("len", l), IL(0)), L("do", s)); }
	N coll() {
		switch (r.range(0, nested ? 8 : 5)) {
		case 0: case 1: case 2: case 3: return V_(lname());
		case 4: return M_("copy", V_(lname()), {});
		case 5: return r.chance(50) ? L("sl", V_(lname()), r.chance(50) ? L("u") : IL(r.range(-3, 3)), r.chance(50) ? L("u") : IL(r.range(0, 6))) : L("ls", val(), val(), val());
		default: return L("tern", BIN(">", L("len", V_("ll")), IL(0)), L("ix", V_("ll"), IL(r.chance(50) ? 0 : -1)), V_(lname()));
		}
	}
	void change(std::vector<N> &o) {
		std::string ln = lname(), tn = tname();
		N l = V_(ln), t = V_(tn);
		switch (r.range(0, 21)) {
		case 0: case 1: o.push_back(budget({X_(M_("push", l, {val()}))})); return;
		case 2: o.push_back(budget({X_(M_("insert", l, {r.chance(60) ? IL(0) : L("len", l), val()}))})); return;
		case 3: case 4: o.push_back(nonempty(l, X_(M_("pop", l, {})))); return;
		case 5: o.push_back(nonempty(l, L("ix=", l, IL(r.chance(50) ? 0 : -1), val()))); return;
		case 6: if (r.chance(50)) o.push_back(X_(M_("clear", l, {}))); else o.push_back(X_(M_("reverse", l, {}))); return;
		case 7: if (drops) { o.push_back(L("=", A(ln), r.chance(50) ? L("ls", val(), val()) : V_(ln == "l0" ? "l1" : "l0"))); } return;
		case 8: if (nested) { if (r.chance(50)) o.push_back(nonempty(V_("ll"), X_(M_("pop", V_("ll"), {})))); else o.push_back(budget({X_(M_("push", V_("ll"), {L("ls", val(), val())}))})); } return;
		case 9: if (nested && drops) o.push_back(r.chance(50) ? X_(M_("clear", V_("ll"), {})) : nonempty(V_("ll"), L("ix=", V_("ll"), IL(0), L("ls", val())))); return;
		case 10: case 11: case 12: if (tabs) o.push_back(budget({L("ix=", t, key(), val())})); return;
		case 13: case 14: if (tabs) o.push_back(r.chance(50) ? X_(M_("remove", t, {key()})) : L("ix=", t, key(), L("u"))); return;
		case 15: if (tabs) o.push_back(r.chance(50) ? X_(M_("clear", t, {})) : !xs.empty() ? L("ix=", t, BIN("~", S("k"), S("a")), L("u")) : X_(M_("remove", t, {key()}))); return;
		case 16: if (tabs && drops) o.push_back(L("=", A(tn), r.chance(50) ? L("tb", key(), val()) : V_(tn == "t0" ? "t1" : "t0"))); return;
		case 17: if (host) o.push_back(budget({X_(H_("hlpush", {l, val()}))})); return;
		case 18: if (host && tabs) o.push_back(budget({X_(H_("htset", {t, key(), val()}))})); return;
		case 19: if (tabs && !xs.empty()) o.push_back(L("if", BIN("==", IL(0), IL(0)), L("do", r.chance(60) ? X_(M_("remove", t, {V_("k")})) : L("ix=", t, V_("k"), val())))); return;     // the key the innermost table walk stands at
		case 20: if (tabs && big) { std::string i = fresh("i"); o.push_back(budget({L("fori", A(i), IL(0), IL(r.range(5, 40)), IL(1), L("do", L("ix=", t, BIN("+", V_(i), IL(r.range(0, 100))), V_(i))))})); } return;
		default: if (tabs && big) { std::string i = fresh("i"); o.push_back(L("fori", A(i), IL(0), IL(r.range(5, 60)), IL(1), L("do", X_(M_("remove", t, {BIN("+", V_(i), IL(r.range(0, 60)))}))))); } return;
		}
	}
	void changes(std::vector<N> &o, int lo, int hi) { for (int i = (int)r.range(lo, hi); i > 0; i--) change(o); }
	void leave(std::vector<N> &o) {
		if (errs && r.chance(25)) { o.push_back(L("if", BIN("==", V_("n"), IL(r.range(3, 20))), L("do", r.chance(50) ? X_(H_("hthrow", {IL(r.range(0, 9))})) : r.chance(50) ? X_(L("ix", V_(lname()), IL(1000))) : X_(L("call", IL(1)))))); return; }
		if (loops && r.chance(60)) o.push_back(L("if", cnt(), L("do", L(r.chance(50) ? "brk" : "cont"))));
		else if (fnl) o.push_back(L("if", cnt(), L("do", L("ret", V_("n")))));
	}
	void body(std::vector<N> &b, int d, const std::string &x) {
		b.push_back(L("op=", A("n"), A("+"), IL(1)));
		if (!x.empty() && r.chance(80)) b.push_back(X_(H_("hemit", {V_(x)})));
		changes(b, 0, 2);
		if (r.chance(45)) stmts(b, 1, d + 1);
		if (r.chance(40)) leave(b);
		changes(b, 0, 1);
	}
	void stmts(std::vector<N> &o, int n, int d) { while (n-- > 0) stmt(o, d); }
	void stmt(std::vector<N> &o, int d) {
		if (++size > limit) return;
		switch (r.range(0, 18)) {
		case 0: case 1: case 2: case 3: case 4: if (d < 4) {
				std::string x = fresh("x"); N c = coll();
				loops++; std::vector<N> b{A("do")}; body(b, d, x); loops--;
				o.push_back(L("for", A(x), c, L(b)));
			} return;
		case 5: case 6: case 7: case 8: if (d < 4 && tabs) {
				std::string x = fresh("x"), id = std::to_string(walkid++); N c = V_(tname());
				if (r.chance(15)) c = M_("copy", c, {});
				xs.push_back(x); loops++; std::vector<N> b{A("do")}; if (r.chance(60)) b.push_back(L("=", A("k"), V_(x))); body(b, d, ""); loops--; xs.pop_back();
				o.push_back(L("walk", A(id), A(x), c, L(b)));
			} return;
		case 9: if (d < 4) { std::string x = fresh("x"); loops++; std::vector<N> b{A("do")}; if (r.chance(40)) b.push_back(L("=", A("s"), BIN("~", S("q"), V_(x)))); body(b, d, x); loops--; o.push_back(L("for", A(x), r.chance(60) ? V_("s") : S("xyz"), L(b))); } return;
		case 10: if (nfn) { std::string q = fresh("q"); o.push_back(L("let", A(q), L("comp", L("call", V_("f" + std::to_string(r.range(0, nfn - 1))), V_("n")), A("_" + q), coll()))); o.push_back(X_(H_("hemit", {V_(q)}))); } return;
		case 11: case 12: if (nfn) { N f = V_("f" + std::to_string(r.range(0, nfn - 1))); o.push_back(X_(H_("hemit", {host && r.chance(40) ? H_("hcall", {f, V_("n")}) : L("call", f, V_("n"))}))); } return;
		case 13: if (cbs) { o.push_back(L("echo", r.chance(60) ? M_("join", V_("cl"), {S(",")}) : V_("cb"))); } return;
		case 14: if (cbs) o.push_back(X_(H_("hemit", {BIN("==", V_("cl"), V_("cm"))}))); return;
		case 15: if (hostwalk && fnl == 0) { o.push_back(X_(H_("hwalk", {V_("w0"), V_(tname())}))); } return;
		case 16: o.push_back(X_(H_("hemit", {r.chance(50) ? L("len", V_(lname())) : V_(lname())}))); return;
		case 17: if (tabs) o.push_back(X_(H_("hbag", {M_("keys", V_(tname()), {})}))); return;
		default: change(o); return;
		}
	}
	void func(std::vector<N> &o, const std::string &name) {
		std::vector<N> k{A("fn"), A(name), L(std::vector<N>{A("p")})};
		fnl++; int sl = loops; loops = 0; auto sx = xs; xs.clear();
		changes(k, 1, 3);
		if (r.chance(40)) stmts(k, 1, 2);
		if (r.chance(30)) leave(k);
		k.push_back(L("ret", V_("n")));
		fnl--; loops = sl; xs = sx;
		o.push_back(L(k));
	}
	N mt() {
		std::vector<N> ts{A("lam"), L(std::vector<N>{A("z")})}, eq{A("lam"), L(std::vector<N>{A("y"), A("z")})};
		fnl++;
		auto cbchange = [&](std::vector<N> &o) {
			changes(o, 0, 1);
			switch (r.range(0, 5)) {
			case 0: o.push_back(nonempty(V_("cl"), X_(M_("pop", V_("cl"), {})))); break;
			case 1: o.push_back(nonempty(V_("cm"), X_(M_("pop", V_("cm"), {})))); break;
			case 2: o.push_back(budget({X_(M_("push", V_("cl"), {V_("cb")}))})); break;
			case 3: if (r.chance(40)) o.push_back(X_(M_("clear", V_(r.chance(50) ? "cl" : "cm"), {}))); break;
			case 4: o.push_back(budget({X_(M_("insert", V_("cl"), {IL(0), V_("cb")}))})); break;
			default: break;
			}
		};
		cbchange(ts); cbchange(eq);
		fnl--;
		ts.push_back(L("ret", r.chance(95) ? S("<cb>") : IL(1)));
		eq.push_back(L("ret", L("b", I(r.chance(85)))));
		return L("tb", S("tostr"), L(ts), S("__eq"), L(eq));
	}
	N program() {
		std::vector<N> k{A("prog")};
		auto let = [&](const std::string &n, N e) { k.push_back(L("let", A(n), e)); };
		let("bud", IL(r.range(0, big ? 40 : 16))); let("n", IL(0)); let("s", S("abc")); let("k", IL(0));
		for (int i = 0; i < 2; i++) { std::vector<N> e{A("ls")}; for (int j = (int)r.range(0, big ? 30 : 6); j > 0; j--) e.push_back(val()); let("l" + std::to_string(i), L(e)); }
		if (wide) {
			static const std::vector<int64_t> around{100, 127, 128, 129, 200, 255, 256, 257, 260, 300, 400};
			std::string i = fresh("i");
			k.push_back(L("fori", A(i), IL(0), IL(r.pick(around)), IL(1), L("do", X_(M_("push", V_(lname()), {V_(i)})))));
			if (r.chance(50)) k.push_back(L("=", A("s"), M_("rep", S("ab.c"), {IL(r.range(20, 80))})));
			if (tabs && r.chance(50)) { i = fresh("i"); k.push_back(L("fori", A(i), IL(0), IL(r.pick(around)), IL(1), L("do", L("ix=", V_("t0"), V_(i), V_(i))))); }
		}
		if (nested) let("ll", L("ls", L("ls", val(), val()), L("ls", val(), val(), val())));
		for (int i = 0; i < 2; i++) { let("t" + std::to_string(i), L("tb")); for (int j = (int)r.range(0, big ? 30 : 7); j > 0; j--) k.push_back(L("ix=", V_("t" + std::to_string(i)), key(), val())); }
		if (big && r.chance(50)) { std::string i = fresh("i"); k.push_back(L("fori", A(i), IL(0), IL(r.range(20, 120)), IL(1), L("do", L("ix=", V_("t0"), V_(i), V_(i))))); }
		if (cbs) {
			let("cl", L("ls")); let("cm", L("ls")); let("cb", L("tb"));
			k.push_back(X_(L("mtset", V_("cb"), mt())));
			for (int j = (int)r.range(1, 4); j > 0; j--) { k.push_back(X_(M_("push", V_("cl"), {V_("cb")}))); k.push_back(X_(M_("push", V_("cm"), {V_("cb")}))); }
		}
		int nf = (int)r.range(0, 3);
		for (int i = 0; i < nf; i++) { func(k, "f" + std::to_string(i)); nfn++; }
		if (hostwalk) { int s = nfn; std::vector<N> f; func(f, "w0"); nfn = s; k.push_back(f[0]); }
		for (int i = (int)r.range(2, tier ? 9 : 6); i > 0; i--) { size = std::max(0, limit - 16); stmt(k, 0); }
		for (auto l : {"l0", "l1"}) k.push_back(X_(H_("hemit", {V_(l)})));
		for (auto t : {"t0", "t1"}) { k.push_back(X_(H_("hbag", {M_("keys", V_(t), {})}))); k.push_back(X_(H_("htiter", {V_(t)}))); }
		return L(k);
	}
};
}
static int hf_step(YASL_State *S) {
	Actor &a = host_enter(S, "hstep");
	std::string k = dump_top(S); YASL_pop(S);
	a.note("step " + std::to_string(YASL_popint(S)) + " " + k);
	fired(F_MUTATE_ITER);
	YASL_pushundef(S);
	return 1;
}
static int hf_done(YASL_State *S) { Actor &a = host_enter(S, "hdone"); a.note("done " + dump_top(S)); YASL_pop(S); YASL_pushundef(S); return 1; }
// walks a table from the host, calling a script function with each key
static int hf_walk(YASL_State *S) {
	Actor &a = host_enter(S, "hwalk");
	YASL_duptop(S); YASL_setglobal(S, "__wt");
	YASL_pop(S);
	YASL_setglobal(S, "__wf");
	YASL_loadglobal(S, "__wt");
	YASL_pushundef(S);
	int64_t n = 0;
	while (YASL_tablenext(S)) {
		YASL_pop(S);
		a.note("hstep " + dump_top(S));
		n++;
		bool isint = YASL_isint(S); int64_t ik = isint ? YASL_peekint(S) : 0; std::string sk = isint ? "" : top_bytes(S);
		YASL_loadglobal(S, "__wf");
		if (isint) YASL_pushint(S, ik); else YASL_pushlstr(S, sk.data(), sk.size());
		fired(F_CALLBACK);
		YASL_functioncall(S, 1);
		YASL_pop(S);
		if (n > 5000) violation("walk-unbounded", "a host walk made %lld steps over a table that never held that many keys", (long long)n);
	}
	YASL_pop(S);
	a.note("hwalked " + std::to_string(n));
	YASL_pushint(S, n);
	return 1;
}
N gen_C16(Rng &r, int tier) {
	N p; Model m;
	for (int i = 0; i < 10 && !p; i++) {
		WG g(r, tier); p = g.program();
		Model m2; std_hvals(m2);
		try { m2.run(p); m = m2; } catch (Abandon &) { p = nullptr; }
	}
	if (!p) p = L("prog", X_(H_("hemit", {IL(1)})));
	std::vector<N> k{A("plan"), p};
	gen_knobs(r, k);
	gen_aborts(r, k, m.hostcalls, 30);
	return L(k);
}
void run_C16(const N &plan) {
	N p = find(plan, "prog");
	if (!p) discard("no program");
	Case c;
	std_hvals(c.m);
	c.m.abort_at = getnum(plan, "abort-at", -1); c.m.abort_status = (int)getnum(plan, "abort-status", 2);
	c.src = render(p);
	c.a.hvals = fresh_hvals();
	c.a.abort_at = c.m.abort_at; c.a.abort_status = c.m.abort_status; c.a.abort_print = getnum(plan, "abort-print", 0);
	logs(c.src);
	set_step_budget(60000000);
	c.start();
	c.a.def("hstep", hf_step, 2); c.a.def("hdone", hf_done, 1); c.a.def("hwalk", hf_walk, 2); c.a.decl("__wt"); c.a.decl("__wf");
	c.a.run();
	// the order in which a table is walked is the implementation's: the model follows it and judges each step
	c.m.oracle = &c.a.trace;
	try { c.m.run(p); for (auto g : {"g0", "g1", "g2"}) dump(c.m.globals[g]); }
	catch (Abandon &a) { discard("model"); }
	catch (WalkErr &e) { violation("walk", "%s", e.msg.c_str()); }
	c.judge("run");
	bool cyc = c.m.cyclic;
	c.a.close();
	if (!cyc) c.a.check_objs("after the state was deleted");
	check_no_leak("after the state was deleted", cyc);
	sh->nontrivial = sh->loghash | 1;
	finish_ok();
}
