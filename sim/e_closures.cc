// C14: captured variables: shared by every closure and by the scope that declared them, kept after the scope is left in whatever way.
#include "engine.h"
namespace {
N IL(int64_t n) { return L("i", I(n)); }
struct KG {
	Rng &r;
	struct Var { std::string n; char ty; bool konst; bool own = false; };     // own: a parameter, in the scope a body's first statements share
	std::vector<Var> vis;
	int next = 0, fnl = 0, loops = 0, makers = 0, size = 0, limit;
	bool reent, objs, shadow, hosty, exits;
	KG(Rng &r_, int tier) : r(r_) { reent = r.chance(55); objs = r.chance(45); shadow = r.chance(60); hosty = r.chance(60); exits = r.chance(75); limit = tier ? 130 : 80; }
	std::string fresh(const char *p) { return p + std::to_string(next++); }
	const Var *pick(char ty, bool mut = false) {
		std::set<std::string> seen; std::vector<const Var *> c;
		for (size_t i = vis.size(); i-- > 0;) { if (!seen.insert(vis[i].n).second) continue; if (vis[i].ty == ty && !(mut && vis[i].konst)) c.push_back(&vis[i]); }
		if (c.empty()) return nullptr;
		if (r.chance(40)) return c[r.next() % std::min<size_t>(c.size(), 3)];     // the innermost ones
		return c[r.next() % c.size()];
	}
	N mod(N e) { return BIN("%", e, IL(9973)); }
	N ex(int d = 0) {
		const Var *v = pick('I');
		if (!v || r.chance(15)) return IL(r.range(0, 50));
		N a = V_(v->n);
		if (d > 2 || r.chance(45)) return a;
		static const char *op[] = {"+", "*", "-"};
		return mod(BIN(op[r.next() % 3], a, ex(d + 1)));
	}
	N cond() { return BIN("==", BIN("%", ex(1), IL(r.range(2, 3))), IL(r.range(0, 1))); }
	void shadows(std::vector<N> &o) {     // only at the start of a scope: nothing in it can have referred to the outer variable yet
		if (!shadow || !r.chance(30)) return;
		const Var *v = pick('I'); if (!v || v->own) return;
		std::string n = v->n;
		o.push_back(L(r.chance(80) ? "let" : "const", A(n), IL(r.range(100, 199))));
		vis.push_back({n, 'I', o.back()->head() == "const"});
	}
	N closure(int d) {
		auto sv = vis; int sl = loops; loops = 0; fnl++;
		std::string p = fresh("p");
		if (shadow && r.chance(15)) if (const Var *v = pick('I')) p = v->n;
		vis.push_back({p, 'I', false, true});
		std::vector<N> k{A("lam"), L(std::vector<N>{A(p)})};
		shadows(k);
		for (auto &v : vis) v.own = false;
		stmts(k, (int)r.range(0, d > 2 ? 1 : 3), d + 1);
		if (objs && r.chance(20)) if (const Var *o = pick('O')) k.push_back(X_(H_("hemit", {V_(o->n)})));
		k.push_back(L("ret", ex()));
		fnl--; loops = sl; vis = sv;
		return L(k);
	}
	N call1(N f) { return hosty && r.chance(30) ? H_("hcall", {f, ex(1)}) : L("call", f, ex(1)); }
	void use(std::vector<N> &o, N e) {
		const Var *v = pick('I', true);
		N s = v && r.chance(60) ? L("=", A(v->n), e) : r.chance(60) ? X_(H_("hemit", {e})) : X_(e);
		if (fnl == 0) { o.push_back(s); return; }
		if (!reent) return;
		o.push_back(L("if", BIN(">", V_("bud"), IL(0)), L("do", L("=", A("bud"), BIN("-", V_("bud"), IL(1))), s)));
	}
	void leave(std::vector<N> &o, int d) {      // a guarded way out of the enclosing loop or function
		if (!exits) return;
		if (loops && r.chance(70)) o.push_back(L("if", cond(), L("do", L(r.chance(50) ? "brk" : "cont"))));
		else if (fnl) o.push_back(L("if", cond(), L("do", L("ret", ex()))));
	}
	void body(std::vector<N> &k, int d) {
		auto sv = vis;
		shadows(k);
		stmts(k, (int)r.range(1, 3), d + 1);
		if (r.chance(50)) leave(k, d);
		if (r.chance(40)) stmts(k, 1, d + 1);
		vis = sv;
	}
	void maker(std::vector<N> &o, int d) {
		auto sv = vis; int sl = loops; loops = 0; fnl++; makers++;
		std::string f = fresh("m"), p = fresh("p");
		std::vector<N> k{A("fn"), A(f), L(std::vector<N>{A(p)})};
		vis.push_back({p, 'I', false, true});
		shadows(k);
		for (auto &v : vis) v.own = false;
		if (fnl == 1 && r.chance(12)) for (int i = 0, n = (int)r.range(100, 230); i < n; i++) { std::string v = fresh("w"); k.push_back(L("let", A(v), IL(i))); vis.push_back({v, 'I', false}); }
		stmts(k, (int)r.range(1, 5), d + 1);
		k.push_back(L("ret", closure(d + 1)));
		fnl--; loops = sl; vis = sv;
		o.push_back(L(k));
		for (int i = 0, n = (int)r.range(1, 2); i < n; i++) { std::string c = fresh("c"); o.push_back(L("let", A(c), L("call", V_(f), ex(1)))); vis.push_back({c, 'C', false}); }
	}
	void stmts(std::vector<N> &o, int n, int d) { for (int i = 0; i < n; i++) stmt(o, d); }
	void stmt(std::vector<N> &o, int d) {
		if (++size > limit) return;
		switch (r.range(0, 29)) {
		case 0: case 1: case 2: { std::string n = fresh("x"); bool k = r.chance(15); o.push_back(L(k ? "const" : "let", A(n), ex())); vis.push_back({n, 'I', k}); return; }
		case 3: case 4: case 5: if (const Var *v = pick('I', true)) { if (r.chance(50)) o.push_back(L("=", A(v->n), mod(BIN("+", V_(v->n), ex(1))))); else o.push_back(L("op=", A(v->n), A("+"), IL(r.range(1, 9)))); } return;
		case 6: case 7: { std::vector<N> a; for (int i = 0; i < 3; i++) if (const Var *v = pick('I')) a.push_back(V_(v->n)); o.push_back(X_(H_("hemit", a))); return; }
		case 8: case 9: case 10: if (d < 5) o.push_back(X_(M_("push", V_("fs"), {closure(d)}))); return;
		case 11: if (d < 5) { N c = closure(d); std::string n = fresh("f"); o.push_back(L("let", A(n), c)); vis.push_back({n, 'C', false}); } return;
		case 12: case 13: if (const Var *v = pick('C')) use(o, call1(V_(v->n))); return;
		case 14: case 15: use(o, call1(L("ix", V_("fs"), IL(r.chance(40) ? 0 : -1)))); return;
		case 16: if (d < 5) { std::vector<N> b{A("do")}; body(b, d); o.push_back(L("if", cond(), L(b))); } return;
		case 17: case 18: if (d < 4) { // loop variable and body locals captured
				std::string x = fresh("i"); auto sv = vis;
				std::vector<N> b{A("do")}, ls{A("ls")}; for (int i = 0, n = (int)r.range(1, 4); i < n; i++) ls.push_back(ex(2));
				vis.push_back({x, 'I', false}); loops++;
				body(b, d); loops--; vis = sv; o.push_back(L("for", A(x), L(ls), L(b))); } return;
		case 19: if (d < 4) { std::string x = fresh("i"); auto sv = vis; vis.push_back({x, 'I', true}); loops++; std::vector<N> b{A("do")}; body(b, d); loops--; vis = sv; o.push_back(L("fori", A(x), IL(0), IL(r.range(1, 4)), IL(1), L(b))); } return;
		case 20: if (d < 3 && makers < 4) maker(o, d); return;
		case 21: if (d < 4) { std::string k = fresh("k"), c = fresh("e"), q = fresh("q"); auto sv = vis; vis.push_back({c, 'I', false}); N cl = closure(d + 1); vis = sv;
				o.push_back(L("let", A(k), L("comp", cl, A(c), L("ls", ex(1), ex(1), ex(1))))); if (fnl == 0) o.push_back(L("for", A(q), V_(k), L("do", X_(H_("hemit", {L("call", V_(q), ex(1))}))))); } return;
		case 22: if (d < 5) { static const char *w[] = {"a", "b"}; std::string key = w[r.next() % 2]; o.push_back(L("ix=", V_("ts"), S(key), closure(d))); if (r.chance(60)) use(o, L("call", L("ix", V_("ts"), S(key)), ex(1))); } return;
		case 23: if (d < 5) if (const Var *v = pick('C', true)) { std::string n = v->n; N c = closure(d); o.push_back(L("=", A(n), c)); } return;
		case 24: if (objs) { std::string n = fresh("o"); o.push_back(L("let", A(n), H_("hobj", {IL(0)}))); vis.push_back({n, 'O', false}); } return;
		case 25: if (objs) if (const Var *v = pick('O')) { if (r.chance(60)) o.push_back(X_(H_("hemit", {V_(v->n)}))); else o.push_back(L("=", A(v->n), H_("hobj", {IL(0)}))); } return;
		case 28: case 29: if (d < 4) {     // names bound by patterns, captured and called
				auto sv = vis; std::vector<N> m{A("match")};
				int shape = (int)r.range(0, 3); std::string f = fresh("f"), y = fresh("y"); bool k = r.chance(50);
				auto pb = [&](const std::string &n) { return L("pbind", A(k ? "const" : "let"), A(n)); };
				N c = closure(d + 1), e = ex(1);
				N miss = L("case", r.chance(50) ? L("pls", L("pany")) : L("pvtb", S("none"), L("pany")), A("-"), L("do", X_(H_("hemit", {IL(-7)}))));
				if (shape == 0) { m.push_back(c); } else if (shape == 1) m.push_back(L("ls", c, e)); else if (shape == 2) m.push_back(L("tb", S("f"), c, S("y"), e)); else m.push_back(e);
				if (r.chance(40)) m.push_back(miss);
				if (shape && r.chance(30)) m.push_back(L("case", shape == 1 ? L("pls", L("pbind", A("let"), A(fresh("g"))), L("plit", S("no"))) : L("pvtb", S("y"), L("pbind", A("let"), A(fresh("g"))), S("f"), L("plit", S("no"))), A("-"), L("do", X_(H_("hemit", {IL(-8)})))));
				if (shape != 3) vis.push_back({f, 'C', k});
				if (shape != 0) vis.push_back({y, 'I', k});
				std::vector<N> b{A("do")};
				if (shape != 3 && r.chance(60)) use(b, call1(V_(f)));
				if (shape != 3 && r.chance(30)) b.push_back(X_(M_("push", V_("fs"), {V_(f)})));
				stmts(b, (int)r.range(1, 3), d + 1);
				if (r.chance(40)) leave(b, d);
				vis = sv;
				N pat = shape == 0 ? pb(f) : shape == 1 ? L(r.chance(50) ? "pls" : "pvls", pb(f), pb(y)) : shape == 2 ? L(r.chance(50) ? "ptb" : "pvtb", S("f"), pb(f), S("y"), pb(y)) : pb(y);
				m.push_back(L("case", pat, A("-"), L(b)));
				o.push_back(L(m));
			} return;
		case 26: if (fnl == 0) { std::string q = fresh("q"); o.push_back(L("for", A(q), M_("copy", V_("fs"), {}), L("do", X_(H_("hemit", {call1(V_(q))}))))); } return;
		default: if (fnl == 0 && r.chance(40)) { o.push_back(X_(M_("clear", V_("fs"), {}))); o.push_back(X_(M_("push", V_("fs"), {closure(d)}))); } else leave(o, d); return;
		}
	}
	N program(int tier) {
		std::vector<N> k{A("prog")};
		auto let = [&](const char *n, N e) { k.push_back(L("let", A(n), e)); };
		let("bud", IL(r.range(0, 6)));
		let("fs", L("ls", L("lam", L(std::vector<N>{A("z")}), L("ret", BIN("+", V_("z"), IL(1))))));
		let("ts", L("tb"));
		for (int i = 0, n = (int)r.range(1, 3); i < n; i++) { std::string v = fresh("x"); let(v.c_str(), IL(i)); vis.push_back({v, 'I', false}); }
		if (r.chance(6)) for (int i = 0, n = (int)r.range(100, 180); i < n; i++) { std::string v = fresh("w"); let(v.c_str(), IL(i)); vis.push_back({v, 'I', false}); }
		int n = (int)r.range(5, tier ? 26 : 18);
		for (int i = 0; i < n; i++) { size = std::max(0, limit - 12 - (int)r.range(0, 20)); stmt(k, 0); }
		std::string q = fresh("q");
		k.push_back(L("for", A(q), M_("copy", V_("fs"), {}), L("do", X_(H_("hemit", {L("call", V_(q), IL(1))})))));
		std::vector<N> a; for (int i = 0; i < 4; i++) if (const Var *v = pick('I')) a.push_back(V_(v->n));
		k.push_back(X_(H_("hemit", a)));
		return L(k);
	}
};
void prep14(Model &m) { m.track_reach = true; }
}
N gen_C14(Rng &r, int tier) {
	N p; Model m;
	for (int i = 0; i < 10 && !p; i++) {
		KG g(r, tier); p = g.program(tier);
		Model m2; std_hvals(m2);
		try { m2.run(p); m = m2; } catch (Abandon &) { p = nullptr; }
	}
	if (!p) p = L("prog", X_(H_("hemit", {IL(1)})));
	std::vector<N> k{A("plan"), p};
	gen_knobs(r, k);
	gen_aborts(r, k, m.hostcalls, 25);
	return L(k);
}
void run_C14(const N &plan) {
	N p = find(plan, "prog");
	if (!p) discard("no program");
	Case c;
	if (!c.prepare(plan, p, prep14)) discard("model");
	logs(c.src);
	set_step_budget(60000000);
	c.start();
	c.a.on_host = [&](Actor &a) {
		size_t i = (size_t)a.hostcalls - 1;
		if (i >= c.m.reach.size()) return;
		for (int64_t id : c.m.reach[i]) if (id >= 1 && (size_t)id <= a.objs.size() && a.objs[(size_t)id - 1]->destroyed) violation("destroyed-but-reachable", "host call %lld: userdata %lld was destroyed while a closure can still reach it", (long long)a.hostcalls, (long long)id);
	};
	c.a.run();
	c.judge("run");
	bool cyc = c.m.cyclic;
	c.a.close();
	if (!cyc) c.a.check_objs("after the state was deleted");
	check_no_leak("after the state was deleted", cyc);
	sh->nontrivial = sh->loghash | 1;
	finish_ok();
}
