// C01: several states in one process, preempted at arbitrary control-flow edges, nested inside each other's host calls.
#include "engine.h"
static N gen_module(Rng &r) {
	// a module with private mutable state; exports a closure over it
	std::vector<N> k{A("prog")};
	k.push_back(L("let", A("mc"), L("i", I(r.range(0, 5)))));
	k.push_back(L("let", A("ml"), L("ls", L("i", I(1)))));
	k.push_back(L("fn", A("mf"), L(std::vector<N>{A("ma")}), L("op=", A("mc"), A("+"), V_("ma")), X_(M_("push", V_("ml"), {V_("mc")})), L("ret", BIN("+", V_("mc"), L("len", V_("ml"))))));
	k.push_back(L("export", V_("mf")));
	return L(k);
}
// few operations, the same in every state with other values: whatever one of them keeps outside the state, another state finds
struct Burst {
	Rng &r; int base, tmp = 0; std::vector<int> ops; bool err;
	explicit Burst(Rng &r_, const std::vector<int> &o, int b) : r(r_), base(b), ops(o) { err = r.chance(25); }
	N num() { return L("i", I(base + r.range(0, 90))); }
	N flt() { return L("f", S(std::to_string(base + r.range(0, 90)) + (r.chance(50) ? ".5" : ".25"))); }
	std::string word() { std::string s; for (int i = (int)r.range(1, 7); i > 0; i--) s += (char)('a' + (base + r.range(0, 9)) % 26); return s; }
	N str() { return S(word()); }
	N list(bool strs, int lo = 4, int hi = 20) { std::vector<N> k{A("ls")}; for (int i = (int)r.range(lo, hi); i > 0; i--) k.push_back(strs ? str() : num()); return L(k); }
	std::string fresh(const char *p) { return std::string("b") + p + std::to_string(tmp++); }
	N emit(N e) { return X_(H_("hemit", {e})); }
	void one(int op, std::vector<N> &o) {
		std::string a = fresh("a"), b = fresh("b"), c = fresh("c"); bool st = r.chance(50);
		auto let = [&](const std::string &n, N e) { o.push_back(L("let", A(n), e)); };
		switch (op) {
		case 0: let(a, list(st)); o.push_back(X_(M_("sort", V_(a), {}))); o.push_back(emit(V_(a))); break;
		case 1: let(a, list(st, 0, 12)); o.push_back(L("echo", V_(a))); break;
		case 2: let(a, list(true, 1, 6)); o.push_back(emit(M_("join", V_(a), {str()}))); o.push_back(emit(M_("tostr", V_(a), {}))); break;
		case 3: let(a, flt()); o.push_back(emit(M_("tostr", V_(a), {}))); o.push_back(L("echo", BIN("*", V_(a), num()))); o.push_back(emit(BIN("~", V_(a), str()))); break;
		case 4: { std::string s = word(), t; for (int i = 0; i < 4; i++) t += s + ","; let(a, S(t + word())); o.push_back(emit(M_("split", V_(a), {S(",")}))); o.push_back(emit(M_("replace", V_(a), {S(","), str()}))); o.push_back(emit(M_("count", V_(a), {S(s)}))); o.push_back(emit(M_("search", V_(a), {S(s.substr(0, 1))}))); } break;
		case 5: let(a, S("  " + word() + " ")); o.push_back(emit(M_("trim", V_(a), {}))); o.push_back(emit(M_("rep", V_(a), {L("i", I(r.range(0, 6)))}))); o.push_back(emit(M_("toupper", V_(a), {}))); o.push_back(emit(M_("split", V_(a), std::vector<N>{}))); break;
		case 6: { let(a, str()); std::vector<N> k{A("interp")}; for (int i = 0; i < 3; i++) { k.push_back(str()); k.push_back(r.chance(50) ? V_(a) : num()); } let(b, L(k)); o.push_back(emit(V_(b))); o.push_back(emit(L("sl", BIN("~", V_(b), V_(a)), L("i", I(1)), L("u")))); } break;
		case 7: { std::string n = std::to_string(base + r.range(0, 5000)); o.push_back(emit(M_("toint", S(n.substr(0, 1) + "_" + n), {}))); o.push_back(emit(M_("tofloat", S(n + ".5"), {}))); o.push_back(emit(M_("toint", S("0x" + n), {}))); } break;
		case 8: let(a, L("tb")); for (int i = (int)r.range(3, 12); i > 0; i--) o.push_back(L("ix=", V_(a), st ? str() : num(), num())); let(b, M_("keys", V_(a), {})); o.push_back(X_(M_("sort", V_(b), {}))); o.push_back(emit(V_(b))); o.push_back(emit(L("ix", V_(a), L("ix", V_(b), L("i", I(0)))))); break;
		case 9: { std::vector<N> k{A("set")}; for (int i = (int)r.range(2, 9); i > 0; i--) k.push_back(st ? str() : num()); let(a, L(k)); let(b, L(k)); o.push_back(emit(L("len", BIN("|", V_(a), V_(b))))); o.push_back(emit(BIN("==", M_("copy", V_(a), {}), V_(b)))); o.push_back(emit(L("ix", V_(a), st ? str() : num()))); } break;
		case 10: let(a, list(st)); let(b, M_("copy", V_(a), {})); o.push_back(emit(BIN("==", V_(a), V_(b)))); o.push_back(X_(M_("push", V_(b), {num()}))); o.push_back(emit(BIN("==", V_(a), V_(b)))); o.push_back(X_(M_("reverse", V_(b), {}))); o.push_back(emit(BIN("+", V_(b), V_(a)))); break;
		case 11: o.push_back(L("fn", A(a), L(std::vector<N>{A("p"), A("q")}), L("let", A(c), BIN("*", V_("p"), V_("q"))), L("ret", L("lam", L(std::vector<N>{A("z")}), L("op=", A(c), A("+"), V_("z")), L("ret", V_(c)))))); let(b, L("call", V_(a), num(), num())); for (int i = 0; i < 3; i++) o.push_back(emit(L("call", V_(b), num()))); break;
		case 12: let(a, L("comp", BIN("*", V_(c), num()), A(c), list(false))); o.push_back(emit(V_(a))); let(b, L("i", I(0))); o.push_back(L("for", A(c), V_(a), L("do", L("op=", A(b), A("+"), V_(c))))); o.push_back(emit(V_(b))); break;
		case 13: for (int i = 0; i < 3; i++) { N x = r.chance(50) ? flt() : num(); o.push_back(emit(BIN(r.chance(50) ? "%" : "//", num(), L("i", I(1 + base % 7 + r.range(0, 5)))))); o.push_back(emit(BIN(r.chance(50) ? "**" : "/", x, L("i", I(2))))); } break;
		default: let(a, L("mtset", L("tb", S("k"), num()), L("tb", S("__add"), L("lam", L(std::vector<N>{A("x"), A("y")}), L("ret", BIN("-", L("ix", V_("x"), S("k")), V_("y")))), S("tostr"), L("lam", L(std::vector<N>{A("x")}), L("ret", str()))))); o.push_back(emit(BIN("+", V_(a), num()))); o.push_back(L("echo", V_(a))); o.push_back(emit(M_("tostr", V_(a), {}))); break;
		}
	}
	N program(int blocks) {
		std::vector<N> k{A("prog")};
		for (int i = 0; i < blocks; i++) { std::vector<N> b{A("do")}; one(ops[r.next() % ops.size()], b); k.push_back(L("if", L("b", I(1)), L(b))); }
		if (err) k.push_back(X_(L("ix", list(false), L("i", I(1000)))));
		k.push_back(emit(L("i", I(-1))));
		return L(k);
	}
};
N gen_C01(Rng &r, int tier) {
	std::vector<N> k{A("plan")};
	gen_knobs(r, k);
	int na = (int)r.range(2, tier ? 5 : 4);
	bool mod = r.chance(35), nest = r.chance(45), focus = r.chance(35);
	std::vector<int> focus_ops;
	if (focus) for (int i = (int)r.range(1, 2); i > 0; i--) focus_ops.push_back((int)r.range(0, 14));
	auto burst = [&](int i, Model *m, int blocks) { for (int t = 0; t < 4; t++) { Burst b(r, focus_ops, 100 * i + 7 * (t + i)); N p = b.program(blocks); Model m2; std_hvals(m2); try { m2.run(p); *m = m2; return p; } catch (Abandon &) {} } return L("prog", X_(H_("hemit", {L("i", I(i))}))); };
	N modp;
	if (mod) { modp = gen_module(r); k.push_back(L("mods", L("mod", S("m0"), modp))); k.push_back(L("disk", L("f", S("./m0.yasl"), S(render(modp))))); }
	std::vector<N> nested{A("nested")};
	if (nest) {
		int nn = (int)r.range(1, 2);
		for (int i = 0; i < nn; i++) { GenCfg c = swarm(r, 0); c.stmts = (int)r.range(3, 8); Model m; N p = focus ? burst(9 - i, &m, (int)r.range(1, 3)) : gen_prog(r, c, 6, &m); std::vector<N> h{A("actor"), p}; gen_aborts(r, h, m.hostcalls, 25); nested.push_back(L(h)); }
		k.push_back(L(nested));
	}
	std::vector<N> as{A("actors")};
	GenCfg shared = swarm(r, tier);
	bool same = r.chance(20);       // the same program in every state
	N samep;
	for (int i = 0; i < na; i++) {
		GenCfg c = r.chance(50) ? swarm(r, tier) : shared;
		Model m;
		N p = same && samep ? samep : focus && r.chance(90) ? burst(i, &m, (int)r.range(2, 8)) : gen_prog(r, c, 6, &m);
		if (same && !samep) samep = p;
		std::vector<N> ins;
		if (nest) for (int j = (int)r.range(0, 3); j > 0; j--) ins.push_back(X_(H_("hnest", {L("i", I(r.range(0, 1)))})));
		if (mod && r.chance(70)) {
			std::string v = "mod" + std::to_string(i);
			std::vector<N> b{A("do"), L("let", A(v), L("req", S("m0"))), X_(H_("hemit", {L("call", V_(v), L("i", I(r.range(0, 4))))})), X_(H_("hemit", {L("call", V_(v), L("i", I(r.range(0, 4))))}))};
			ins.push_back(L("if", L("b", I(1)), L(b)));
		}
		p = insert_stmts(r, p, ins);
		std::vector<N> h{A("actor"), p};
		if (m.hostcalls) gen_aborts(r, h, m.hostcalls, 20);
		if (r.chance(15)) h.push_back(L("repeat", I(r.range(2, 3))));
		as.push_back(L(h));
	}
	k.push_back(L(as));
	std::vector<N> sw{A("switches")};
	int ns = (int)r.range(0, tier ? 120 : 50);
	int mag = (int)r.range(3, focus ? 10 : 14);
	for (int i = 0; i < ns; i++) sw.push_back(L("s", I(r.range(1, 1ll << r.range(1, mag))), I(r.range(0, na - 1))));
	k.push_back(L(sw));
	if (focus) k.push_back(L("reslice", I(r.range(10, 1ll << r.range(4, 10)))));
	else if (r.chance(60)) k.push_back(L("reslice", I(r.range(20, 1ll << r.range(6, 15)))));
	return L(k);
}
void run_C01(const N &plan) {
	N as = find(plan, "actors");
	if (!as || as->size() < 2) discard("no actors");
	std::map<std::string, N> mods;
	if (N mm = find(plan, "mods")) for (size_t i = 1; i < mm->size(); i++) if (mm->k[i]->is("mod")) mods[mm->k[i]->k[1]->a] = mm->k[i]->k[2];
	N nested = find(plan, "nested");
	bool cyclic = false;
	std::vector<std::unique_ptr<Case>> cases;
	int id = 0;
	auto prep = [&](Model &m) { m.modules = mods; };
	for (size_t i = 1; i < as->size(); i++) {
		N h = as->k[i];
		N p = find(h, "prog");
		if (!p) continue;
		int rep = (int)getnum(h, "repeat", 1);
		for (int q = 0; q < rep; q++) {
			auto c = std::make_unique<Case>();
			if (!c->prepare(h, p, prep)) discard("model");
			c->a.id = ++id;
			cyclic |= c->m.cyclic;
			logs(c->src);
			cases.push_back(std::move(c));
		}
	}
	if (cases.empty()) discard("no actors");
	// nested programs are run afresh on each nest call
	std::vector<N> np;
	if (nested) for (size_t i = 1; i < nested->size(); i++) if (find(nested->k[i], "prog")) np.push_back(nested->k[i]);
	std::vector<std::unique_ptr<Case>> inner;
	static int next_id = 100;
	auto on_nest = [&](Actor &, int64_t n) {
		if (np.empty()) return;
		N h = np[(size_t)n % np.size()];
		auto c = std::make_unique<Case>();
		if (!c->prepare(h, find(h, "prog"), prep)) discard("model");
		c->a.id = next_id++;
		cyclic |= c->m.cyclic;
		Case &cc = *c;
		inner.push_back(std::move(c));
		cc.start();
		cc.a.run();
		cc.judge("nested state");
		cc.finish("nested state");
		probe("nested_state");
	};
	set_step_budget(200000000);
	std::vector<std::pair<uint64_t, int>> sw;
	if (N s = find(plan, "switches")) for (size_t i = 1; i < s->size(); i++) if (s->k[i]->list && s->k[i]->size() > 2) sw.push_back({(uint64_t)s->k[i]->k[1]->num(), (int)s->k[i]->k[2]->num()});
	std::vector<std::function<void()>> bodies;
	// a repeated actor runs its states one after the other in one fiber
	for (size_t i = 0; i < cases.size();) {
		size_t j = i + 1;
		while (j < cases.size() && cases[j]->spec == cases[i]->spec) j++;
		bodies.push_back([&cases, &on_nest, i, j] {
			for (size_t q = i; q < j; q++) {
				Case &c = *cases[q];
				c.a.on_nest = on_nest;
				c.start();
				c.a.run();
				c.judge("state");
				c.finish("state");
			}
		});
		i = j;
	}
	fiber_run(bodies, sw, (int)getnum(plan, "reslice", 0));
	check_no_leak("end", cyclic);
	if (sh->faults[F_SWITCH] || sh->faults[F_NEST]) sh->nontrivial = sh->loghash | 1;
	finish_ok();
}
