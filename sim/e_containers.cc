// C13: long histories of container operations, script and host taking turns on shared containers, cut off at arbitrary points.
#include "engine.h"
namespace {
N IL(int64_t n) { return L("i", I(n)); }
N call_len(N x) { return L("len", x); }
struct CG {
	Rng &r;
	int kprof, vprof, nkeys;
	bool nestedv, loops, host, rare_fail;
	int tmp = 0;
	std::vector<N> out;
	std::vector<std::string> ls, ts, ss;
	int churn;
	explicit CG(Rng &r_) : r(r_) {}
	std::string fresh(const char *p) { return p + std::to_string(tmp++); }
	// the i-th key of this run's key space, as a literal
	N key(int64_t i) {
		switch (kprof) {
		case 0: return IL(i);
		case 1: return IL(i * 31 + 3);                     // one bucket of a fresh table
		case 2: return S("k" + std::to_string(i));
		case 3: switch (i % 5) { case 0: return IL(i / 5); case 1: return L("f", A(std::to_string(i / 5) + ".0")); case 2: return L("f", A(std::to_string(i / 5) + ".5")); case 3: return S(std::to_string(i / 5)); default: return i < 10 ? L("b", I(i / 5)) : S("b" + std::to_string(i)); }
		case 4: return IL((i % 2 ? -1 : 1) * i * 65536);
		case 5: { std::string s; for (int64_t x = i; x > 0; x /= 3) s += (char)(x % 3 == 0 ? 0xff : x % 3 == 1 ? 0x01 : 'a'); return S(s); }
		default: return IL(i * 61 * 31);
		}
	}
	// the same key computed from a loop variable (only some profiles)
	N vkey(const std::string &v) {
		switch (kprof) {
		case 1: return BIN("+", BIN("*", V_(v), IL(31)), IL(3));
		case 2: return BIN("~", S("k"), V_(v));
		case 6: return BIN("*", V_(v), IL(61 * 31));
		case 4: return BIN("*", V_(v), IL(65536));
		default: return V_(v);
		}
	}
	int64_t ki() { return r.chance(70) ? r.range(0, nkeys) : r.range(0, nkeys * 4); }
	N k() { return key(ki()); }
	std::string pl() { return r.pick(ls); }
	std::string pt() { return r.pick(ts); }
	std::string ps() { return r.pick(ss); }
	N scalar() {
		switch (vprof == 2 ? r.range(0, 5) : vprof) {
		case 0: return IL(r.range(-5, 40));
		case 1: return S(std::string(1, (char)('a' + r.range(0, 5))) + std::to_string(r.range(0, 3)));
		case 2: return L("b", I(r.range(0, 1)));
		case 3: { static const char *f[] = {"0.5", "1.0", "2.0", "-1.5", "3.25"}; return L("f", A(f[r.next() % 5])); }
		default: return IL(r.range(0, 9));
		}
	}
	N val() {
		if (nestedv && r.chance(25)) {
			if (r.chance(50)) return L("ls", scalar(), scalar());
			if (r.chance(50)) return L("tb", S("n"), scalar());
			return r.chance(50) ? V_(pl()) : V_(pt());
		}
		return scalar();
	}
	void emit(N e) { out.push_back(X_(H_("hemit", {e}))); }
	void collect(N coll) {   // an order-insensitive walk
		std::string w = fresh("w"), i = fresh("i");
		out.push_back(L("let", A(w), L("ls")));
		out.push_back(L("for", A(i), coll, L("do", X_(M_("push", V_(w), {V_(i)}))), A("c")));
		out.push_back(X_(H_("hbag", {V_(w)})));
	}
	void check_list() {
		N l = V_(pl());
		switch (r.range(0, 7)) {
		case 0: emit(l); break;
		case 1: emit(call_len(l)); break;
		case 2: emit(L("if2", l)); out.pop_back(); { std::string w = fresh("w"), i = fresh("i"); out.push_back(L("let", A(w), L("ls"))); out.push_back(L("for", A(i), l, L("do", X_(M_("push", V_(w), {V_(i)}))))); emit(BIN("==", V_(w), l)); emit(V_(w)); } break;
		case 3: emit(BIN("==", M_("copy", l, {}), l)); break;
		case 4: emit(BIN("==", l, V_(pl()))); break;
		case 5: emit(M_("search", l, {scalar()})); emit(M_("count", l, {scalar()})); break;
		case 6: if (host) emit(H_("hlen", {l})); else emit(l); break;
		default: emit(L("sl", l, r.chance(40) ? L("u") : IL(r.range(-8, 8)), r.chance(40) ? L("u") : IL(r.range(-8, 12)))); break;
		}
	}
	void check_table() {
		N t = V_(pt());
		switch (r.range(0, 9)) {
		case 0: emit(call_len(t)); break;
		case 1: out.push_back(X_(H_("hbag", {M_("keys", t, {})}))); break;
		case 2: out.push_back(X_(H_("hbag", {M_("values", t, {})}))); break;
		case 3: collect(t); break;
		case 4: for (int i = 0; i < 4; i++) emit(L("ix", t, k())); break;
		case 5: emit(BIN("==", M_("copy", t, {}), t)); break;
		case 6: { std::string u = fresh("u"), i = fresh("i"); out.push_back(L("let", A(u), L("tb"))); out.push_back(L("for", A(i), t, L("do", L("ix=", V_(u), V_(i), L("ix", t, V_(i)))), A("c"))); emit(BIN("==", V_(u), t)); emit(BIN("==", t, V_(u))); } break;
		case 7: emit(BIN("==", t, V_(pt()))); break;
		case 8: if (host) out.push_back(X_(H_("htiter", {t}))); else emit(call_len(t)); break;
		default: emit(t); break;
		}
	}
	void check_set() {
		N s = V_(ps());
		switch (r.range(0, 6)) {
		case 0: emit(call_len(s)); break;
		case 1: out.push_back(X_(H_("hbag", {M_("tolist", s, {})}))); break;
		case 2: for (int i = 0; i < 4; i++) emit(L("ix", s, k())); break;
		case 3: emit(BIN("==", M_("copy", s, {}), s)); break;
		case 4: { static const char *o[] = {"==", "<", "<=", ">", ">="}; emit(BIN(o[r.next() % 5], s, V_(ps()))); } break;
		case 5: emit(BIN("==", L("set", M_("tolist", s, {})), s)); break;
		default: if (host) emit(H_("hlen", {s})); else emit(call_len(s)); break;
		}
	}
	void op_list() {
		std::string n = pl(); N l = V_(n);
		switch (r.range(0, 17)) {
		case 0: case 1: case 2: out.push_back(X_(M_("push", l, {val()}))); break;
		case 3: { std::vector<N> b{A("do"), X_(H_("hemit", {M_("pop", l, {})}))}; out.push_back(L("if", BIN(">", call_len(l), IL(0)), L(b))); } break;
		case 4: case 5: if (r.chance(20)) { out.push_back(X_(M_("insert", l, {r.chance(70) ? BIN("-", IL(0), L("len", l)) : L("len", l), val()}))); break; } { int64_t i = r.range(-4, 4); if (rare_fail && r.chance(8)) { out.push_back(X_(M_("insert", l, {IL(r.range(-30, 30)), val()}))); break; } std::vector<N> b{A("do"), X_(M_("insert", l, {IL(i), val()}))}; out.push_back(L("if", BIN(">=", call_len(l), IL(i < 0 ? -i : i)), L(b))); } break;
		case 6: case 7: { int64_t i = r.range(-5, 4); std::vector<N> b{A("do"), L("ix=", l, IL(i), val())}; out.push_back(L("if", BIN(">", call_len(l), IL(i < 0 ? -i - 1 : i)), L(b))); } break;
		case 8: { int64_t i = r.range(-5, 4); std::vector<N> b{A("do"), X_(H_("hemit", {L("ix", l, IL(i))}))}; out.push_back(L("if", BIN(">", call_len(l), IL(i < 0 ? -i - 1 : i)), L(b))); } break;
		case 9: out.push_back(L("=", A(n), BIN("+", l, r.chance(50) ? V_(pl()) : L("ls", val(), val())))); break;
		case 10: out.push_back(L("=", A(n), L("sl", r.chance(50) ? l : V_(pl()), r.chance(40) ? L("u") : IL(r.range(-8, 8)), r.chance(40) ? L("u") : IL(r.range(-8, 20))))); break;
		case 11: out.push_back(X_(M_("reverse", l, {}))); break;
		case 12: if (r.chance(30)) out.push_back(X_(M_("clear", l, {}))); else out.push_back(L("=", A(n), M_("copy", r.chance(50) ? l : V_(pl()), {}))); break;
		case 13: out.push_back(L("=", A(n), V_(pl()))); break;   // alias
		case 14: if (host) out.push_back(X_(H_("hlpush", {l, val()}))); break;
		case 15: if (host) { int64_t i = r.range(-4, 3); std::vector<N> b{A("do"), X_(H_("hemit", {H_("hlget", {l, IL(i)})}))}; out.push_back(L("if", BIN(">", call_len(l), IL(i < 0 ? -i - 1 : i)), L(b))); } break;
		case 16: if (vprof < 2 && !nestedv) out.push_back(X_(M_("sort", l, {}))); else out.push_back(L("=", A(n), L("clist", val(), val(), val()))); break;
		default: if (!nestedv) { const char *sep[] = {"|", ", ", "", "ab"}; N j = S(sep[r.next() % 4]); emit(M_("join", r.chance(60) ? l : L("ls", r.chance(50) ? S("") : val(), r.chance(50) ? S("") : val(), val()), {j})); } else out.push_back(X_(M_("push", l, {val()})));
		}
	}
	void op_table() {
		std::string n = pt(); N t = V_(n);
		switch (r.range(0, 15)) {
		case 0: case 1: case 2: case 3: out.push_back(L("ix=", t, k(), val())); break;
		case 4: case 5: out.push_back(L("ix=", t, k(), L("u"))); break;
		case 6: case 7: out.push_back(X_(M_("remove", t, {k()}))); break;
		case 8: emit(L("ix", t, k())); break;
		case 9: if (r.chance(25)) out.push_back(X_(M_("clear", t, {}))); else out.push_back(L("=", A(n), M_("copy", r.chance(50) ? t : V_(pt()), {}))); break;
		case 10: out.push_back(L("=", A(n), BIN("|", r.chance(50) ? t : V_(pt()), r.chance(60) ? V_(pt()) : L("tb", k(), val())))); break;
		case 11: out.push_back(L("=", A(n), V_(pt()))); break;
		case 12: if (host) out.push_back(X_(H_("htset", {t, k(), r.chance(12) ? L("u") : val()}))); break;
		case 13: { std::vector<N> q{A("ctab")}; int64_t a = ki(); int c = (int)r.range(0, 4); for (int i = 0; i < c; i++) { q.push_back(key(a + i)); if (i == c - 1 && r.chance(20)) break; q.push_back(r.chance(15) ? L("u") : val()); } out.push_back(L("=", A(n), L(q))); } break;
		case 14: { std::vector<N> q{A("tb")}; int64_t a = ki(); int c = (int)r.range(0, 5); for (int i = 0; i < c; i++) { q.push_back(key(a + i)); q.push_back(r.chance(15) ? L("u") : val()); } out.push_back(L("=", A(n), L(q))); } break;
		default: emit(L("ix", t, k())); emit(call_len(t));
		}
	}
	void op_set() {
		std::string n = ps(); N s = V_(n);
		switch (r.range(0, 12)) {
		case 0: case 1: case 2: case 3: out.push_back(X_(M_("add", s, {k()}))); break;
		case 4: case 5: case 6: emit(M_("remove", s, {k()})); break;
		case 7: if (r.chance(25)) out.push_back(X_(M_("clear", s, {}))); else out.push_back(L("=", A(n), M_("copy", r.chance(50) ? s : V_(ps()), {}))); break;
		case 8: case 9: { static const char *o[] = {"&", "|", "^", "&^"}; out.push_back(L("=", A(n), BIN(o[r.next() % 4], r.chance(50) ? s : V_(ps()), V_(ps())))); } break;
		case 10: out.push_back(L("=", A(n), V_(ps()))); break;
		case 11: { std::vector<N> q{A("set")}; int c = (int)r.range(0, 5); if (c == 1) c = 2; for (int i = 0; i < c; i++) q.push_back(k()); out.push_back(L("=", A(n), L(q))); } break;
		default: emit(L("ix", s, k()));
		}
	}
	void op_loop() {
		std::string i = fresh("i"); N v = V_(i);
		int64_t lo = r.range(0, nkeys), n = r.range(2, churn);
		std::vector<N> b{A("do")};
		bool isset = r.chance(40);
		N t = isset ? V_(ps()) : V_(pt());
		auto add = [&](N q, N vv) { if (isset) b.push_back(X_(M_("add", t, {q}))); else if (host && r.chance(15)) b.push_back(X_(H_("htset", {t, q, vv}))); else b.push_back(L("ix=", t, q, vv)); };
		auto del = [&](N q) { if (!isset && r.chance(35)) b.push_back(L("ix=", t, q, L("u"))); else b.push_back(X_(M_("remove", t, {q}))); };
		switch (r.range(0, 5)) {
		case 0: case 1: add(vkey(i), r.chance(50) ? v : val()); break;
		case 2: del(vkey(i)); break;
		case 3: add(vkey(i), v); { std::string s = i; // slide: remove what was added a while ago
				std::string j = fresh("j"); b.push_back(L("let", A(j), BIN("-", v, IL(r.range(1, 12))))); del(vkey(j)); } break;
		case 4: add(vkey(i), v); del(vkey(i)); break;
		default: { N l = V_(pl()); b.push_back(X_(M_("push", l, {v}))); if (r.chance(40)) b.push_back(X_(M_("insert", l, {IL(0), v}))); if (r.chance(40)) b.push_back(X_(M_("pop", l, {}))); n = n > 40 ? 40 : n; }
		}
		out.push_back(L("fori", A(i), IL(lo), IL(lo + n), IL(r.chance(80) ? 1 : r.range(2, 5)), L(b)));
	}
	void op_fail() {
		N l = V_(pl()), t = V_(pt()), s = V_(ps());
		switch (r.range(0, 12)) {
		case 0: out.push_back(L("ix=", l, IL(r.range(40, 700)), val())); break;
		case 1: out.push_back(L("ix=", t, r.chance(50) ? l : L("ls"), val())); break;
		case 2: out.push_back(X_(M_("add", s, {r.chance(50) ? V_(pl()) : L("u")}))); break;
		case 3: out.push_back(X_(M_("insert", l, {IL(r.chance(50) ? 601 : -601), val()}))); break;
		case 4: out.push_back(X_(M_("clear", l, {}))); out.push_back(X_(M_("pop", l, {}))); break;
		case 5: out.push_back(X_(M_("push", l, {S("x")}))); out.push_back(X_(M_("push", l, {IL(3)}))); out.push_back(X_(M_("sort", l, {}))); break;
		case 6: out.push_back(X_(M_("join", l, {IL(1)}))); break;
		case 7: out.push_back(X_(BIN("+", l, t))); break;
		case 8: out.push_back(X_(BIN("|", t, l))); break;
		case 9: out.push_back(X_(BIN("&", s, l))); break;
		case 10: out.push_back(L("=", A("l0"), L("set", k(), L("ls")))); break;
		case 11: out.push_back(X_(L("sl", l, S("a"), IL(1)))); break;
		default: out.push_back(X_(M_("insert", l, {S("q"), val()}))); break;
		}
	}
	void publish() {
		out.push_back(X_(H_("hsetg", {S("g0"), V_(pl())})));
		out.push_back(X_(H_("hsetg", {S("g1"), V_(pt())})));
		out.push_back(X_(H_("hsetg", {S("g2"), r.chance(50) ? V_(pt()) : V_(pl())})));
	}
	int failpct = 35, shortness = 0;
	N program(int tier) {
		kprof = (int)r.range(0, 6); vprof = (int)r.range(0, 2); nkeys = (int)(r.chance(40) ? r.range(2, 8) : r.range(10, 60));
		nestedv = r.chance(35); loops = r.chance(75); host = r.chance(80); rare_fail = r.chance(25);
		churn = (int)(r.chance(30) ? r.range(60, tier ? 260 : 160) : r.range(5, 45));
		for (int i = 0, n = (int)r.range(1, 3); i < n; i++) { ls.push_back("l" + std::to_string(i)); out.push_back(L("let", A(ls.back()), r.chance(50) ? L("ls") : L("ls", val_s(), val_s(), val_s()))); }
		for (int i = 0, n = (int)r.range(1, 3); i < n; i++) { ts.push_back("t" + std::to_string(i)); out.push_back(L("let", A(ts.back()), r.chance(50) ? L("tb") : L("ctab"))); }
		for (int i = 0, n = (int)r.range(1, 3); i < n; i++) { ss.push_back("s" + std::to_string(i)); out.push_back(L("let", A(ss.back()), L("set"))); }
		publish();
		int ops = shortness ? (int)r.range(2, shortness) : (int)(r.chance(30) ? r.range(80, tier ? 260 : 150) : r.range(10, 60));
		int wl = (int)r.range(0, 4), wt = (int)r.range(0, 4), ws = (int)r.range(0, 3), wc = (int)r.range(1, 4);
		if (wl + wt + ws == 0) wt = 2;
		for (int i = 0; i < ops; i++) {
			if (tmp > 90) break;                // names, not operations, are what is limited
			int x = (int)r.range(0, wl + wt + ws + wc - 1);
			if (loops && r.chance(8)) { op_loop(); continue; }
			if (r.chance(2)) { publish(); continue; }
			if (x < wl) op_list(); else if ((x -= wl) < wt) op_table(); else if ((x -= wt) < ws) op_set();
			else switch (r.range(0, 2)) { case 0: check_list(); break; case 1: check_table(); break; default: check_set(); }
		}
		for (auto &n : ls) emit(V_(n));
		for (auto &n : ts) { emit(V_(n)); emit(call_len(V_(n))); out.push_back(X_(H_("hbag", {M_("keys", V_(n), {})}))); if (host) out.push_back(X_(H_("htiter", {V_(n)}))); }
		for (auto &n : ss) { out.push_back(X_(H_("hbag", {M_("tolist", V_(n), {})}))); emit(call_len(V_(n))); }
		if (r.chance(failpct)) { publish(); op_fail(); emit(IL(-1)); }
		std::vector<N> k{A("prog")};
		k.insert(k.end(), out.begin(), out.end());
		return L(k);
	}
	N val_s() { return scalar(); }
};
void fuel(Model &m) { m.fuel = 120000; }
}
// short container histories that end in a failing operation on published containers (used by other engines too)
N gen_failing_containers(Rng &r, int tier) { CG g(r); g.failpct = 90; g.shortness = 14; return g.program(tier); }
N gen_C13(Rng &r, int tier) {
	N p; Model m;
	for (int i = 0; i < 6; i++) {
		CG g(r);
		p = g.program(tier);
		Model m2; std_hvals(m2); fuel(m2);
		try { m2.run(p); } catch (Abandon &a) { p = nullptr; continue; }
		m = m2;
		break;
	}
	if (!p) p = L("prog", X_(H_("hemit", {IL(1)})));
	std::vector<N> k{A("plan"), p};
	gen_knobs(r, k);
	gen_aborts(r, k, m.hostcalls, 25);
	return L(k);
}
void run_C13(const N &plan) {
	N p = find(plan, "prog");
	if (!p) discard("no program");
	Case c;
	if (!c.prepare(plan, p, fuel)) discard("model");
	logs(c.src);
	set_step_budget(120000000);
	c.start();
	c.a.run();
	c.judge("run");
	c.finish("end");
	check_no_leak("end", c.m.cyclic);
	sh->nontrivial = sh->loghash | 1;
	finish_ok();
}
