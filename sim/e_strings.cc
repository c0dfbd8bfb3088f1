// C18: string values of every origin, kept, cut up, compared and dropped in any order, while their sources go away.
#include "engine.h"
namespace {
N IL(int64_t n) { return L("i", I(n)); }
struct SG {
	Rng &r;
	int nv, nl, tmp = 0, alpha;
	bool host, mod, clos, sets, mts, errs, files;
	std::vector<N> out;
	std::vector<std::string> fns;
	std::vector<std::string> base;      // pieces this run's strings are made of
	explicit SG(Rng &r_) : r(r_) {}
	std::string fresh(const char *p) { return p + std::to_string(tmp++); }
	// few different letters, so that almost everything matches almost everywhere
	std::string dense(int lo, int hi) { std::string s; for (int i = 0, n = (int)r.range(lo, hi), two = r.chance(80); i < n; i++) s += r.chance(60) ? 'a' : two || r.chance(40) ? 'b' : r.chance(50) ? ' ' : '\0'; return s; }
	std::string bytes() {
		switch (r.range(0, 15)) {
		case 0: return "";
		case 14: return dense(0, 14);
		case 1: return std::string(1, " \t\n\v\r"[r.next() % 5]) + r.pick(base) + " ";
		case 2: return std::string((size_t)r.range(1, 4), ' ');
		case 3: { std::string s; for (int i = 0, n = (int)r.range(1, 6); i < n; i++) s += (char)r.range(0, 255); return s; }
		case 4: return std::string("\0", 1) + r.pick(base);
		case 5: return std::to_string(r.range(0, 99999));
		case 6: { static const char *k[] = {"trim", "push", "__add", "split", "go", "__mul", "sort", "undef", "true", "k"}; return k[r.next() % 10]; }
		case 7: { std::string s; for (int i = 0, n = (int)r.range(20, 120); i < n; i++) s += r.pick(base); return s; }
		case 8: return r.pick(base) + r.pick(base) + r.pick(base);
		default: return r.pick(base) + (r.chance(50) ? r.pick(base) : "");
		}
	}
	N lit() { return S(bytes()); }
	std::string pv() { return "s" + std::to_string(r.range(0, nv - 1)); }
	std::string pl() { return "l" + std::to_string(r.range(0, nl - 1)); }
	N v() { return V_(pv()); }
	N off() { return r.chance(30) ? L("u") : IL(r.chance(80) ? r.range(-6, 6) : r.range(-400, 400)); }
	N nonempty(N x) { return BIN("~", x, S(r.pick(base))); }
	N needle() { return r.chance(25) ? S(dense(1, 5)) : r.chance(60) ? S(r.pick(base)) : r.chance(70) ? nonempty(L("sl", v(), IL(0), IL(r.range(0, 2)))) : nonempty(v()); }
	N str(int d) {
		if (d > 3) return r.chance(60) ? v() : lit();
		switch (r.range(0, 29)) {
		case 0: case 1: return lit();
		case 2: case 3: case 4: return v();
		case 5: case 6: return BIN("~", str(d + 1), str(d + 1));
		case 7: case 8: case 9: return L("sl", str(d + 1), off(), off());
		case 10: return L("ix", nonempty(str(d + 1)), IL(r.chance(50) ? 0 : -1));
		case 11: return M_(r.chance(50) ? "toupper" : "tolower", str(d + 1), {});
		case 12: case 13: { static const char *t[] = {"trim", "ltrim", "rtrim"}; const char *m = t[r.next() % 3]; return r.chance(50) ? M_(m, str(d + 1), {}) : M_(m, str(d + 1), {needle()}); }
		case 14: case 15: return r.chance(50) ? M_("replace", str(d + 1), {needle(), str(d + 1)}) : M_("replace", str(d + 1), {needle(), str(d + 1), IL(r.range(-1, 4))});
		case 16: return M_("rep", str(d + 1), {IL(r.chance(80) ? r.range(0, 4) : r.range(5, 30))});
		case 17: { std::vector<N> k{A("interp")}; for (int i = 0, n = (int)r.range(1, 4); i < n; i++) k.push_back(r.chance(50) ? S(r.pick(base)) : r.chance(70) ? v() : IL(r.range(-9, 9))); return L(k); }
		case 18: return M_("join", V_(pl()), {str(d + 1)});
		case 19: return M_("tostr", r.chance(50) ? str(d + 1) : r.chance(50) ? IL(r.range(-99, 99)) : V_(pl()), {});
		case 20: { N a = M_("split", str(d + 1), r.chance(30) ? std::vector<N>{} : std::vector<N>{needle()}); return M_("join", a, {r.chance(50) ? S("-") : str(d + 1)}); }
		case 21: { N a = BIN("+", L("ls", str(d + 1)), V_(pl())); return L("ix", a, IL(0)); }
		case 22: { N a = BIN("+", V_(pl()), L("ls", str(d + 1))); return L("ix", a, IL(-1)); }
		case 23: if (host) return H_("hid", {str(d + 1)}); return v();
		case 24: if (host) return BIN("~", L("nn", H_("hgetg", {S("g0")}), S("")), str(d + 1)); return v();
		case 25: if (host) return L("nn", H_("hval", {IL(r.range(8, 12))}), S("")); return lit();
		case 26: if (mod) return L("ix", V_("mo"), IL(r.range(0, 3))); return lit();
		case 27: if (mod) return L("call", L("ix", V_("mo"), IL(4)), str(d + 1)); return lit();
		case 28: if (!fns.empty()) return L("call", V_(r.pick(fns)), str(d + 1)); return lit();
		default: return L("tern", boolean(d + 1), str(d + 1), str(d + 1));
		}
	}
	N boolean(int d) {
		switch (r.range(0, 10)) {
		case 10: { static const char *o[] = {"<", "<=", ">", ">=", "==", "!="}; std::string x = dense(0, 6); return BIN(o[r.next() % 6], S(x + dense(0, 3)), S(x + dense(0, 3))); }
		case 0: case 1: return BIN("==", str(d + 1), str(d + 1));
		case 2: { static const char *o[] = {"<", "<=", ">", ">=", "!="}; return BIN(o[r.next() % 5], str(d + 1), str(d + 1)); }
		case 3: { static const char *m[] = {"isal", "isnum", "isalnum", "isspace", "tobool"}; return M_(m[r.next() % 5], str(d + 1), {}); }
		case 4: return M_(r.chance(50) ? "startswith" : "endswith", str(d + 1), {r.chance(50) ? needle() : str(d + 1)});
		case 5: { std::string x = pv(); return M_(r.chance(50) ? "startswith" : "endswith", V_(x), {L("sl", V_(x), off(), off())}); }
		case 6: if (sets) return L("ix", V_("e0"), str(d + 1)); return BIN("==", v(), v());
		case 7: { std::string x = pv(); int64_t c = r.range(-3, 3); return BIN("==", V_(x), BIN("~", L("sl", V_(x), L("u"), IL(c)), L("sl", V_(x), IL(c), L("u")))); }   // cut anywhere, put together again
		case 8: return L("not", str(d + 1));
		default: return BIN(r.chance(50) ? "==" : "<", BIN("~", v(), S(r.pick(base))), BIN("~", v(), v()));
		}
	}
	N integer(int d) {
		switch (r.range(0, 4)) {
		case 0: return L("len", str(d + 1));
		case 1: return M_("count", str(d + 1), {needle()});
		case 2: if (r.chance(40)) { std::string n = dense(2, 6); std::string h = dense(0, 3) + n.substr(0, (size_t)r.range(1, (int)n.size())) + n + dense(0, 3); static const char *m[] = {"search", "count", "search"}; return M_(m[r.next() % 3], S(h), {S(n)}); } return M_("search", str(d + 1), {r.chance(50) ? needle() : str(d + 1)});
		case 3: return r.chance(50) ? M_("search", V_(pl()), {str(d + 1)}) : M_("count", V_(pl()), {str(d + 1)});
		default: return M_("toint", S(std::to_string(r.range(0, 9999999))), {});
		}
	}
	void emit(N e) { out.push_back(X_(H_("hemit", {e}))); }
	void check() {
		switch (r.range(0, 8)) {
		case 0: case 1: case 2: emit(v()); break;
		case 3: emit(V_(pl())); break;
		case 4: emit(boolean(0)); break;
		case 5: emit(integer(0)); break;
		case 6: emit(L("ix", V_("t0"), str(1))); break;
		case 7: out.push_back(L("echo", str(1))); break;
		default: if (host) { emit(H_("hgetg", {r.chance(50) ? S("g0") : BIN("~", S("g"), S("0"))})); } else emit(str(1)); break;
		}
	}
	void op() {
		std::string x = pv(); N vx = V_(x), vl = V_(pl());
		switch (r.range(0, 24)) {
		case 0: case 1: case 2: case 3: case 4: out.push_back(L("=", A(x), str(0))); break;
		case 5: out.push_back(L("=", A(x), lit())); break;         // drops what was there
		case 6: out.push_back(L("=", A(x), v())); break;
		case 7: case 8: out.push_back(X_(M_("push", vl, {str(0)}))); break;
		case 9: out.push_back(L("=", A(vl->k[1]->a), r.chance(40) ? M_("split", v(), std::vector<N>{}) : M_("split", v(), {needle()}))); break;
		case 10: out.push_back(X_(M_("clear", vl, {}))); break;
		case 11: out.push_back(L("if", BIN(">", L("len", vl), IL(0)), L("do", L("=", A(x), M_("pop", vl, {}))))); break;
		case 12: { std::string i = fresh("i"); out.push_back(L("for", A(i), str(1), r.chance(50) ? L("do", X_(M_("push", vl, {V_(i)}))) : L("do", L("=", A(x), BIN("~", V_(i), vx))))); } break;
		case 13: { std::string i = fresh("i"); out.push_back(L("for", A(i), vl, L("do", L("=", A(x), r.chance(50) ? L("sl", V_(i), off(), off()) : BIN("~", L("sl", vx, IL(0), IL(40)), V_(i)))))); } break;
		case 14: out.push_back(L("ix=", V_("t0"), str(0), r.chance(30) ? vx : IL(r.range(0, 99)))); break;
		case 15: out.push_back(L("ix=", V_("t0"), str(0), L("u"))); break;
		case 16: out.push_back(X_(M_("remove", V_("t0"), {str(0)}))); break;
		case 17: if (sets) out.push_back(r.chance(70) ? X_(M_("add", V_("e0"), {str(0)})) : X_(H_("hemit", {M_("remove", V_("e0"), {str(0)})}))); break;
		case 18: if (host) out.push_back(X_(H_("hsetg", {r.chance(50) ? S("g" + std::to_string(r.range(0, 2))) : BIN("~", S("g"), S("0")), str(0)}))); break;
		case 19: if (host) out.push_back(X_(H_("hlpush", {vl, str(0)}))); break;
		case 20: if (host) out.push_back(X_(H_("htset", {V_("t0"), str(0), r.chance(30) ? vx : IL(r.range(0, 99))}))); break;
		case 21: if (clos && fns.size() < 4) {   // keeps a string alive that its variable forgets
			std::string f = fresh("f"), c = fresh("c"), g = fresh("k");
			out.push_back(L("let", A(f), L("u")));
			out.push_back(L("if", L("b", I(1)), L("do", L("let", A(c), str(0)), L("=", A(f), L("lam", L(std::vector<N>{A(g)}), r.chance(50) ? L("=", A(c), L("sl", BIN("~", V_(c), V_(g)), IL(0), IL(r.range(0, 30)))) : L("raw", S("")), L("ret", BIN("~", V_(c), V_(g))))))));
			fns.push_back(f);
		} break;
		case 22: if (mts) {   // the names of metamethods and methods, however they were made
			std::string t = fresh("m"), a = fresh("a"), b = fresh("b"); N mtt = L("tb", r.chance(50) ? S("__add") : BIN("~", S("__a"), S("dd")), L("lam", L(std::vector<N>{A(a), A(b)}), L("ret", BIN("~", L("ix", V_(a), S("k")), V_(b)))));
			out.push_back(L("let", A(t), L("mtset", L("tb", S("k"), str(0), r.chance(50) ? S("go") : BIN("~", S("g"), S("o")), L("lam", L(std::vector<N>{A(b), A(a)}), L("ret", BIN("~", V_(a), L("ix", V_(b), BIN("~", S(""), S("k"))))))), mtt)));
			emit(BIN("+", V_(t), str(1)));
			emit(M_("go", V_(t), {str(1)}));
		} break;
		case 23: { std::string w = fresh("w"); out.push_back(L("let", A(w), M_("keys", V_("t0"), {}))); out.push_back(X_(M_("sort", V_(w), {}))); emit(V_(w)); out.push_back(X_(M_("clear", V_("t0"), {}))); out.push_back(L("=", A(x), L("tern", BIN(">", L("len", V_(w)), IL(0)), L("ix", V_(w), IL(0)), S("none")))); } break;
		default: out.push_back(X_(M_("sort", V_("l0"), {}))); emit(V_("l0")); break;
		}
	}
	void op_fail() {
		N x = v();
		switch (r.range(0, 11)) {
		case 0: out.push_back(X_(L("ix", x, IL(r.chance(50) ? 5000 : -5000)))); break;
		case 1: out.push_back(X_(M_(r.chance(50) ? "trim" : "split", x, {S("")}))); break;
		case 2: out.push_back(X_(M_("count", x, {r.chance(50) ? S("") : IL(3)}))); break;
		case 3: out.push_back(X_(M_("rep", x, {r.chance(50) ? IL(-1) : S("3")}))); break;
		case 4: out.push_back(X_(M_("replace", x, {r.chance(50) ? S("") : IL(1), S("y")}))); break;
		case 5: out.push_back(L("ix=", x, IL(0), S("z"))); break;
		case 6: out.push_back(X_(M_("startswith", x, {L("ls")}))); break;
		case 7: out.push_back(X_(BIN("+", x, x))); break;
		case 8: out.push_back(X_(M_("join", V_(pl()), {IL(4)}))); break;
		case 9: out.push_back(X_(BIN("<", x, IL(1)))); break;
		case 10: out.push_back(X_(L("sl", x, S("a"), IL(2)))); break;
		default: out.push_back(X_(M_("ltrim", x, {L("b", I(1))}))); break;
		}
	}
	void publish() { if (!host) return; out.push_back(X_(H_("hsetg", {S("g0"), v()}))); out.push_back(X_(H_("hsetg", {S("g1"), V_(pl())}))); out.push_back(X_(H_("hsetg", {S("g2"), str(1)}))); }
	N program(int tier) {
		static const char *al[] = {"a", "b", "ab", "ba", "X", "\xc3\xa9", " ", "#", "'", "\\", "\n", "aaa", "0", "9", "Z{", "x,y"};
		alpha = (int)r.range(2, 6);
		for (int i = 0; i < alpha; i++) base.push_back(al[r.next() % 16]);
		base.push_back(r.chance(80) ? "a" : std::string("\0", 1));
		nv = (int)r.range(2, 6); nl = (int)r.range(1, 2); host = r.chance(85); mod = r.chance(35); clos = r.chance(60); sets = r.chance(50); mts = r.chance(40); errs = r.chance(40);
		if (mod) out.push_back(L("let", A("mo"), L("req", A("strmod"))));
		for (int i = 0; i < nv; i++) out.push_back(L("let", A("s" + std::to_string(i)), lit()));
		for (int i = 0; i < nl; i++) out.push_back(L("let", A("l" + std::to_string(i)), r.chance(50) ? L("ls") : L("ls", lit(), lit())));
		out.push_back(L("let", A("t0"), L("tb")));
		if (sets) out.push_back(L("let", A("e0"), L("set")));
		int ops = (int)(r.chance(25) ? r.range(40, tier ? 160 : 90) : r.range(6, 40));
		for (int i = 0; i < ops && tmp < 80; i++) {
			if (r.chance(28)) { check(); continue; }
			if (r.chance(3)) { publish(); continue; }
			if (r.chance(6)) {   // several operations, over and over: values pile up and are dropped
				std::vector<N> keep; keep.swap(out);
				for (int j = 0, n = (int)r.range(1, 3); j < n; j++) { auto f = fns; op(); fns = f; }
				std::vector<N> b{A("do")}; b.insert(b.end(), out.begin(), out.end()); out = keep;
				out.push_back(L("fori", A(fresh("i")), IL(0), IL(r.range(1, 6)), IL(1), L(b)));
				continue;
			}
			op();
		}
		for (int i = 0; i < nv; i++) emit(V_("s" + std::to_string(i)));
		for (int i = 0; i < nl; i++) emit(V_("l" + std::to_string(i)));
		emit(V_("t0"));
		for (auto &f : fns) emit(L("call", V_(f), S("end")));
		if (mod) for (int i = 0; i < 4; i++) emit(L("ix", V_("mo"), IL(i)));
		publish();
		if (errs) { op_fail(); emit(IL(-1)); }
		std::vector<N> k{A("prog")};
		k.insert(k.end(), out.begin(), out.end());
		return L(k);
	}
	// strings that outlive the text and the environment of the module they were written in
	N module() {
		std::vector<N> k{A("module")};
		k.push_back(L("let", A("p"), lit()));
		k.push_back(L("let", A("q"), BIN("~", lit(), V_("p"))));
		k.push_back(L("fn", A("mf"), L(std::vector<N>{A("z")}), L("=", A("q"), L("sl", BIN("~", V_("z"), V_("q")), IL(0), IL(60))), L("ret", r.chance(50) ? BIN("~", V_("p"), V_("z")) : V_("q"))));
		k.push_back(L("export", L("ls", V_("p"), L("sl", V_("p"), IL(r.range(0, 2)), L("u")), V_("q"), lit(), V_("mf"))));
		return L(k);
	}
};
void setup(Model &m) {
	m.fuel = 60000;
	m.hvals.resize(8);
	static const char big[] = "a long string the host hands over, which has to be copied, because its buffer is used for the next one";
	m.hvals.push_back(V::St("host str")); m.hvals.push_back(V::St(std::string("a\0b", 3))); m.hvals.push_back(V::St("")); m.hvals.push_back(V::St(std::string(big) + big)); m.hvals.push_back(V::St("a"));
}
}
N gen_C18(Rng &r, int tier) {
	N p, md; Model m;
	for (int i = 0; i < 8; i++) {
		SG g(r);
		p = g.program(tier); md = g.mod ? g.module() : nullptr;
		Model m2; std_hvals(m2); setup(m2);
		if (md) m2.modules["strmod"] = md;
		try { m2.run(p); } catch (Abandon &) { p = nullptr; continue; }
		m = m2;
		break;
	}
	if (!p) { p = L("prog", X_(H_("hemit", {IL(1)}))); md = nullptr; }
	std::vector<N> k{A("plan"), p};
	if (md) k.push_back(md);
	gen_knobs(r, k);
	gen_aborts(r, k, m.hostcalls, 25);
	return L(k);
}
void run_C18(const N &plan) {
	N p = find(plan, "prog"), md = find(plan, "module");
	if (!p) discard("no program");
	Case c;
	if (!c.prepare(plan, p, [&](Model &m) { setup(m); if (md) m.modules["strmod"] = md; })) discard("model");
	c.a.hvals = c.m.hvals;
	if (md) w.disk["./strmod.yasl"].data = render(md);
	logs(c.src);
	set_step_budget(120000000);
	c.start();
	c.a.run();
	c.judge("run");
	c.finish("end");
	check_no_leak("end", c.m.cyclic);
	sh->nontrivial = sh->loghash | 1;
	finish_ok();
}
