#include "gen.h"
#include <algorithm>
N V_(const std::string &n) { return L("v", A(n)); }
N H_(const char *fn, std::vector<N> a) { std::vector<N> k{A("h"), A(fn)}; k.insert(k.end(), a.begin(), a.end()); return L(k); }
N X_(N e) { return L("x", e); }
N M_(const char *m, N o, std::vector<N> a) { std::vector<N> k{A("m"), A(m), o}; k.insert(k.end(), a.begin(), a.end()); return L(k); }
N BIN(const char *op, N a, N b) { return L("bin", A(op), a, b); }
static N IL(int64_t n) { return L("i", I(n)); }

// types: I int, S str, B bool, F float, L list<int>, K list<str>, A list<any>, T table<.. int>, U table<.. any>, E set<int>, c fn(int)->int, d fn()->int, O userdata
const Gen::Var *Gen::pickvar(char ty, bool mut) {
	std::vector<const Var *> o;
	for (auto &v : vars) if (v.ty == ty && visible(v) && (!mut || v.mut)) o.push_back(&v);
	if (o.empty()) return nullptr;
	// favour recent variables a little
	size_t i = r.next() % o.size(), j = r.next() % o.size();
	return o[i > j ? i : j];
}
char Gen::anytype() {
	std::string t = "IIISBLLA";
	if (c.strings) t += "SK";
	if (c.tables) t += "TTU";
	if (c.sets) t += "E";
	if (c.objs && c.host) t += "O";
	return t[r.next() % t.size()];
}
N Gen::str() {
	static const char *w[] = {"", "a", "b", "ab", "foo", "bar", "x y", "key", "zz", "longer string value", "Q", "0", "-"};
	if (r.chance(3)) { static const char *hi[] = {"caf\xc3\xa9", "\xff", "\xff\xfe q", "\x80\x81", "a\r\tb", "-\xef\xbb\xbf-"}; return S(hi[r.next() % 6]); }
	if (r.chance(4)) return S(r.chance(50) ? std::string("a\0b", 3) : std::string("a\0c", 3));
	return S(w[r.next() % 13]);
}
N Gen::key() {
	if (r.chance(60)) return IL(r.range(0, c.big ? 60 : 8));
	static const char *w[] = {"ka", "kb", "kc", "kd", "ke", "kf", "kg"};
	return S(w[r.next() % 7]);
}
N Gen::lit(char ty, int d) {
	switch (ty) {
	case 'I': return IL(r.chance(85) ? r.range(-3, 12) : r.range(-400, 90000));
	case 'S': return str();
	case 'B': return L("b", I(r.range(0, 1)));
	case 'F': if (d < 3 && r.chance(6)) return BIN("/", L("f", A("0.0")), L("f", A("0.0"))); { static const char *f[] = {"0.5", "1.5", "2.25", "10.0", "3.0", "-1.5", "100.125"}; return L("f", A(f[r.next() % 7])); }
	case 'L': { std::vector<N> k{A("ls")}; int n = (int)r.range(0, c.big ? 12 : 4); for (int i = 0; i < n; i++) k.push_back(ex('I', d + 2)); return L(k); }
	case 'K': { std::vector<N> k{A("ls")}; int n = (int)r.range(0, 4); for (int i = 0; i < n; i++) k.push_back(ex('S', d + 2)); return L(k); }
	case 'A': { std::vector<N> k{A("ls")}; int n = (int)r.range(0, 3); for (int i = 0; i < n; i++) k.push_back(ex(r.chance(10) ? 'F' : anytype(), d + 2)); return L(k); }
	case 'T': case 'U': {
		std::vector<N> k{A("tb")}; int n = (int)r.range(0, 3);
		std::set<std::string> seen;
		for (int i = 0; i < n; i++) { N q = key(); if (!seen.insert(show(q)).second) continue; k.push_back(q); k.push_back(ty == 'T' ? ex('I', d + 2) : ex(anytype(), d + 2)); }
		return L(k);
	}
	case 'E': { std::vector<N> k{A("set")}; int n = (int)r.range(0, 4); if (r.chance(20)) { k.push_back(ex('L', d + 1)); return L(k); } if (n == 1) n = 2; for (int i = 0; i < n; i++) k.push_back(ex('I', d + 2)); return L(k); }
	case 'c': return fnbody({{fresh(), 'I'}}, 'I', d, "lam", "");
	case 'd': return fnbody({}, 'I', d, "lam", "");
	case 'O': return H_("hobj", {IL(0)});
	}
	return L("u");
}
N Gen::cond(int d) {
	switch (r.range(0, 7)) {
	case 0: return L("b", I(r.range(0, 1)));
	case 7: {
		if (r.chance(60)) { static const char *o[] = {"<", ">", "<=", ">=", "==", "!="}; return BIN(o[r.next() % 6], ex(r.chance(70) ? 'F' : 'I', d + 1), ex('F', d + 1)); }
		const Var *v = pickvar("LATUK"[r.next() % 5]); if (!v) return L("b", I(1));      // a value is not always equal to itself
		return BIN(r.chance(70) ? "==" : "!=", V_(v->n), r.chance(60) ? V_(v->n) : ex(v->ty, d + 1));
	}
	case 1: { static const char *o[] = {"<", ">", "<=", ">=", "==", "!="}; return BIN(o[r.next() % 6], ex('I', d + 1), ex('I', d + 1)); }
	case 2: return L("not", ex('B', d + 1));
	case 3: return L(r.chance(50) ? "and" : "or", ex('B', d + 1), ex('B', d + 1));
	case 4: return BIN(r.chance(50) ? "==" : "!=", ex('S', d + 1), ex('S', d + 1));
	case 5: { char t = anytype(); if (t == 'O' || t == 'U' || t == 'A') t = 'L'; return BIN("==", ex(t, d + 1), ex(t, d + 1)); }
	default: if (c.sets && r.chance(50)) return L("ix", ex('E', d + 1), ex('I', d + 1)); return BIN("<", ex('I', d + 1), ex('I', d + 1));
	}
}
N Gen::iexpr(int d) {
	for (;;) switch (r.range(0, 16)) {
	case 0: case 1: case 2: { static const char *o[] = {"+", "-", "*"}; return BIN(o[r.next() % 3], ex('I', d + 1), ex('I', d + 1)); }
	case 3: { static const char *o[] = {"&", "|", "^", "&^"}; return BIN(o[r.next() % 4], ex('I', d + 1), ex('I', d + 1)); }
	case 4:
		// the smallest int is the one value that a division can overflow on
		if (r.chance(4)) return BIN("%", BIN(r.chance(50) ? "//" : "%", BIN("<<", r.chance(50) ? IL(1) : L("tern", cond(d + 1), IL(1), IL(3)), IL(63)), r.chance(60) ? IL(-1) : L("tern", cond(d + 1), IL(-1), IL(r.range(2, 9)))), IL(1000));
		if (r.chance(8)) return r.chance(50) ? BIN("<<", IL(r.range(-5, 5)), IL(r.range(0, 12))) : BIN(">>", ex('I', d + 1), IL(r.range(0, 12)));
		return BIN(r.chance(50) ? "//" : "%", ex('I', d + 1), r.chance(90) ? IL(r.range(1, 9)) : ex('I', d + 1));
	case 5: { std::string t = "L"; if (c.strings) t += "SK"; if (c.tables) t += "TU"; if (c.sets) t += "E"; return L("len", ex(t[r.next() % t.size()], d + 1)); }
	case 6: { const Var *v = pickvar('L'); if (!v) break; if (r.chance(92)) return L("tern", BIN(">", L("len", V_(v->n)), IL(0)), L("ix", V_(v->n), IL(r.chance(50) ? 0 : -1)), IL(r.range(0, 9))); return L("ix", V_(v->n), ex('I', d + 1)); }
	case 7: { if (!c.tables) break; const Var *v = pickvar('T'); if (!v) break; return L("nn", L("ix", V_(v->n), key()), ex('I', d + 1)); }
	case 8: { const Var *v = pickvar('c'); if (!v) break; return L("call", V_(v->n), ex('I', d + 1)); }
	case 9: { const Var *v = pickvar('d'); if (!v) break; return L("call", V_(v->n)); }
	case 10: return L("tern", cond(d + 1), ex('I', d + 1), ex('I', d + 1));
	case 11: if (!c.host) break; return H_("hid", {ex('I', d + 1)});
	case 12: { if (!c.host) break; std::vector<N> a; int n = (int)r.range(0, 4); for (int i = 0; i < n; i++) a.push_back(ex(anytype(), d + 2)); return H_("hsum", a); }
	case 13: { if (!c.host || !c.hcall) break; const Var *v = pickvar('c'); if (!v) break; return H_("hcall", {V_(v->n), ex('I', d + 1)}); }
	case 14: { const Var *v = pickvar('L'); if (!v) break; return M_("count", V_(v->n), {ex('I', d + 1)}); }
	case 15: if (!c.host) break; { std::string t = "LS"; if (c.tables) t += "T"; return H_("hlen", {ex(t[r.next() % t.size()], d + 1)}); }
	default: { if (!c.host || !c.tables) break; const Var *v = pickvar('T'); if (!v) break; return H_("htiter", {V_(v->n)}); }
	}
}
N Gen::ex(char ty, int d) {
	if (c.illtyped && (int)(r.next() % 1000) < c.illtyped) { char t = anytype(); return lit(t, d + 1); }
	return ex0(ty, d);
}
N Gen::ex0(char ty, int d) {
	if (r.chance(d >= c.maxdepth ? 75 : 45)) if (const Var *v = pickvar(ty)) return V_(v->n);
	if (d >= c.maxdepth) return lit(ty, d);
	switch (ty) {
	case 'I': if (r.chance(25)) return lit(ty, d); return iexpr(d);
	case 'B': if (r.chance(20)) return lit(ty, d); return cond(d);
	case 'S':
		switch (r.range(0, 6)) {
		case 0: return BIN("~", ex('S', d + 1), ex('S', d + 1));
		case 1: return BIN("~", ex('S', d + 1), ex('I', d + 1));
		case 2: return M_(r.chance(50) ? "toupper" : "tolower", ex('S', d + 1), {});
		case 3: return M_("tostr", ex('I', d + 1), {});
		case 4: { const Var *v = pickvar(r.chance(50) ? 'K' : 'L'); if (v) return M_("join", V_(v->n), {S(",")}); return str(); }
		case 5: { if (ininterp) return str(); ininterp++; std::vector<N> k{A("interp"), S("<"), ex('I', d + 1), S("|"), ex('S', d + 1), S(">")}; ininterp--; return L(k); }
		default: return str();
		}
	case 'L':
		switch (r.range(0, 5)) {
		case 0: return BIN("+", ex('L', d + 1), ex('L', d + 1));
		case 1: return M_("copy", ex('L', d + 1), {});
		case 2: return L("sl", ex('L', d + 1), r.chance(30) ? L("u") : IL(r.range(-2, 4)), r.chance(30) ? L("u") : IL(r.range(-2, 6)));
		default: return lit('L', d);
		}
	case 'T':
		if (r.chance(15)) return BIN("|", ex('T', d + 1), ex('T', d + 1));
		if (r.chance(12)) return M_("copy", ex('T', d + 1), {});
		return lit(ty, d);
	case 'E':
		if (r.chance(40)) { static const char *o[] = {"&", "|", "^", "&^"}; return BIN(o[r.next() % 4], ex('E', d + 1), ex('E', d + 1)); }
		if (r.chance(20)) return M_("copy", ex('E', d + 1), {});
		return lit(ty, d);
	}
	return lit(ty, d);
}
// A comprehension is only generated where it is the whole right-hand side of a statement (see DESIGN.md, known limits of the generator).
N Gen::comp(int d) {
	std::string x = fresh(); N coll = ex('L', d + 1);
	vars.push_back({x, 'I', false, fnlevel, true});
	N e = ex('I', d + 1); N cn = r.chance(40) ? cond(d + 1) : nullptr;
	vars.pop_back();
	std::vector<N> k{A("comp"), e, A(x), coll}; if (cn) k.push_back(cn);
	return L(k);
}
N Gen::fnbody(const std::vector<std::pair<std::string, char>> &ps, char ret, int d, const char *head, const std::string &name) {
	std::vector<N> k{A(head)};
	if (!name.empty()) k.push_back(A(name));
	std::vector<N> pl; for (auto &p : ps) pl.push_back(A(p.first));
	k.push_back(L(pl));
	size_t nv = vars.size();
	int oi = inloop; inloop = 0; int ob = blkdepth; blkdepth = 0;
	fnlevel++;
	for (auto &p : ps) vars.push_back({p.first, p.second, true, fnlevel, false});
	int n = (int)r.range(0, 3);
	body(k, n, d + 1);
	if (c.multi && r.chance(35)) { std::vector<N> rv{A("ret"), ex(ret, d + 1)}; for (int i = (int)r.range(1, 3); i > 0; i--) rv.push_back(ex(r.chance(60) ? 'I' : anytype(), d + 1)); k.push_back(L(rv)); }
	else k.push_back(L("ret", ex(ret, d + 1)));
	fnlevel--;
	vars.resize(nv);
	inloop = oi; blkdepth = ob;
	return L(k);
}
void Gen::body(std::vector<N> &out, int n, int d) { for (int i = 0; i < n; i++) stmt(out, d); }
void Gen::stmt(std::vector<N> &out, int d) {
	if (total++ > 150) return;
	auto block = [&](int n, bool loop) {
		std::vector<N> b{A("do")};
		size_t nv = vars.size();
		blkdepth++; if (loop) inloop++;
		body(b, n, d + 1);
		blkdepth--; if (loop) inloop--;
		vars.resize(nv);
		return L(b);
	};
	auto decl = [&](const std::string &n, char ty, bool mut) { vars.push_back({n, ty, mut, fnlevel, blkdepth > 0}); };
	for (int tries = 0; tries < 20; tries++) switch (r.range(0, 30)) {
	case 0: case 1: case 2: { char t = anytype(); if (r.chance(8)) t = 'F'; if (c.closures && r.chance(14) && d < 3) t = r.chance(60) ? 'c' : 'd'; N e = t == 'L' && c.loops && r.chance(20) ? comp(d) : ex(t, 0 + d); std::string n = fresh(); bool m = r.chance(85); out.push_back(L(m ? "let" : "const", A(n), e)); decl(n, t, m); return; }
	case 3: case 4: { char t = anytype(); const Var *v = pickvar(t, true); if (!v) break; std::string n = v->n; out.push_back(L("=", A(n), t == 'L' && c.loops && r.chance(20) ? comp(d) : ex(t, d))); return; }
	case 5: { const Var *v = pickvar('I', true); if (!v) break; std::string n = v->n; static const char *o[] = {"+", "-", "|", "&"}; out.push_back(L("op=", A(n), A(o[r.next() % 4]), ex('I', d))); return; }
	case 6: { const Var *v = pickvar('L'); if (!v) break; N t = V_(v->n); if (r.chance(90)) { std::vector<N> b{A("do"), L("ix=", t, IL(r.chance(50) ? 0 : -1), ex('I', d))}; out.push_back(L("if", BIN(">", L("len", t), IL(0)), L(b))); } else out.push_back(L("ix=", t, ex('I', d), ex('I', d))); return; }
	case 7: case 8: { if (!c.tables) break; char ty = r.chance(60) ? 'T' : 'U'; const Var *v = pickvar(ty); if (!v) break; N t = V_(v->n); out.push_back(L("ix=", t, key(), r.chance(12) ? L("u") : ex(ty == 'T' ? 'I' : anytype(), d))); return; }
	case 9: case 10: {
		const Var *v = pickvar('L'); if (!v) break; N t = V_(v->n);
		switch (r.range(0, 7)) {
		case 0: case 1: out.push_back(X_(M_("push", t, {ex('I', d)}))); break;
		case 2: { std::vector<N> b{A("do"), X_(M_("pop", t, {}))}; out.push_back(r.chance(90) ? L("if", BIN(">", L("len", t), IL(0)), L(b)) : X_(M_("pop", t, {}))); break; }
		case 3: out.push_back(X_(M_("insert", t, {r.chance(90) ? IL(0) : ex('I', d), ex('I', d)}))); break;
		case 4: out.push_back(X_(M_("reverse", t, {}))); break;
		case 5: if (r.chance(40) || !c.host) out.push_back(X_(M_("clear", t, {}))); else out.push_back(X_(H_("hid", {M_("search", t, {ex('I', d)})}))); break;
		default: out.push_back(X_(M_("sort", t, {}))); break;
		}
		return;
	}
	case 11: { const Var *v = pickvar('A'); if (!v) break; N t = V_(v->n); if (r.chance(70)) out.push_back(X_(M_("push", t, {ex(anytype(), d)}))); else { std::vector<N> b{A("do"), X_(M_("pop", t, {}))}; out.push_back(L("if", BIN(">", L("len", t), IL(0)), L(b))); } return; }
	case 12: { if (!c.tables) break; const Var *v = pickvar(r.chance(60) ? 'T' : 'U'); if (!v) break; N t = V_(v->n); if (r.chance(80)) out.push_back(X_(M_("remove", t, {key()}))); else if (r.chance(30)) out.push_back(X_(M_("clear", t, {}))); else if (c.host) out.push_back(X_(H_("hbag", {M_(r.chance(50) ? "keys" : "values", t, {})}))); else break; return; }
	case 13: { if (!c.sets) break; const Var *v = pickvar('E'); if (!v) break; N t = V_(v->n); if (r.chance(55)) out.push_back(X_(M_("add", t, {ex('I', d)}))); else if (r.chance(70)) out.push_back(X_(M_("remove", t, {ex('I', d)}))); else if (c.host) out.push_back(X_(H_("hbag", {M_("tolist", t, {})}))); else break; return; }
	case 14: case 15: if (!c.host) break; { char t = anytype(); out.push_back(X_(H_("hemit", {ex(t, d)}))); return; }
	case 16: if (!c.host) break; { const Var *v = pickvar(r.chance(50) ? 'L' : 'A'); if (!v) break; out.push_back(X_(H_("hlpush", {V_(v->n), ex('I', d)}))); return; }
	case 17: if (!c.host || !c.tables) break; { const Var *v = pickvar('T'); if (!v) break; out.push_back(X_(H_("htset", {V_(v->n), key(), ex('I', d)}))); return; }
	case 18: if (!c.host || !c.globals) break; { static const char *g[] = {"g0", "g1", "g2"}; N n = S(g[r.next() % 3]); out.push_back(X_(H_("hsetg", {n, ex(anytype(), d)}))); return; }
	case 19: { std::string t = "IIISB"; t += "LK"; out.push_back(L("echo", ex(t[r.next() % t.size()], d))); return; }
	case 20: { if (d > 3) break; std::vector<N> k{A("if"), cond(d)}; k.push_back(block((int)r.range(1, 3), false)); if (r.chance(40)) k.push_back(block((int)r.range(1, 2), false)); out.push_back(L(k)); return; }
	case 21: { if (!c.loops || d > 2) break; std::string n = fresh(); out.push_back(L("let", A(n), IL(0))); vars.push_back({n, 'I', false, fnlevel, blkdepth > 0}); std::vector<N> b{A("do"), L("op=", A(n), A("+"), IL(1))}; N inner = block((int)r.range(1, 3), true); b.insert(b.end(), inner->k.begin() + 1, inner->k.end()); out.push_back(L("while", BIN("<", V_(n), IL(r.range(1, 4))), L(b))); return; }
	case 22: { if (!c.loops || d > 2) break; std::string n = fresh(); N coll = r.chance(20) ? comp(d) : ex('L', d); vars.push_back({n, 'I', false, fnlevel, true}); blkdepth++; N b = block((int)r.range(1, 3), true); blkdepth--; vars.pop_back(); out.push_back(L("for", A(n), coll, b)); return; }
	case 23: { if (!c.loops || d > 2) break; std::string n = fresh(); int lim = (int)r.range(1, c.big ? 40 : 4); if (r.chance(30)) { blkdepth++; N b = block((int)r.range(1, 3), true); blkdepth--; N post = c.host && r.chance(40) ? H_("hlpush", {V_(n), IL(1)}) : M_("push", V_(n), {IL(1)}); out.push_back(L("forx", A(n), L("l"), BIN("<", L("len", V_(n)), IL(lim)), b, post)); return; } vars.push_back({n, 'I', false, fnlevel, true}); blkdepth++; N b = block((int)r.range(1, 3), true); blkdepth--; vars.pop_back(); out.push_back(L("fori", A(n), IL(0), IL(lim), IL(1), b)); return; }
	case 24: { if (!c.closures || d > 2 || fnlevel > 2 || blkdepth) break; std::string n = fresh(); std::string p = fresh(); N f = fnbody({{p, 'I'}}, 'I', d, "fn", n); out.push_back(f); decl(n, 'c', false); return; }
	case 25: { if (!inloop || !r.chance(40)) break; std::vector<N> b{A("do"), L(r.chance(50) ? "brk" : "cont")}; out.push_back(L("if", cond(d), L(b))); return; }
	case 26: { // commutative walk over a table
		if (!c.tables || !c.loops) break; const Var *v = pickvar('T'); const Var *a = pickvar('I', true); if (!v || !a) break;
		std::string n = fresh(), an = a->n, vn = v->n; std::vector<N> b{A("do"), L("op=", A(an), A("+"), L("nn", L("ix", V_(vn), V_(n)), IL(1)))}; out.push_back(L("for", A(n), V_(vn), L(b), A("c"))); return; }
	case 27: case 28: case 29: if (!c.match || d > 2) break; out.push_back(matchstmt(d)); return;
	default:
		if (c.multi && r.chance(60)) {
			if (c.closures && d <= 2 && fnlevel <= 2 && !blkdepth && r.chance(15)) {    // returns nothing
				std::string n = fresh(), p = fresh();
				N f = fnbody({{p, 'I'}}, 'I', d, "fn", n); f->k.pop_back();
				if (f->k.size() == 3 && c.host) f->k.push_back(X_(H_("hemit", {V_(p)})));
				out.push_back(f); decl(n, 'z', false); return;
			}
			auto some = [&]() -> N {
				const Var *v = pickvar(r.chance(40) ? 'z' : 'c');
				if (v && r.chance(75)) { N a = r.chance(25) ? nullptr : ex('I', d); const Var *v2 = pickvar(r.chance(30) ? 'z' : 'c'); if (v->ty == 'z' && a && v2 && r.chance(30)) a = L("call", V_(v2->n), ex('I', d)); N cl = L("call", V_(v->n)); if (a) cl->k.push_back(a); if (r.chance(15)) cl->k.push_back(ex(anytype(), d)); return cl; }
				if (r.chance(30)) { const Var *l = pickvar('L'); if (l) return M_(r.chance(50) ? "reverse" : r.chance(50) ? "sort" : "copy", V_(l->n), {}); }
				if (c.closures && d <= 2 && fnlevel <= 2 && r.chance(40)) { N f = ex('c', d); if (f->is("lam")) { N g = L("call", L(std::vector<N>(f->k)), ex('I', d)); return g; } return L("call", f, ex('I', d)); }
				return ex(anytype(), d);
			};
			switch (r.range(0, 5)) {
			case 0: case 1: {
				std::vector<N> ns, k{A("lets")}; std::vector<std::string> nm;
				for (int i = (int)r.range(1, 4); i > 0; i--) { nm.push_back(fresh()); ns.push_back(A(nm.back())); }
				k.push_back(L(ns)); for (int i = (int)r.range(0, (int64_t)nm.size() - 1); i > 0; i--) k.push_back(some()); k.push_back(some());
				out.push_back(L(k)); if (c.host) for (auto &n : nm) out.push_back(X_(H_("hemit", {V_(n)})));
				return;
			}
			case 2: {
				std::vector<N> ns, k{A("asgs")}; std::vector<std::string> nm;
				for (int i = (int)r.range(1, 3); i > 0; i--) { nm.push_back(fresh()); ns.push_back(A(nm.back())); out.push_back(L("let", A(nm.back()), IL(0))); }
				if (nm.size() < 2) return;
				k.push_back(L(ns)); for (int i = (int)r.range(0, (int64_t)nm.size() - 1); i > 0; i--) k.push_back(some()); k.push_back(some());
				out.push_back(L(k)); if (c.host) for (auto &n : nm) out.push_back(X_(H_("hemit", {V_(n)})));
				return;
			}
			case 3: if (c.host) { out.push_back(X_(H_("hsum", {some(), some()}))); return; } break;
			case 4: if (c.host) { out.push_back(X_(H_("hemit", {some()}))); return; } break;
			default: if (c.host) { std::vector<N> l{A("ls"), some(), some()}; out.push_back(X_(H_("hemit", {L(l)}))); return; } break;
			}
		}
		if (c.errors && r.chance(12)) {
			switch (r.range(0, 7)) {
			case 0: if (c.host) { out.push_back(X_(H_("hthrow", {IL(r.range(0, 9))}))); return; } break;
			case 1: out.push_back(L("assert", cond(d))); return;
			case 2: out.push_back(X_(BIN("//", ex('I', d), IL(0)))); return;
			case 3: out.push_back(X_(L("ix", ex('L', d), IL(r.range(50, 60))))); return;
			case 4: out.push_back(X_(M_("nosuch", ex('I', d), {}))); return;
			case 5: if (c.tables) { out.push_back(L("ix=", ex('T', d), ex('L', d), IL(1))); return; } break;
			case 6: out.push_back(L("for", A(fresh()), ex('I', d), L(std::vector<N>{A("do")}))); return;
			case 7: out.push_back(X_(L("call", ex('I', d), IL(1)))); return;
			}
		}
		break;
	}
	if (c.host) out.push_back(X_(H_("hemit", {ex('I', d)})));
	else out.push_back(L("echo", ex('I', d)));
}
// A pattern for values of type ty (mostly); variables it binds go to b (null: binds nothing).
N Gen::pattern(char ty, int d, std::vector<Bind> *b) {
	if (r.chance(6)) { std::string ts = "IISBLAT"; return pattern(ts[r.next() % ts.size()], d + 1, nullptr); }
	if (b && r.chance(d ? 30 : 12)) { std::string n = fresh(); bool m = r.chance(50); b->push_back({n, ty, m}); return L("pbind", A(m ? "let" : "const"), A(n)); }
	if (r.chance(12)) return L("pany");
	if (d < 3 && r.chance(10)) { std::vector<Bind> nb; N p = pattern(ty, d + 1, b ? &nb : nullptr), q; if (b) b->insert(b->end(), nb.begin(), nb.end()); if (nb.empty() && r.chance(50)) q = pattern(ty, d + 1, nullptr); else q = variant(p); return L("palt", p, q); }
	auto lit = [&](char t) -> N { N e = t == 'I' ? IL(r.chance(85) ? r.range(-2, 9) : r.range(-400, 90000)) : t == 'S' ? str() : t == 'F' ? this->lit('F', 3) : L("b", I(r.range(0, 1))); return e; };
	switch (ty) {
	case 'I': return r.chance(65) ? L("plit", lit('I')) : r.chance(70) ? L("ptype", A("int")) : r.chance(50) ? L("plit", lit('F')) : L("pundef");
	case 'F': return r.chance(60) ? L("plit", lit('F')) : L("ptype", A("float"));
	case 'S': return r.chance(70) ? L("plit", lit('S')) : L("ptype", A("str"));
	case 'B': return r.chance(70) ? L("plit", lit('B')) : L("ptype", A("bool"));
	case 'L': case 'K': case 'A': {
		if (r.chance(8)) return L("ptype", A("list"));
		std::vector<N> k{A(r.chance(45) ? "pvls" : "pls")};
		for (int n = (int)r.range(0, 3); n > 0; n--) { char t = ty == 'L' ? 'I' : ty == 'K' ? 'S' : "ISBLT"[r.next() % 5]; k.push_back(pattern(t, d + 1, ty == 'A' && r.chance(50) ? nullptr : b)); if (ty == 'A' && b && !b->empty()) for (auto &x : *b) x.ty = '?'; }
		return L(k);
	}
	case 'T': case 'U': {
		if (r.chance(8)) return L("ptype", A("table"));
		std::vector<N> k{A(r.chance(60) ? "pvtb" : "ptb")};
		for (int n = (int)r.range(0, 3); n > 0; n--) { k.push_back(r.chance(90) ? key() : lit(r.chance(50) ? 'B' : 'F')); size_t nb = b ? b->size() : 0; k.push_back(pattern(ty == 'T' ? 'I' : "ISLT"[r.next() % 4], d + 1, b)); if (ty == 'U' && b) for (size_t i = nb; i < b->size(); i++) (*b)[i].ty = '?'; }
		return L(k);
	}
	}
	return L("pany");
}
// Another pattern binding the same variables.
N Gen::variant(const N &p) {
	const std::string &h = p->head();
	auto same = [](const N &q) { std::vector<N> k; for (auto &c : q->k) k.push_back(c); return L(k); };
	if (h == "plit") { N e = p->k[1]; if (!e->list) return L("plit", str()); if (e->is("i")) return L("plit", IL(r.range(-2, 9))); return same(p); }
	if (h == "pany" || h == "ptype" || h == "pundef") return r.chance(50) ? L("pany") : same(p);
	if (h == "pbind") { if (r.chance(30)) return L(r.chance(50) ? "pls" : "pvls", same(p)); return same(p); }
	if (h == "palt") return L("palt", variant(p->k[1]), variant(p->k[2]));
	bool tb = h == "ptb" || h == "pvtb";
	std::vector<N> k{A(r.chance(70) ? h : tb ? (h == "ptb" ? "pvtb" : "ptb") : h == "pls" ? "pvls" : "pls")};
	for (size_t i = 1; i < p->size(); i++) k.push_back(tb && i % 2 ? (r.chance(60) ? p->k[i] : key()) : variant(p->k[i]));
	if (!tb && k.size() > 2 && r.chance(30)) std::reverse(k.begin() + 1, k.end());
	if (!tb && r.chance(20)) k.push_back(L("pany"));
	return L(k);
}
N Gen::matchstmt(int d) {
	std::string ts = "IILLATTUSB"; if (!c.tables) ts = "IILLASB"; if (c.strings) ts += "K";
	char ty = ts[r.next() % ts.size()];
	std::vector<N> k{A("match"), ex(ty, d)};
	int n = (int)r.range(1, 4);
	for (int i = 0; i < n; i++) {
		std::vector<Bind> b;
		bool last = i == n - 1;
		N p = last && r.chance(25) ? L("pany") : pattern(ty, 0, &b);
		size_t nv = vars.size();
		blkdepth++;
		for (auto &x : b) vars.push_back({x.n, x.ty, x.mut, fnlevel, true});
		// A guard that fails after a pattern bound parts of the value leaves a part in the value's place (recorded finding): only the last case may do that.
		bool may = last || b.empty() || (b.size() == 1 && p->is("pbind"));
		N g = may && r.chance(35) ? (b.size() == 1 && b[0].ty == 'I' && r.chance(50) ? BIN(r.chance(50) ? "<" : ">", V_(b[0].n), IL(r.range(0, 5))) : cond(d + 1)) : A("-");
		std::vector<N> bd{A("do")};
		if (c.host) bd.push_back(X_(H_("hemit", {IL(i)}))); else bd.push_back(L("echo", IL(i)));
		if (c.host) for (auto &x : b) bd.push_back(X_(H_("hemit", {V_(x.n)})));
		body(bd, (int)r.range(0, 2), d + 1);
		blkdepth--; vars.resize(nv);
		k.push_back(L("case", p, g, L(bd)));
	}
	return L(k);
}
void Gen::emits(std::vector<N> &out) {
	for (auto &v : vars) if (v.fn == 0 && !v.blk && v.ty != 'c' && v.ty != 'd' && v.ty != 'z') {
		if (v.ty == 'E') out.push_back(X_(H_("hbag", {M_("tolist", V_(v.n), {})})));
		else out.push_back(X_(H_("hemit", {V_(v.n)})));
	}
}
N Gen::program() {
	std::vector<N> k{A("prog")};
	body(k, c.stmts, 0);
	if (c.host) emits(k);
	return L(k);
}
