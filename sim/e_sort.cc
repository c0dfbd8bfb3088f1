// C09: sorting under an adversarial random source, judged on the list after each call.
#include "engine.h"
#include <cmath>
#include <algorithm>
extern "C" int sim_fflush(FILE *f);
namespace {
// elements in a plan: (i n) (f "text") (s "bytes") (u) (b 0|1) (l) (o)
V elem(const N &e) {
	if (e->is("i")) return V::In(e->k[1]->num());
	if (e->is("f")) return V::F(strtod(e->k[1]->a.c_str(), nullptr));
	if (e->is("s")) return V::St(e->k[1]->a);
	if (e->is("b")) return V::B(e->k[1]->num());
	if (e->is("l")) { V v; v.t = 'l'; v.o = std::make_shared<MObj>(); v.o->t = 'l'; return v; }
	if (e->is("o")) { V v; v.t = 'o'; v.o = std::make_shared<MObj>(); v.o->t = 'o'; return v; }
	return V::undef();
}
std::string lit(double d) { char b[64]; snprintf(b, sizeof b, "%.17g", d); return b; }
N fnode(double d) { return L("f", S(lit(d))); }
N num_elem(Rng &r, int mix) {
	static const double odd[] = {0.0, -0.0, 1.0, 1.5, -2.5, 9007199254740992.0, 9007199254740994.0, 9223372036854775808.0, -9223372036854775808.0, 1e308, -1e308, 4.9e-324, 1e17, 0.1};
	switch (mix) {
	case 0: return L("i", I(r.range(0, 4)));
	case 1: return L("i", I(r.range(-1000, 1000)));
	case 2: return L("i", I((int64_t)r.next()));
	case 3: return L("i", I((r.chance(50) ? 9007199254740992ll : r.chance(50) ? INT64_MAX - 2 : -9007199254740992ll) + r.range(-2, 2)));
	case 4: return fnode((double)r.range(-8, 8) / 2);
	case 5: return fnode(odd[r.next() % (sizeof odd / sizeof *odd)]);
	case 6: return r.chance(50) ? num_elem(r, 4) : num_elem(r, 0);
	case 7: return r.chance(50) ? num_elem(r, 5) : num_elem(r, 3);
	case 8: return fnode(r.chance(40) ? INFINITY : r.chance(50) ? -INFINITY : (double)r.range(0, 3));
	case 9: return r.chance(25) ? fnode(NAN) : num_elem(r, (int)r.range(0, 6));
	default: return L("i", I(1));
	}
}
N str_elem(Rng &r, int mix) {
	std::string s;
	switch (mix) {
	case 0: s = std::string(1, (char)('a' + r.range(0, 3))); break;
	case 1: s = std::string((size_t)r.range(0, 6), 'a'); break;                                   // prefixes of each other
	case 2: for (int i = (int)r.range(0, 5); i > 0; i--) s += (char)r.next(); break;             // any bytes
	case 3: for (int i = (int)r.range(0, 4); i > 0; i--) s += r.chance(50) ? '\0' : 'a'; break;
	case 4: s = "common prefix that is long enough to be allocated " + std::to_string(r.range(0, 30)); break;
	default: s = std::to_string(r.range(0, 200)); break;
	}
	return L("s", S(s));
}
N bad_elem(Rng &r, bool strs) {
	switch (r.range(0, 5)) { case 0: return L("u"); case 1: return L("b", I(r.range(0, 1))); case 2: return L("l"); case 3: return L("o"); default: return strs ? num_elem(r, (int)r.range(0, 5)) : str_elem(r, (int)r.range(0, 5)); }
}
std::vector<N> contents(Rng &r, int tier, bool &strs, int &mix) {
	strs = r.chance(35); mix = (int)r.range(0, strs ? 5 : 10);
	int64_t n = r.pick(std::vector<int64_t>{0, 1, 2, 3, r.range(3, 10), r.range(3, 10), r.range(3, 10), r.range(10, 60), r.range(10, 60), r.range(60, 250), r.range(tier ? 60 : 20, tier ? 700 : 200)});
	std::vector<N> v;
	for (int64_t i = 0; i < n; i++) v.push_back(strs ? str_elem(r, mix) : num_elem(r, mix));
	if (mix != 9 && r.chance(35)) {        // runs, organ pipes, nearly sorted
		auto less = [](const N &x, const N &y) { V a = elem(x), b = elem(y); if (a.t == 's') return a.s < b.s; double p = a.t == 'i' ? (double)a.i : a.d, q = b.t == 'i' ? (double)b.i : b.d; return p < q; };
		std::stable_sort(v.begin(), v.end(), less);
		if (r.chance(40)) std::reverse(v.begin(), v.end());
		else if (r.chance(40)) std::reverse(v.begin() + (long)(v.size() / 2), v.end());
		for (int i = (int)r.range(0, 3); i > 0 && v.size() > 1; i--) std::swap(v[r.next() % v.size()], v[r.next() % v.size()]);
	}
	return v;
}
// exact order of the language: ints by value, floats by value, an int and a float by value
int order(const V &a, const V &b) {
	if (a.t == 's') { int c = memcmp(a.s.data(), b.s.data(), std::min(a.s.size(), b.s.size())); return c ? c : a.s.size() < b.s.size() ? -1 : a.s.size() > b.s.size(); }
	if (a.t == 'i' && b.t == 'i') return a.i < b.i ? -1 : a.i > b.i;
	long double x = a.t == 'i' ? (long double)a.i : (long double)a.d, y = b.t == 'i' ? (long double)b.i : (long double)b.d;
	return x < y ? -1 : x > y;
}
bool isnan_(const V &v) { return v.t == 'f' && std::isnan(v.d); }
bool sortable(const std::vector<V> &v) {
	bool n = false, s = false;
	for (auto &x : v) { if (x.t == 's') s = true; else if (x.t == 'i' || x.t == 'f') n = true; else return false; }
	return !(n && s);
}
std::string dumpv(const std::vector<V> &v) { std::string o = "["; for (size_t i = 0; i < v.size(); i++) { if (i) o += ","; o += v[i].t == 'o' ? "obj" : dump(v[i]); } return o + "]"; }
struct Lists {
	Actor a; std::vector<std::vector<V>> ref; std::vector<int> where;   // global -> list it holds
	int nested = -1, tab = -1;
	std::string src;
	std::vector<V> read() {           // list on top of the stack
		if (!YASL_islist(a.S)) violation("holder", "a holder of a list holds %s instead", dump_top(a.S).c_str());
		YASL_duptop(a.S); YASL_len(a.S); int64_t n = YASL_popint(a.S);
		std::vector<V> v;
		for (int64_t i = 0; i < n; i++) {
			YASL_listget(a.S, i);
			V x;
			if (YASL_isint(a.S)) x = V::In(YASL_peekint(a.S));
			else if (YASL_isfloat(a.S)) x = V::F(YASL_peekfloat(a.S));
			else if (YASL_isstr(a.S)) x = V::St(top_bytes(a.S));
			else if (YASL_isbool(a.S)) x = V::B(YASL_peekbool(a.S));
			else if (YASL_islist(a.S)) { x.t = 'l'; x.o = std::make_shared<MObj>(); x.o->t = 'l'; }
			else if (YASL_isundef(a.S)) ;
			else { dump_top(a.S); x.t = 'o'; x.o = std::make_shared<MObj>(); x.o->t = 'o'; }
			YASL_pop(a.S);
			v.push_back(x);
		}
		return v;
	}
	static bool equal(const std::vector<V> &x, const std::vector<V> &y) { return x.size() == y.size() && dumpv(x) == dumpv(y); }
	void load(const std::string &g) { if (YASL_loadglobal(a.S, g.c_str()) != YASL_SUCCESS) violation("global", "%s cannot be loaded", g.c_str()); }
	// after a sort of list l: adopt the order of the real list when it is right
	void adopt(int l, const char *how) {
		std::vector<V> v; bool got = false;
		for (size_t h = 0; h < where.size() && !got; h++) if (where[h] == l) { load("g" + std::to_string(h)); v = read(); YASL_pop(a.S); got = true; }
		if (!got && nested == l) { load("nest"); YASL_listget(a.S, 0); v = read(); YASL_pop(a.S); YASL_pop(a.S); got = true; }
		if (!got && tab == l) { load("tab"); YASL_pushundef(a.S); if (!YASL_tablenext(a.S)) violation("table", "the table that holds a list is empty"); v = read(); YASL_pop(a.S); YASL_pop(a.S); YASL_pop(a.S); got = true; }
		if (!got) return;
		{
			std::vector<V> p = v, q = ref[l];
			auto key = [](const V &x, const V &y) { return dump(x) < dump(y); };
			std::sort(p.begin(), p.end(), key); std::sort(q.begin(), q.end(), key);
			if (!equal(p, q)) violation("elements", "%s: %s became %s", how, dumpv(ref[l]).c_str(), dumpv(v).c_str());
			bool nan = false; for (auto &x : v) nan |= isnan_(x);
			if (!nan) for (size_t i = 1; i < v.size(); i++) if (order(v[i], v[i - 1]) < 0) violation("order", "%s: %s comes before %s in %s", how, dump(v[i - 1]).c_str(), dump(v[i]).c_str(), dumpv(v).c_str());
			ref[l] = v;
		}
	}
	void check(const char *when) {
		for (size_t h = 0; h < where.size(); h++) {
			load("g" + std::to_string(h)); auto v = read(); YASL_pop(a.S);
			if (!equal(v, ref[where[h]])) violation("sync", "%s: g%zu holds %s, other holders see %s", when, h, dumpv(v).c_str(), dumpv(ref[where[h]]).c_str());
		}
		if (nested >= 0) { load("nest"); YASL_listget(a.S, 0); auto v = read(); YASL_pop(a.S); YASL_pop(a.S); if (!equal(v, ref[nested])) violation("sync", "%s: the list inside a list holds %s, other holders see %s", when, dumpv(v).c_str(), dumpv(ref[nested]).c_str()); }
		if (tab >= 0) { load("tab"); YASL_pushundef(a.S); if (!YASL_tablenext(a.S)) violation("table", "the table that holds a list is empty"); auto v = read(); YASL_pop(a.S); YASL_pop(a.S); YASL_pop(a.S); if (!equal(v, ref[tab])) violation("sync", "%s: the list inside a table holds %s, other holders see %s", when, dumpv(v).c_str(), dumpv(ref[tab]).c_str()); }
	}
	int entry(const std::string &s) { logs(s); YASL_resetstate_bb(a.S, s.data(), s.size()); int r = YASL_execute(a.S); logf_("-> %d, %llu draws", r, (unsigned long long)w.rand_calls); return r; }
	void setlist(int g, const std::vector<V> &v) {
		YASL_pushlist(a.S);
		for (auto &x : v) { pushv(x); YASL_listpush(a.S); }
		if (YASL_setglobal(a.S, ("g" + std::to_string(g)).c_str())) violation("global", "g%d cannot be set", g);
	}
	void pushv(const V &x) { if (x.t == 'l') YASL_pushlist(a.S); else if (x.t == 'o') YASL_pushundef(a.S); else push_value(a, x); }
};
}
N gen_C09(Rng &r, int tier) {
	std::vector<N> k{A("plan"), L("randseed", I(r.range(0, 1 << 30)))};
	int nl = (int)r.range(1, 3);
	std::vector<N> ls{A("lists")}; std::vector<bool> strs(6); std::vector<int> mix(6); std::vector<int64_t> len;
	for (int i = 0; i < nl; i++) { bool s; int m; std::vector<N> v = contents(r, tier, s, m); strs[i] = s; mix[i] = m; len.push_back((int64_t)v.size()); std::vector<N> e{A("ls")}; e.insert(e.end(), v.begin(), v.end()); ls.push_back(L(e)); }
	k.push_back(L(ls));
	if (r.chance(60)) {
		std::vector<N> d{A("draws")};
		int64_t n = len[0];
		switch (r.range(0, 8)) {
		case 0: d.push_back(I(0)); break;
		case 1: d.push_back(I(n > 0 ? n - 1 : 0)); break;
		case 2: d.push_back(I(0)); d.push_back(I(INT32_MAX)); break;
		case 3: for (int64_t i = n; i > 0 && i > n - 300; i--) d.push_back(I(i - 1)); break;         // always the last one
		case 4: d.push_back(I(n / 2)); break;
		case 5: for (int i = (int)r.range(1, 4); i > 0; i--) d.push_back(I(r.range(0, n ? n : 1))); break;
		case 6: d.push_back(I(INT32_MAX)); break;
		case 7: { int64_t x = 720720; d.push_back(I(x)); if (r.chance(50)) d.push_back(I(x - 1)); } break;    // 0 modulo most lengths
		default: for (int i = (int)r.range(5, 60); i > 0; i--) d.push_back(I(r.range(0, INT32_MAX))); break;
		}
		if (d.size() > 1) k.push_back(L(d));
	}
	std::vector<N> ops{A("ops")};
	int g = nl;
	for (int i = (int)r.range(2, tier ? 30 : 16); i > 0; i--) {
		int x = (int)r.range(0, g - 1);
		int sx = x < nl ? x : 0;
		N v = strs[sx] ? str_elem(r, mix[sx]) : num_elem(r, mix[sx]);
		switch (r.range(0, 21)) {
		case 0: case 1: case 2: case 3: case 4: case 5: case 6: { static const char *via[] = {"direct", "fn", "host", "loop", "twice", "closure"}; ops.push_back(L("sort", A(via[r.next() % 6]), I(x))); } break;
		case 7: if (g < 6) { ops.push_back(L("alias", I(g), I(x))); strs[g] = strs[x]; mix[g] = mix[x]; g++; } break;
		case 8: if (g < 6) { ops.push_back(L("copy", I(g), I(x))); strs[g] = strs[x]; mix[g] = mix[x]; g++; } break;
		case 9: ops.push_back(L("nest", I(x))); break;
		case 10: ops.push_back(L("tab", I(x))); break;
		case 11: ops.push_back(L("sort", A(r.chance(50) ? "nested" : "intab"), I(x))); break;
		case 12: case 13: ops.push_back(L("push", I(x), v)); break;
		case 14: ops.push_back(L("set", I(x), I(r.range(0, 300)), v)); break;
		case 15: ops.push_back(L("insert", I(x), I(r.range(0, 300)), v)); break;
		case 16: ops.push_back(L("pop", I(x))); break;
		case 17: ops.push_back(L("reverse", I(x))); break;
		case 18: case 19: { int64_t p = r.range(0, 300); ops.push_back(L("insert", I(x), I(p), bad_elem(r, strs[sx]))); ops.push_back(L("sort", A("direct"), I(x))); if (r.chance(70)) ops.push_back(L("clean", I(x))); } break;
		case 20: ops.push_back(L("sortabort", I(x))); break;
		default: ops.push_back(L("drop", I(x))); break;
		}
	}
	ops.push_back(L("sort", A("direct"), I(r.range(0, g - 1))));
	if (r.chance(tier ? 8 : 3)) ops.push_back(L("big", I(r.range(0, 3)), I(tier ? r.range(1000, 20000) : r.range(500, 3000))));
	k.push_back(L(ops));
	return L(k);
}
void run_C09(const N &plan) {
	N ls = find(plan, "lists"), ops = find(plan, "ops");
	if (!ls || ls->size() < 2 || !ops) discard("no lists");
	Lists c; Actor &a = c.a; a.hvals = fresh_hvals();
	set_step_budget(400000000);
	a.open_buf(""); a.libs(63, true);
	for (auto g : {"g3", "g4", "g5", "nest", "tab"}) a.decl(g);
	bool adv = !w.rand_script.empty();
	size_t top = 0;
	for (size_t i = 1; i < ls->size(); i++) { std::vector<V> v; for (size_t j = 1; j < ls->k[i]->size(); j++) v.push_back(elem(ls->k[i]->k[j])); if (v.size() > 2000) discard("large"); c.ref.push_back(v); c.where.push_back((int)i - 1); c.setlist((int)i - 1, v); top = std::max(top, v.size()); }
	auto n_of = [&](const N &op, size_t at) { return op->size() > at ? op->k[at]->num() : 0; };
	c.check("start");
	size_t sorts = 0, fails = 0, errlen = 0;
	for (size_t o = 1; o < ops->size(); o++) {
		N op = ops->k[o]; if (op->size() < 2) continue;
		std::string what = show(op); if (what.size() > 60) what.resize(60);
		auto G = [](int64_t x) { return "g" + std::to_string(x); };
		if (op->is("alias") || op->is("copy")) {
			int d = (int)n_of(op, 1), s = (int)n_of(op, 2);
			if (s >= (int)c.where.size() || d > (int)c.where.size() || d > 5) continue;
			if (d == (int)c.where.size()) c.where.push_back(0);
			int st = c.entry(op->is("alias") ? G(d) + " = " + G(s) + ";" : G(d) + " = " + G(s) + "->copy();");
			if (st) violation("status", "%s failed with %d", what.c_str(), st);
			if (op->is("alias")) c.where[d] = c.where[s];
			else { c.ref.push_back(c.ref[c.where[s]]); c.where[d] = (int)c.ref.size() - 1; }
			c.check(what.c_str()); continue;
		}
		if (op->is("big")) {       // a long list with few different elements: fair draws only, bounded work
			int64_t n = n_of(op, 2); int kind = (int)n_of(op, 1);
			if (adv) { w.rand_script.clear(); }
			std::vector<V> v; uint64_t x = 88172645463325252ull;
			for (int64_t i = 0; i < n; i++) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; v.push_back(kind == 0 ? V::In(i + 1 == n) : kind == 1 ? V::In((int64_t)(x % 3)) : kind == 2 ? V::In(i) : V::St(std::to_string(x % 1000))); }
			c.where[0] = (int)c.ref.size(); c.ref.push_back(v); c.setlist(0, v);
			uint64_t s0 = steps(), d0 = w.rand_calls;
			int st = c.entry("g0->sort();");
			if (st) violation("status", "sorting %lld elements failed with %d", (long long)n, st);
			uint64_t used = steps() - s0; double bound = 1500.0 * (double)n * (std::log2((double)n) + 4);
			logf_("%lld elements: %llu steps, %llu draws", (long long)n, (unsigned long long)used, (unsigned long long)(w.rand_calls - d0));
			if ((double)used > bound) violation("work", "sorting %lld elements took %llu steps and %llu draws with a fair random source", (long long)n, (unsigned long long)used, (unsigned long long)(w.rand_calls - d0));
			c.adopt(c.where[0], what.c_str()); c.check(what.c_str()); probe("long list"); continue;
		}
		int64_t x = op->is("sort") ? n_of(op, 2) : n_of(op, 1);
		if (x < 0 || x >= (int64_t)c.where.size()) continue;
		int l = c.where[(size_t)x]; auto &ref = c.ref[l];
		std::string g = G(x);
		if (op->is("sort") || op->is("sortabort")) {
			std::string via = op->is("sort") ? op->k[1]->a : "abort", s;
			int tl = l;
			if (via == "nested") { if (c.nested < 0) continue; tl = c.nested; s = "nest[0]->sort();"; }
			else if (via == "intab") { if (c.tab < 0) continue; tl = c.tab; s = "tab.x->sort();"; }
			else if (via == "fn") s = "fn srt(l) { l->sort(); return len l; }\nhemit(srt(" + g + "));";
			else if (via == "host") s = "hemit(hcall(fn(l) { l->sort(); return len l; }, " + g + "));";
			else if (via == "closure") s = "let h = [" + g + "];\nlet f = fn() { h[0]->sort(); return h; };\nhemit(len f()[0]);";
			else if (via == "loop") s = "let n = 0;\nfor x <- " + g + " { n += 1; if n < 4 { " + g + "->sort(); }; };\nhemit(n);";
			else if (via == "twice") s = g + "->sort();\n" + g + "->sort();";
			else if (via == "abort") s = g + "->sort();\nhthrow(1);\n" + g + "->push(1);";
			else s = "hemit(" + g + "->sort());";
			bool ok = sortable(c.ref[tl]), never = via == "loop" && c.ref[tl].empty();
			a.trace.clear();
			uint64_t s0 = steps();
			int st = c.entry(s), want = ok || never ? 0 : 7;
			bool threw = via == "abort" && ok;
			if (threw ? st == 0 : st != want) violation("status", "%s: want status %d, got %d for %s", what.c_str(), want, st, dumpv(c.ref[tl]).c_str());
			double n = (double)c.ref[tl].size();
			if ((double)(steps() - s0) > 3000.0 * (n + 8) * (n + 8) + 400000) violation("work", "%s: %llu steps for %zu elements", what.c_str(), (unsigned long long)(steps() - s0), c.ref[tl].size());
			if (ok) { c.adopt(tl, what.c_str()); sorts++; std::string exp = "emit " + std::to_string(c.ref[tl].size()); bool counted = via == "fn" || via == "host" || via == "closure" || via == "loop"; if (counted && (a.trace.empty() || a.trace.back() != exp)) violation("length", "%s: want %s, got %s", what.c_str(), exp.c_str(), a.trace.empty() ? "nothing" : a.trace.back().c_str()); }
			else { fails++; probe("refused sort"); std::string e = a.errtext(); if (e.size() <= errlen && !never) violation("unreported", "%s failed, but nothing was reported", what.c_str()); errlen = e.size(); }
			if (n > 1 && ok && !never) {   // and the language agrees that it is in order
				bool nan = false; for (auto &v : c.ref[tl]) nan |= isnan_(v);
				std::string h = via == "nested" ? "nest[0]" : via == "intab" ? "tab.x" : g;
				if (!nan) { a.trace.clear(); int q = c.entry("let bad = 0;\nlet ls = " + h + ";\nfor let i = 1; i < len ls; i += 1 { if ls[i] < ls[i-1] { bad += 1; }; };\nhemit(bad);"); if (q || a.trace.empty() || a.trace.back() != "emit 0") violation("order-script", "%s: the script finds elements out of order (status %d, %s)", what.c_str(), q, a.trace.empty() ? "-" : a.trace.back().c_str()); }
			}
			c.check(what.c_str()); continue;
		}
		int st = 0;
		int64_t n = (int64_t)ref.size();
		if (op->is("push") || op->is("insert") || op->is("set")) {
			V v = elem(op->k.back());
			int64_t p = n_of(op, 2);
			if (op->is("push")) p = n; else if (op->is("insert")) p = p % (n + 1); else { if (!n) continue; p = p % n; }
			if (v.t == 'o') { st = c.entry(g + "->insert(" + std::to_string(p) + ", hobj(0));"); if (!op->is("set")) ref.insert(ref.begin() + p, v); else { ref.insert(ref.begin() + p, v); } }
			else {
				c.pushv(v); if (YASL_setglobal(a.S, "__tmp")) violation("global", "cannot be set");
				st = c.entry(op->is("push") ? g + "->push(__tmp);" : op->is("insert") ? g + "->insert(" + std::to_string(p) + ", __tmp);" : g + "[" + std::to_string(p) + "] = __tmp;");
				if (op->is("set")) ref[(size_t)p] = v; else ref.insert(ref.begin() + p, v);
			}
		} else if (op->is("pop")) { if (!n) continue; st = c.entry(g + "->pop();"); ref.pop_back(); }
		else if (op->is("reverse")) { st = c.entry(g + "->reverse();"); std::reverse(ref.begin(), ref.end()); }
		else if (op->is("nest")) { st = c.entry("nest = [" + g + ", " + g + "];"); c.nested = l; }
		else if (op->is("tab")) { st = c.entry("tab = { 'x': " + g + " };"); c.tab = l; }
		else if (op->is("drop")) { st = c.entry(g + " = [];"); c.ref.push_back({}); c.where[(size_t)x] = (int)c.ref.size() - 1; }
		else if (op->is("clean")) {   // take out whatever cannot be sorted with the first element
			std::vector<V> keep; char first = 0; std::string s;
			int64_t at = 0; for (auto &v : ref) { char t = v.t == 'f' ? 'i' : v.t; bool fine = (t == 'i' || t == 's') && (!first || first == t); if (fine) { first = t; keep.push_back(v); at++; } }
			(void)at; c.ref.push_back(keep); c.where[(size_t)x] = (int)c.ref.size() - 1; c.setlist((int)x, keep);
		} else continue;
		if (st) violation("status", "%s failed with %d", what.c_str(), st);
		c.check(what.c_str());
	}
	a.close();
	check_no_leak("end", false);
	a.check_objs("end");
	if (sorts) probe("sorted"); if (fails) probe("failed sorts seen");
	sh->nontrivial = sh->loghash | 1;
	finish_ok();
}
