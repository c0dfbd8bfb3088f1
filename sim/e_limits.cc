// C12: stack slots, call frames and live loops run out at every fill level, through every way of nesting calls; also below the limits, with aborts at depth.
#include "engine.h"
namespace {
const int NKIND = 38;
std::string num(int64_t n) { return std::to_string(n); }
// The body of one level: computes 1 + g(n-1) through one way of calling.
std::string via(int64_t kind, const std::string &g, int64_t arg, int *loops, int *slots) {
	std::string c = g + "(n - 1)", ar;
	for (int64_t i = 0; i < arg; i++) ar += num(i) + ", ";
	*slots = 24; *loops = 0;
	auto mt = [&](const std::string &name, const std::string &params, const std::string &body) { return "\tlet r = 0;\n\tlet o = mt.set({}, {'" + name + "': (fn(" + params + ") {\n\t\tr = " + c + ";\n\t\treturn " + body + ";\n\t})});\n"; };
	switch (kind) {
	case 1: *slots += 4; return "\treturn [1, 2, 3, " + c + "][3] + 1;\n";
	case 2: *loops = 1; return "\tfor x <- [0] {\n\t\treturn 1 + " + c + ";\n\t};\n\treturn 0;\n";
	case 3: *loops = 1; return "\tlet r = 0;\n\tfor x <- 'a' {\n\t\tr = " + c + ";\n\t};\n\treturn r + 1;\n";
	case 4: *loops = 1; return "\tlet r = [" + c + " for x <- [0]];\n\treturn r[0] + 1;\n";
	case 5: return "\treturn hcall(" + g + ", n - 1) + 1;\n";
	case 6: return mt("tostr", "z", "'x'") + "\tlet s = \"#{o}\";\n\treturn r + 1;\n";
	case 7: return mt("__add", "y, z", "r") + "\treturn (o + 1) + 1;\n";
	case 8: return mt("__eq", "y, z", "true") + "\tlet q = [o] == [o];\n\treturn r + 1;\n";
	case 9: return mt("__get", "y, z", "r") + "\treturn o['zz'] + 1;\n";
	case 10: return mt("__set", "y, z, w", "w") + "\to['zz'] = 1;\n\treturn r + 1;\n";
	case 11: return mt("__len", "z", "r") + "\treturn (len o) + 1;\n";
	case 12: return mt("__call", "z, w", "r") + "\treturn o(n) + 1;\n";
	case 13: return mt("tostr", "z", "'x'") + "\tlet s = [o, 1]->join(',');\n\treturn r + 1;\n";
	case 14: return mt("go", "z", "r") + "\treturn o->go() + 1;\n";
	case 15: *slots += 4; return "\tmatch [n, 1] {\n\t\t[let a, const b] {\n\t\t\treturn 1 + " + c + "\n\t\t}\n\t}\n\treturn 0;\n";
	case 16: *slots += (int)arg + 4; return "\thbig(" + ar + "0, 1);\n\treturn " + c + " + 1;\n";
	case 17: *slots += (int)arg + 4; return "\tlet q = (fn(a) {\n\t\treturn a;\n\t});\n\treturn q(" + c + ", " + ar + "0) + 1;\n";
	case 18: *slots += (int)arg + 4; return "\tlet a, let b = hmany(" + num(arg) + ");\n\treturn " + c + " + 1;\n";
	case 19: *slots += (int)arg + 6; return "\tlet l = collections.list(" + ar + c + ");\n\treturn l[" + num(arg) + "] + 1;\n";
	case 20: { *loops = (int)(arg % 6) + 1; *slots += *loops; std::string o, e; for (int i = 0; i < *loops; i++) { o += std::string((size_t)i + 1, '\t') + "for x" + num(i) + " <- [0] {\n"; e = std::string((size_t)i + 1, '\t') + "};\n" + e; } return "\tlet r = 0;\n" + o + "\t\tr = " + c + ";\n" + e + "\treturn r + 1;\n"; }
	case 21: return "\tlet i = 0;\n\tlet r = 0;\n\twhile i < 1 {\n\t\tlet k = i;\n\t\tr = " + c + " + k;\n\t\ti += 1;\n\t};\n\treturn r + 1;\n";
	case 22: return "\tlet u = hobj(0);\n\tlet r = " + c + ";\n\thobj(1);\n\treturn r + 1;\n";
	case 23: return "\tlet m = n;\n\tlet k = (fn() {\n\t\treturn m;\n\t});\n\tlet r = " + c + ";\n\tm += 1;\n\treturn r + k() - n;\n";
	case 24: *slots += (int)arg + 4; return "\thfill(" + num(arg) + ");\n\treturn " + c + " + 1;\n";
	case 25: *slots += (int)arg + 4; return "\tlet l = [" + ar + "0];\n\tlet s = hbig(l->spread());\n\treturn " + c + " + s - " + num(arg) + ";\n";
	case 26: *slots += 6; return "\tlet s = \"a#{n}b#{" + c + "}c\";\n\thcheck(s, n);\n\treturn n;\n";
	case 27: *slots += 4; return "\tlet t = {'k': " + c + "};\n\treturn t['k'] + 1;\n";
	case 28: *slots += (int)arg + 4; return "\tlet q = (fn(a, b) {\n\t\treturn a;\n\t});\n\treturn q(" + c + ") + 1;\n";
	case 29: *slots += 4; return "\tlet f = (fn() {\n\t\treturn " + c + ", 1, 2;\n\t});\n\tlet a, let b, let d = f();\n\treturn a + b;\n";
	case 30: return mt("__lt", "y, z", "true") + "\tlet q = o < o;\n\treturn r + 1;\n";
	case 31: return "\tlet s = hobj(0);\n\treturn [s, " + c + "][1] + 1;\n";
	case 32: *slots += 8; return "\tlet s = 'a' ~ ('b' ~ ('c' ~ " + c + "));\n\thcheck(s, n);\n\treturn n;\n";
	case 33: case 34: case 35: case 36: case 37: {        // library functions, one of which finds the stack full
		static const char *LIB[5][14] = {
			{"'a,b'->split(',')", "'ab'->toupper()", "'ab'->search('b')", "'a-b'->replace('-', '+')", "' a '->trim(' ')", "'ab'->rep(3)", "'abc'[1:2]", "'12'->toint()", "'1.5'->tofloat()", "'ab'->startswith('a')", "'ab'->tobool()", "'ab' ~ 'cd' ~ n", "'ab'->ltrim('a')", "'aab'->count('a')"},
			{"[1, 2]->tostr()", "[2, 1]->copy()", "[1, [2, 3]]->tostr()", "[1] + [2]", "[3, 1, 2]->sort()", "[1, 2]->join('-')", "[1, 2]->reverse()", "[1]->push(2)", "[1, 2]->pop()", "[1, 2][0:1]", "[1]->insert(0, 5)", "[1, 2]->search(2)", "[1, 2]->spread()", "[1, 2] == [1, 2]"},
			{"{'a': 1}->tostr()", "{'a': 1}->keys()", "{'a': 1}->values()", "{'a': 1}->copy()", "{'a': 1}->remove('a')", "{'a': 1}->clear()", "{'a': [1]}->tostr()", "{'a': 1} == {'a': 1}", "{'a': 1}['a']", "len {'a': 1}", "{1: 2, 3: 4}", "collections.table('a', 1)", "{'a': 'b'}->tostr()", "{}->tostr()"},
			{"collections.set(1, 2)->tostr()", "collections.set([1, 2])", "collections.set(1)->tolist()", "collections.set(1, 2)->copy()", "collections.set(1) | collections.set(2)", "collections.set(1)->add(2)", "collections.set('a')['a']", "collections.set()->tostr()", "collections.list(1, 2)", "len collections.set(4)", "collections.set(1)->remove(1)", "collections.set(1) & collections.set(1)", "collections.set(1) ^ collections.set(3)", "collections.set(1)->clear()"},
			{"1->tostr()", "1.5->tostr()", "true->tostr()", "undef->tostr()", "\"a#{n}b#{1.5}#{true}\"", "math.max(1, 2, 3)", "math.gcd(4, 6)", "mt.get([])", "mt.set({}, {})", "io.open('/none', 'r')", "\"#{f0}\"", "math.sqrt(4)", "1.25->toint()", "hobj(0)"}};
		std::string o;
		for (int64_t i = 0, m = arg % 5 + 1; i < m; i++) o += std::string("\tlet u") + num(i) + " = " + LIB[kind - 33][(arg / 5 + i * 3) % 14] + ";\n";
		*slots += 10;
		return o + "\treturn 1 + " + c + ";\n"; }
	}
	return "\treturn 1 + " + c + ";\n";
}
}
static int hf_big(YASL_State *S) { Actor &a = host_enter(S, "hbig"); (void)a; int64_t n = YASL_peekvargscount(S); YASL_pushint(S, n); return 1; }
static int hf_check(YASL_State *S) {
	Actor &a = host_enter(S, "hcheck");
	int64_t n = YASL_popint(S); std::string s = top_bytes(S), w1 = "a" + num(n) + "b" + num(n - 1) + "c", w2 = "abc" + num(n - 1);
	if (s != w1 && s != w2) violation("string", "built %s, want %s or %s", s.c_str(), w1.c_str(), w2.c_str());
	(void)a; YASL_pushundef(S); return 1;
}
static int hf_many(YASL_State *S) { host_enter(S, "hmany"); int64_t n = YASL_popint(S); for (int64_t i = 0; i < n; i++) { if (i % 3 == 2) YASL_pushlit(S, "many"); else YASL_pushint(S, i); } return (int)n; }
static int hf_fill(YASL_State *S) { host_enter(S, "hfill"); int64_t n = YASL_popint(S); for (int64_t i = 0; i < n; i++) { if (i % 5 == 1) YASL_pushlist(S); else if (i % 5 == 2) YASL_pushtable(S); else YASL_pushlit(S, "fill"); } for (int64_t i = 0; i < n; i++) YASL_pop(S); YASL_pushundef(S); return 1; }

N gen_C12(Rng &r, int tier) {
	std::vector<N> k{A("plan")};
	if (r.chance(20)) {       // one statement that is large by itself
		int64_t st = r.range(0, 15); k.push_back(L("static", I(st)));
		int64_t n = r.chance(50) ? r.range(1, 60) : r.chance(50) ? (st > 11 && r.chance(70) ? r.range(994, 1004) : r.range(900, 1100)) : r.range(1, 1600);
		k.push_back(L("n", I(n)));
		k.push_back(L("pad", I(r.chance(50) ? 0 : r.range(0, 120))));
	} else {
		std::vector<N> ks{A("kinds")};
		for (int i = (int)r.range(1, 3); i > 0; i--) ks.push_back(I(r.range(0, NKIND - 1)));
		k.push_back(L(ks));
		bool inf = r.chance(60);
		bool small = r.chance(30);
		int64_t lo = small ? 1 : 20, hi = small ? 8 : 400;
		k.push_back(L("depth", I(inf ? -1 : r.range(lo, hi))));
		k.push_back(L("pad", I(r.chance(40) ? r.range(0, 3) : r.range(0, 90))));
		k.push_back(L("arg", I(r.chance(60) ? r.range(0, 8) : r.chance(50) ? r.range(0, 80) : r.range(0, 1200))));
		k.push_back(L("top", I(r.chance(60) ? 0 : r.range(0, 200))));
		k.push_back(L("every", I(r.range(1, 12))));
		if (r.chance(25)) { k.push_back(L("abort-at", I(r.chance(60) ? r.range(1, 12) : r.range(1, 400)))); k.push_back(L("abort-status", I(r.range(2, 10)))); k.push_back(L("abort-print", I(r.range(0, 1)))); }
	}
	gen_knobs(r, k);
	(void)tier;
	return L(k);
}
static std::string statics(int64_t kind, int64_t n, int *slots, std::string *want) {
	std::string o; *slots = (int)n + 30;
	auto seq = [&](int64_t m) { std::string s; for (int64_t i = 0; i < m; i++) { if (i) s += ", "; s += num(i % 100); } return s; };
	switch (kind) {
	case 0: { int64_t m = std::min<int64_t>(n, 60); for (int64_t i = 0; i < m; i++) o += "for x" + num(i) + " <- [" + num(i) + "] {\n"; o += "hemit(x0);\n"; for (int64_t i = 0; i < m; i++) o += "};\n"; *want = "0"; *slots = 2 * (int)m + 30; return o; }
	case 1: *want = num(n); return "hemit(len [" + seq(n) + "]);\n";
	case 2: *want = num(n + 1); return "hemit(hbig(" + seq(n) + (n ? ", " : "") + "1));\n";
	case 3: { std::string s; for (int64_t i = 0; i < n; i++) s += (i ? ", " : "") + num(i) + ": 1"; *want = num(n); *slots = 2 * (int)n + 30; return "hemit(len {" + s + "});\n"; }
	case 4: { int64_t m = std::min<int64_t>(n, 120); *want = "7"; *slots = 40; return "hemit(" + std::string((size_t)m, '(') + "7" + std::string((size_t)m, ')') + ");\n"; }
	case 5: { int64_t m = std::min<int64_t>(n, 1100); *want = m > 1 ? "1" : "0"; if (m < 1) m = 1; *slots = 2 * (int)m + 30; return "hemit(len " + std::string((size_t)m, '[') + std::string((size_t)m, ']') + ");\n"; }
	case 6: { std::string s = "1"; int64_t m = std::min<int64_t>(n, 600); for (int64_t i = 1; i < m; i++) s = "(1 + " + s + ")"; *want = num(m); return "hemit(" + s + ");\n"; }
	case 7: { int64_t m = std::max<int64_t>(1, std::min<int64_t>(n, 300)); std::string s, d; for (int64_t i = 0; i < m; i++) { o += "let y" + num(i) + " = " + num(i) + ";\n"; } *want = num(m - 1); return "fn q() {\n" + o + "return y" + num(m - 1) + ";\n};\nhemit(q());\n"; }
	case 8: *want = num(n % 100 ? (n - 1) % 100 : 99); if (n == 0) *want = "undef"; return "fn q(a) {\nreturn a;\n};\nlet l = [" + seq(n) + "];\nl->reverse();\nhemit(q(l->spread()));\n";
	case 9: { int64_t m = n; *want = "1"; *slots = 40; o = "let l = [];\nlet i = 0;\nwhile i < " + num(m) + " {\nl = [l];\ni += 1;\n};\nhemit(len l);\n"; if (m == 0) *want = "0"; return o; }
	case 10: { *want = "true"; o = "let l = [];\nlet m = [];\nlet i = 0;\nwhile i < " + num(n) + " {\nl = [l];\nm = [m];\ni += 1;\n};\nhemit(l == m);\n"; *slots = 12 * (int)n + 40; return o; }
	case 12: case 13: case 14: {   // the leanest calls there are: as many frames as slots
		*want = num(n); *slots = (int)n + 30;
		static const char *F[3][3] = {{"return f0();", "f0();\nreturn f8;", "return f0() + 0;"}, {"hemit(f8);\nreturn f0();", "if true {\nreturn f0();\n};\nreturn 0;", "return (fn() {\nf8 += 0;\nreturn f0();\n})();"}, {"return f1();", "return f1(1);", "f1();\nreturn f8;"}};
		if (kind == 13 && n % 3 == 0) *want = "*";
		if (kind > 12) *slots = 2 * (int)n + 40;
		return "f8 = 0;\nf0 = (fn() {\nf8 += 1;\nif f8 >= " + num(n) + " {\nreturn f8;\n};\n" + std::string(F[kind - 12][n % 3]) + "\n});\nf1 = (fn() {\nreturn f0();\n});\nhemit(f0());\n"; }
	case 15: { *want = num(n); *slots = 2 * (int)n + 40; return "f8 = 0;\nf0 = mt.set({}, {'go': (fn(z) {\nf8 += 1;\nif f8 >= " + num(n) + " {\nreturn f8;\n};\nreturn z->go();\n})});\nhemit(f0->go());\n"; }
	default: { *want = num(2 * n + 2); o = "let l = [];\nlet i = 0;\nwhile i < " + num(n) + " {\nl = [l];\ni += 1;\n};\nhemit(len l->tostr());\n"; *slots = 3 * (int)n + 40; return o; }
	}
}
void run_C12(const N &plan) {
	Actor a;
	std::string src, want; int slots = 0, loops = 0; bool must_fail = false, may_fail = false;
	int64_t pad = getnum(plan, "pad", 0), depth = getnum(plan, "depth", 5), every = std::max<int64_t>(1, getnum(plan, "every", 1));
	std::vector<std::string> exp;
	if (find(plan, "static")) {
		for (int64_t i = 0; i < pad; i++) src += "let p" + num(i) + " = " + num(i) + ";\n";
		src += statics(getnum(plan, "static", 0), getnum(plan, "n", 1), &slots, &want);
		if (want == "*") { for (int64_t i = 1; i < std::max<int64_t>(getnum(plan, "n", 1), 1); i++) exp.push_back("emit " + num(i)); want = num(getnum(plan, "n", 1)); }
		if (getnum(plan, "static", 0) >= 12 && want == "0") want = "1";
		exp.push_back("emit " + want);
		may_fail = slots + pad > 900;
		if (getnum(plan, "static", 0) == 0 && getnum(plan, "n", 1) > 12) may_fail = true;
		if (getnum(plan, "static", 0) == 7) may_fail = getnum(plan, "n", 1) >= 250;
	} else {
		N ks = find(plan, "kinds");
		size_t m = ks ? ks->size() - 1 : 0;
		if (!m || m > 8) discard("kinds");
		int64_t arg = getnum(plan, "arg", 0);
		for (int64_t i = 0; i < getnum(plan, "top", 0); i++) src += "let p" + num(i) + " = " + num(i) + ";\n";
		int maxs = 0, maxl = 0;
		for (size_t i = 0; i < m; i++) {
			int s, l; std::string g = "f" + num((int64_t)((i + 1) % m));
			std::string body = via(ks->k[i + 1]->num(), g, arg, &l, &s);
			maxs = std::max(maxs, s); maxl = std::max(maxl, l);
			src += "f" + num((int64_t)i) + " = (fn(n) {\n";
			for (int64_t j = 0; j < pad; j++) src += "\tlet q" + num(j) + " = " + num(j) + ";\n";
			src += "\tif (n % " + num(every) + ") == 0 {\n\t\themit(n);\n\t};\n\tif n == 0 {\n\t\treturn 0;\n\t};\n" + body + "});\n";
		}
		src += "hemit(['res', f0(" + num(depth) + ")]);\n";
		slots = maxs + (int)pad; 
		must_fail = depth < 0;
		may_fail = must_fail || slots * (depth + 1) + getnum(plan, "top", 0) > 900 || depth > 90 || maxl * (depth + 1) > 12;
		for (int64_t d = depth, n = 0; n < 3000 && (must_fail || d >= 0); d--, n++) if (d % every == 0) exp.push_back("emit " + num(d));
		if (!must_fail) exp.push_back("emit ['res'," + num(depth) + "]");
	}
	logs(src);
	int64_t ab = getnum(plan, "abort-at", -1);
	a.abort_at = ab; a.abort_status = (int)getnum(plan, "abort-status", 2); a.abort_print = getnum(plan, "abort-print", 0);
	set_step_budget(60000000);
	a.open_buf(src);
	a.libs();
	a.def("hbig", hf_big, -1); a.def("hmany", hf_many, 1); a.def("hfill", hf_fill, 1); a.def("hcheck", hf_check, 2);
	for (auto f : {"f0", "f1", "f2", "f3", "f4", "f5", "f6", "f7", "f8"}) a.decl(f);
	a.set("g0", V::St("kept"));
	a.run();
	logf_("status %d %s", a.status, a.errtext().substr(0, 60).c_str());
	bool aborted = !a.trace.empty() && a.trace.back().compare(0, 6, "abort ") == 0;
	std::vector<std::string> got;
	for (auto &e : a.trace) if (e.compare(0, 5, "emit ") == 0) got.push_back(e);
	if (a.status == 0) {
		if (must_fail) violation("no-overflow", "a program that never stops recursing ended with status 0");
		if (aborted) violation("status", "the host aborted the program but the run returned 0");
		if (got != exp) compare_traces("completed program", exp, got);
	} else {
		for (size_t i = 0; i < got.size(); i++) if (i >= exp.size() || got[i] != exp[i]) violation("trace", "event %zu: want %s, got %s", i, i < exp.size() ? exp[i].c_str() : "(none)", got[i].c_str());
		if (aborted) { if (a.status != a.abort_status) violation("status", "aborted with status %d, got %d", a.abort_status, a.status); probe("abort_at_depth"); }
		else {
			if (!may_fail) violation("false-limit", "a program far below every limit failed with status %d: %s", a.status, a.errtext().c_str());
			bool syn = find(plan, "static") && a.status == YASL_SYNTAX_ERROR;
			if (syn && getnum(plan, "static", 0) != 7) violation("status", "rejected as a syntax error: %s", a.errtext().c_str());
			if (!syn && a.status != YASL_STACK_OVERFLOW_ERROR) violation("status", "want a stack overflow (11), got status %d: %s", a.status, a.errtext().c_str());
			if (a.errtext().empty()) violation("silent", "the overflow was not reported");
			fired(F_STACK);
		}
	}
	// the state is still good for the host
	std::string d;
	if (!a.get("g0", d) || d != "'kept'") violation("global", "g0: want 'kept', got %s", d.c_str());
	if (a.capture() != "") violation("output", "output out of nowhere");
	a.close();
	a.check_objs("after the state was deleted");
	check_no_leak("after the state was deleted", false);
	sh->nontrivial = sh->loghash | 1;
	finish_ok();
}
