// C07: one program, every way its source can be delivered.  C08: source that is damaged or cannot be read.
#include "engine.h"
extern "C" int yasl_main(int argc, char **argv);
extern "C" int sim_fflush(FILE *);
// ---- the same program, written differently: only lexical choices that the language says do not matter ----
struct Style { Rng r; int semi, sp, nl, cm, num, str, hi; };
static const char *COMMENTS[] = {"# c\n", "#\n", "# '\"`#{ /* \n", "# \xff\xfe\x80 \xc3\xa9\n", "#// \\\n"};
static const char *BCOMMENTS[] = {"/**/", "/* c */", "/***/", "/* ' \" ` # */", "/*/*/", "/* \xff\x80 */", "/* * / */"};
static std::string restyle_str(const std::string &t, Style &s) {
	// t: '...' with \' \\ \n \xHH escapes
	std::string v; bool nul = false, ctl = false;
	for (size_t i = 1; i + 1 < t.size(); i++) {
		if (t[i] != '\\') { v += t[i]; continue; }
		i++;
		if (t[i] == 'n') v += '\n'; else if (t[i] == 'x') { v += (char)strtol(t.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; } else v += t[i];
	}
	for (char c : v) { nul |= c == 0; ctl |= c == '\r'; }
	if (s.r.chance(s.str) && !nul && v.find('`') == std::string::npos && !ctl) return "`" + v + "`";
	bool dq = s.r.chance(s.str);
	std::string o(1, dq ? '"' : '\'');
	for (unsigned char c : v) {
		char b[8];
		if (c == (dq ? '"' : '\'') || c == '\\' || (dq && c == '#')) { o += '\\'; o += (char)c; }
		else if (c == '\n') o += "\\n";
		else if (c == '\t' && s.r.chance(s.str)) o += "\\t";
		else if (c == 0 && s.r.chance(50)) o += "\\0";
		else if (c < 32 || (c >= 127 && !s.r.chance(s.hi))) { snprintf(b, 8, s.r.chance(50) ? "\\x%02x" : "\\x%02X", c); o += b; }
		else o += (char)c;
	}
	return o + (dq ? "\"" : "'");
}
static std::string restyle(const std::string &t, uint64_t seed) {
	if (!seed) return t;
	Style s{Rng(seed), 0, 0, 0, 0, 0, 0, 0};
	auto sw = [&](int hi) { return s.r.chance(50) ? 0 : (int)s.r.range(5, hi); };
	s.semi = sw(100); s.sp = sw(60); s.nl = sw(50); s.cm = sw(40); s.num = sw(80); s.str = sw(60); s.hi = sw(100);
	std::string o, last;   // last: token before
	auto isid = [](char c) { return isalnum((unsigned char)c) || c == '_' || c == '$'; };
	for (size_t i = 0; i < t.size();) {
		char c = t[i];
		if (c == '\'') {
			size_t j = i + 1; while (t[j] != '\'') { if (t[j] == '\\') j++; j++; }
			o += restyle_str(t.substr(i, j - i + 1), s); i = j + 1; last = "'";
		} else if (c == '"') {
			size_t j = i + 1;
			for (; t[j] != '"'; j++) {
				if (t[j] == '\\') j++;
				else if (t[j] == '#' && t[j + 1] == '{') { int d = 1; for (j += 2; d; j++) { if (t[j] == '\'') { for (j++; t[j] != '\''; j++) if (t[j] == '\\') j++; } else if (t[j] == '{') d++; else if (t[j] == '}') d--; } j--; }
			}
			o += t.substr(i, j - i + 1); i = j + 1; last = "'";
		} else if (c == '`') {
			size_t j = t.find('`', i + 1); o += t.substr(i, j - i + 1); i = j + 1; last = "'";
		} else if (isdigit((unsigned char)c)) {
			size_t j = i; while (j < t.size() && (isid(t[j]) || (t[j] == '.' && j + 1 < t.size() && isdigit((unsigned char)t[j + 1])) || ((t[j] == '+' || t[j] == '-') && (t[j - 1] == 'e' || t[j - 1] == 'E')))) j++;
			std::string n = t.substr(i, j - i); i = j;
			bool isint = true; for (char q : n) isint &= isdigit((unsigned char)q) != 0;
			if (isint && n.size() < 18 && s.r.chance(s.num)) {
				int64_t v = strtoll(n.c_str(), nullptr, 10); char b[80];
				switch (s.r.range(0, 3)) {
				case 0: snprintf(b, sizeof b, s.r.chance(50) ? "0x%llx" : "0X%llX", (long long)v); n = b; break;
				case 1: n.clear(); do { n.insert(n.begin(), (char)('0' + (v & 1))); v >>= 1; } while (v); n = "0b" + n; break;
				case 2: if (n.size() > 1) n.insert((size_t)s.r.range(1, (int64_t)n.size() - 1), s.r.chance(80) ? "_" : "__"); break;
				default: n += "_"; break;
				}
				if (n[0] == '0' && (n[1] == 'b' || n[1] == 'x' || n[1] == 'X') && n.size() > 3 && s.r.chance(30)) n.insert((size_t)s.r.range(2, (int64_t)n.size() - 1), "_");
			}
			o += n; last = "0";
		} else if (isalpha((unsigned char)c) || c == '_' || c == '$') {
			size_t j = i; while (j < t.size() && isid(t[j])) j++;
			last = t.substr(i, j - i); o += last; i = j;
		} else if (c == ' ' || c == '\t') {
			o += s.r.chance(s.sp) ? (s.r.chance(50) ? "\t" : "  ") : " ";
			if (s.r.chance(s.cm / 2)) { o += BCOMMENTS[s.r.next() % 7]; o += " "; }
			i++;
			while (t[i] == '\t') { if (!s.r.chance(s.sp)) o += '\t'; i++; }
		} else if (c == ';' && i + 1 < t.size() && t[i + 1] == '\n') {
			bool keep = last == "return" || !s.r.chance(s.semi);
			if (keep) o += ";";
			i++; last = keep ? ";" : "nl";
		} else if (c == '\n') {
			static const char *NLC[] = {"/* two\nlines */", "/*\n*/", "/* a\n\n\nb */ ", "/**\n**/", " /* c */ /*\n */"};
			if (s.r.chance(s.cm)) { if (s.r.chance(50)) o += " "; if (s.r.chance(35)) o += NLC[s.r.next() % 5]; else o += COMMENTS[s.r.next() % 5]; } else o += "\n";
			while (s.r.chance(s.nl)) o += s.r.chance(30) ? "\t \n" : "\n";
			if (s.r.chance(s.cm / 2)) { o += s.r.chance(50) ? "/* two\nlines */\n" : BCOMMENTS[s.r.next() % 7]; }
			i++; last = "\n";
		} else {
			o += c; i++; last = std::string(1, c);
			if ((c == ',' || c == '(' || c == '[') && s.r.chance(s.nl / 3)) o += s.r.chance(30) ? " # c\n" : "\n";
		}
	}
	switch (s.r.range(0, 5)) { case 0: while (!o.empty() && o.back() == '\n') o.pop_back(); if (o.empty() || o.back() != ';') o += '\n'; break; case 1: o += "# end"; break; case 2: o += "\t"; break; case 3: o += "/* end */"; break; default: break; }
	return o;
}
struct Result { int status = 0; std::string out, err; std::vector<std::string> trace; bool opened = true; };
enum { R_FILE, R_BB, R_RESET, R_RESET_BB, R_RECOMPILE, R_MAIN, R_EVAL, R_EVAL_REPL, R_MODULE, R_MODULE_EMBED, R_COMPILE, R_N };
static const char *RNAME[] = {"file", "buffer", "YASL_resetstate", "YASL_resetstate_bb", "reset after rejected source", "yasl FILE", "yasl -E", "yasl -e", "module of yasl FILE", "module of an embedded program", "yasl -C"};
static bool is_main(int r) { return r >= R_MAIN && r <= R_MODULE; }
static const char *EXPORT = "\nexport 0;\n";
static char *heapdup(const std::string &s) { char *p = (char *)malloc(s.size() + 1); memcpy(p, s.data(), s.size()); p[s.size()] = 0; return p; }
// an actor with its source, ready to run
struct Delivered { Actor a; char *buf = nullptr; bool opened = true; };
static void deliver(Delivered &d, int route, const std::string &text) {
	auto keep = [&] { d.buf = (char *)malloc(text.size() + 1); memcpy(d.buf, text.data(), text.size()); };
	auto scrap = [&] { if (d.buf) { memset(d.buf, '}', text.size()); free(d.buf); d.buf = nullptr; } };
	switch (route) {
	case R_FILE: w.disk["src.yasl"].data = text; d.opened = d.a.open_file("src.yasl"); if (d.opened) d.a.libs(); break;
	case R_BB: keep(); d.a.S = nullptr; d.a.open_buf(std::string(d.buf, text.size())); scrap(); d.a.libs(); break;
	case R_RESET: w.disk["src.yasl"].data = text; d.a.open_buf(""); d.a.libs(); d.opened = YASL_resetstate(d.a.S, "src.yasl") == YASL_SUCCESS; break;
	case R_RESET_BB: keep(); d.a.open_buf("echo 1;"); d.a.libs(); YASL_resetstate_bb(d.a.S, d.buf, text.size()); scrap(); break;
	case R_RECOMPILE: {
		static const char *junk[] = {"fn f9(", "if true { let z9 = 'a", "nosuchname = 1;", "let l9 = [1, 2", "\"#{1", "match 1 { 1 {"};
		std::string j = junk[text.size() % 6];
		keep(); d.a.open_buf(j); d.a.libs(); YASL_compile(d.a.S); YASL_resetstate_bb(d.a.S, d.buf, text.size()); scrap();
		break;
	}
	default: harness_error("route");
	}
}
static Result run_route(int route, const std::string &text, const N &holder, bool host, std::function<void(const char *)> phase = nullptr) {
	Result x;
	if (!is_main(route) && route != R_MODULE_EMBED && route != R_COMPILE) {
		Delivered d; d.a.log = false;
		d.a.hvals = fresh_hvals(); if (host) { d.a.abort_at = getnum(holder, "abort-at", -1); d.a.abort_status = (int)getnum(holder, "abort-status", 2); }
		deliver(d, route, text);
		x.opened = d.opened;
		if (!d.opened) { x.status = -1; if (d.a.S) d.a.close(); return x; }
		x.status = d.a.run();
		x.trace = d.a.trace; x.err = d.a.errtext(); x.out = d.a.capture();
		if (route == R_RECOMPILE) { size_t n = x.err.find('\n'); (void)n; }
		d.a.close();
		return x;
	}
	if (route == R_MODULE_EMBED) {
		w.disk["./src.yasl"].data = text + EXPORT;
		Actor a; a.log = false;
		a.open_buf("require('src');\necho 'after';");
		a.libs();
		x.status = a.run(); x.err = a.errtext(); x.out = a.capture();
		a.close();
		return x;
	}
	w.sout.clear(); w.serr.clear();
	std::vector<char *> av{heapdup("yasl")};
	if (route == R_MAIN) { w.disk["src.yasl"].data = text; av.push_back(heapdup("src.yasl")); }
	else if (route == R_EVAL) { av.push_back(heapdup("-E")); av.push_back(heapdup(text)); }
	else if (route == R_EVAL_REPL) { av.push_back(heapdup("-e")); av.push_back(heapdup(text)); }
	else if (route == R_COMPILE) { w.disk["src.yasl"].data = text; av.push_back(heapdup("-C")); av.push_back(heapdup("src.yasl")); }
	else { w.disk["./src.yasl"].data = text + EXPORT; w.disk["imp.yasl"].data = "require('src');\necho 'after';"; av.push_back(heapdup("imp.yasl")); }
	int ac = (int)av.size();
	av.push_back(nullptr);
	x.status = yasl_main(ac, av.data());
	for (char *p : av) free(p);
	sim_fflush(nullptr);
	x.out = w.sout; x.err = w.serr;
	return x;
}
// addresses, which mean nothing
static std::string strip_ptr(const std::string &s) {
	std::string o;
	auto hex = [](char c) { return isxdigit((unsigned char)c) != 0; };
	for (size_t i = 0; i < s.size(); i++) {
		if (s[i] == '0' && i + 1 < s.size() && s[i + 1] == 'x') { o += "0x#"; for (i += 2; i < s.size() && hex(s[i]); i++) ; i--; }
		else if (s.compare(i, 5, "<fn: ") == 0) { o += "<fn: #"; for (i += 5; i < s.size() && isdigit((unsigned char)s[i]); i++) ; i--; }
		else o += s[i];
	}
	return o;
}
// ---------------- C07 ----------------
N gen_C07(Rng &r, int tier) {
	std::vector<N> k{A("plan")};
	gen_knobs(r, k);
	bool host = r.chance(45);
	GenCfg c = swarm(r, tier);
	c.host = host; c.objs = c.objs && host; c.hcall = c.hcall && host; c.globals = host;
	Model m;
	N p = gen_prog(r, c, 8, &m);
	if (!host) { bool h = show(p).find("(h ") != std::string::npos; if (h) p = L("prog", L("echo", L("i", I(1)))); }
	std::vector<N> ins;
	static const std::vector<std::string> odd{std::string("\xff\x80\xc3\xa9"), std::string("\xff"), std::string("a\0b", 3), "tab\there", "`", "#{x}", "\"q\"", "'", "\\", "//", "/* no */", "# no", "\r", std::string(300, 'x')};
	for (int i = (int)r.range(0, 3); i > 0; i--) ins.push_back(host ? X_(H_("hemit", {S(r.pick(odd))})) : L("echo", S(r.pick(odd))));
	p = insert_stmts(r, p, ins);
	if (p->k.back()->is("x")) p->k.push_back(L("echo", L("i", I(0))));
	k.push_back(p);
	if (!host) k.push_back(L("nohost"));
	if (r.chance(85)) k.push_back(L("style", I((int64_t)(r.next() >> 20) + 1)));
	std::vector<N> rt{A("routes")};
	int n = (int)r.range(2, 4);
	for (int i = 0; i < n; i++) rt.push_back(I(host ? r.range(R_FILE, R_RECOMPILE) : r.range(0, R_N - 1)));
	k.push_back(L(rt));
	if (host) gen_aborts(r, k, m.hostcalls, 20);
	if (r.chance(80)) { std::vector<N> ch{A("chunks")}; int q = (int)r.range(1, 5), mx = r.chance(50) ? 4 : 60; for (int i = 0; i < q; i++) ch.push_back(I(r.range(1, mx))); k.push_back(L(ch)); }
	if (r.chance(70)) k.push_back(L("bufsize", I(r.pick(std::vector<int64_t>{0, 1, 2, 3, 7, 16, 64, 300, 4096}))));
	if (r.chance(20)) k.push_back(L("version"));
	if (r.chance(2)) k.push_back(L("pad", I(r.chance(50) ? r.range(32700, 33000) : r.range(65400, 66000)), I(r.range(0, 2))));     // long source
	return L(k);
}
void run_C07(const N &plan) {
	N p = find(plan, "prog"), rt = find(plan, "routes");
	if (!p || !rt) discard("no program");
	bool host = !find(plan, "nohost");
	Case c;
	if (!c.prepare(plan, p)) discard("model");
	bool ver = (bool)find(plan, "version");
	std::string text = restyle((ver ? "echo __VERSION__;\n" : "") + c.src, (uint64_t)getnum(plan, "style", 0));
	if (N pad = find(plan, "pad")) {
		size_t n = (size_t)llabs(pad->k[1]->num()) % 200000; int how = pad->size() > 2 ? (int)pad->k[2]->num() : 0;
		std::string fill; while (fill.size() < n) fill += how == 1 ? "# padding                                                      \n" : "padding                                                      \n";
		text = how == 0 ? "/* " + fill + "*/\n" + text : how == 1 ? fill + text : "if len `" + fill + "` == 0 { echo 'short'; };\n" + text;
		probe("source longer than 32 KiB");
	}
	std::string wout = (ver ? std::string(YASL_VERSION) + "\n" : "") + c.m.out;
	bool nul = text.find('\0') != std::string::npos;
	logs(text);
	std::string err0; bool have = false;
	for (size_t i = 1; i < rt->size(); i++) {
		int route = (int)(llabs(rt->k[i]->num()) % R_N);
		if (!host && !is_main(route) && route < R_MAIN && route != R_MODULE_EMBED) { /* fine: host functions are just not used */ }
		if (host && route > R_RECOMPILE) continue;
		if (nul && (route == R_EVAL || route == R_EVAL_REPL)) continue;
		set_step_budget(60000000);
		logf_("delivered as %s", RNAME[route]);
		w.on_exit = [&](int code) { violation("exit", "%s: the process was ended with exit(%d)", RNAME[route], code); };
		Result x = run_route(route, text, plan, host);
		logf_("status %d", x.status); logs(x.out); logs(x.err);
		bool mod = route == R_MODULE || route == R_MODULE_EMBED;
		int ws = mod && c.m.status ? 2 : c.m.status;
		std::string wo = wout;
		if (mod && !c.m.status) wo += "after\n";
		if (route == R_COMPILE) { ws = 0; wo = ""; }
		if (x.status != ws) violation("status", "%s: want status %d, got %d: %s", RNAME[route], ws, x.status, esc_dump(x.err).substr(0, 400).c_str());
		if (x.out != wo) violation("output", "%s: %s", RNAME[route], first_diff(wo, x.out).c_str());
		if (host) compare_traces(RNAME[route], c.m.trace, x.trace);
		if (!ws && !x.err.empty()) violation("spurious-error", "%s: nothing failed, but an error was reported: %s", RNAME[route], esc_dump(x.err).substr(0, 300).c_str());
		if (ws && x.err.empty() && !host) violation("unreported", "%s: the program failed with %d, but nothing was reported", RNAME[route], ws);
		// where the error is must not depend on the route either
		if (ws && !mod && route != R_COMPILE && route != R_RECOMPILE) {
			std::string e = strip_ptr(x.err);
			if (have && e != err0) violation("message", "%s: reported %s, but %s by another route", RNAME[route], esc_dump(e).c_str(), esc_dump(err0).c_str());
			err0 = e; have = true;
		}
		check_no_leak(RNAME[route], c.m.cyclic);
		if (c.m.cyclic) alloc_mark();
		probe(RNAME[route]);
	}
	sh->nontrivial = sh->loghash | 1;
	finish_ok();
}
// ---------------- C08 ----------------
// (damage (cut n) (tail n text) (flip pos byte) (ins pos byte) (del pos len) (dup pos len times) (move pos len to) (zero pos len)), positions taken modulo the length
static std::string damage(std::string t, const N &d, bool count) {
	if (!d) return t;
	for (size_t i = 1; i < d->size(); i++) {
		N x = d->k[i];
		if (!x->list || x->size() < 2 || t.empty()) continue;
		size_t p = (size_t)llabs(x->k[1]->num()) % t.size();
		if (x->is("tail") && x->size() < 3) continue;
		int64_t a = x->size() > 2 && !x->is("tail") ? llabs(x->k[2]->num()) : 1, b = x->size() > 3 ? llabs(x->k[3]->num()) : 1;
		size_t n = std::min((size_t)a, t.size() - p);
		if (x->is("tail")) { t.resize(p); t += x->k[2]->a; if (count) fired(F_SRC_TRUNC); }
		else if (x->is("cut")) { t.resize(p); if (count) fired(F_SRC_TRUNC); }
		else if (x->is("flip")) { t[p] = (char)a; if (count) fired(F_SRC_FLIP); }
		else if (x->is("ins")) { t.insert(p, 1, (char)a); if (count) fired(F_SRC_FLIP); }
		else if (x->is("del")) { t.erase(p, n); if (count) fired(F_SRC_DUP); }
		else if (x->is("dup")) { std::string s = t.substr(p, n), o; for (int64_t q = 0; q < b && q < 40; q++) o += s; t.insert(p, o); if (count) fired(F_SRC_DUP); }
		else if (x->is("move")) { std::string s = t.substr(p, n); t.erase(p, n); t.insert((size_t)b % (t.size() + 1), s); if (count) fired(F_SRC_DUP); }
		else if (x->is("zero")) { for (size_t q = 0; q < n; q++) t[p + q] = 0; if (count) fired(F_SRC_FLIP); }
	}
	return t;
}
// A cut inside a string, a block comment or an open bracket leaves something that no reading of the language accepts.
bool open_at_end(const std::string &t) {
	int depth = 0;
	for (size_t i = 0; i < t.size(); i++) {
		char c = t[i];
		if (c == '#') { while (i < t.size() && t[i] != '\n') i++; if (i >= t.size()) return depth > 0; }
		else if (c == '/' && i + 1 < t.size() && t[i + 1] == '*') { size_t e = t.find("*/", i + 2); if (e == std::string::npos) return true; i = e + 1; }
		else if (c == '`') { size_t e = t.find('`', i + 1); if (e == std::string::npos) return true; i = e; }
		else if (c == '\'') { for (i++; i < t.size() && t[i] != '\''; i++) if (t[i] == '\\') i++; if (i >= t.size()) return true; }
		else if (c == '"') {
			for (i++; i < t.size() && t[i] != '"'; i++) {
				if (t[i] == '\\') i++;
				else if (t[i] == '#' && i + 1 < t.size() && t[i + 1] == '{') {
					int d = 1;
					for (i += 2; i < t.size() && d; i++) { if (t[i] == '\'') { for (i++; i < t.size() && t[i] != '\''; i++) if (t[i] == '\\') i++; } else if (t[i] == '{') d++; else if (t[i] == '}') d--; }
					i--;
				}
			}
			if (i >= t.size()) return true;
		}
		else if (c == '(' || c == '[' || c == '{') depth++;
		else if (c == ')' || c == ']' || c == '}') depth--;
	}
	return depth > 0;
}
static N gen_damage(Rng &r, int tier) {
	std::vector<N> d{A("damage")};
	static const char hot[] = "()[]{};,.:?'\"`#\\/*+-=<>!&|^~%@$_ \n\t\r0123456789abefxXlnrEI\xff\x80\0";
	auto pos = [&] { return I(r.range(0, 20000)); };
	auto byte = [&] { return I(r.chance(80) ? (int64_t)(unsigned char)hot[r.next() % (sizeof hot - 1)] : r.range(0, 255)); };
	int n = r.chance(60) ? 1 : (int)r.range(1, tier ? 8 : 5);
	int kind = r.chance(50) ? (int)r.range(0, 6) : -1;
	if (r.chance(15)) {     // ends in the middle of something particular
		static const char *T[] = {"'", "'\\", "'\\q", "'a\\q b", "'\\x", "'\\x4", "'\\x4z", "\"", "\"\\", "\"\\q", "\"#", "\"#{", "\"#{1", "\"#{'", "\"#{\"", "\"a#{1}", "\"a#{1}\\x", "`", "`a\\", "/", "/*", "/* a *", "/*/", "#", "# a", "0", "0x", "0x_", "0b", "0b2", "1_", "1.", "1.5", "1.5e", "1.5e_", "1e", "1..", ".", "..", "...", "a.", "a->", "a->b(", "f(", "f(1", "f(1,", "[", "[1", "[1,", "[1:", "[x for", "[x for x", "[x for x <-", "[x for x <- [1]", "[x for x <- [1] if", "{", "{1", "{1:", "{1: 2,", "{x: 1 for x <- ", "fn", "fn f", "fn f(", "fn f(a", "fn f(a,", "fn f(const", "fn f() {", "fn f() { return", "fn f() { return 1,", "let", "let a", "let a =", "let a,", "let a, let", "let a, let b = 1", "const", "const fn", "const fn f", "if", "if true", "if true {", "if true { 1; }", "if true { } else", "if true { } elseif", "if true { } elseif true", "while", "while true", "while true {", "for", "for x", "for x <-", "for x <- [1]", "for let", "for let i = 0", "for let i = 0;", "for let i = 0; i < 1;", "for let i = 0; i < 1; i += 1", "match", "match 1", "match 1 {", "match 1 { 1", "match 1 { 1 |", "match 1 { [", "match 1 { [let", "match 1 { [1,", "match 1 { [...", "match 1 { [1, ...", "match 1 { {", "match 1 { {1", "match 1 { {1:", "match 1 { {1: int,", "match 1 { -", "match 1 { let a if", "match 1 { * {", "echo", "assert", "return", "export", "break", "continue", "1 +", "1 ?", "1 ? 2", "1 ? 2 :", "1 ??", "a +=", "a[1] =", "a[1] +=", "-", "!", "len", "not", "(", "(1", "(fn(", "@", "$", "\\"};
		d.push_back(L("tail", pos(), S(std::string(r.chance(50) ? "\n" : r.chance(50) ? " " : "") + T[r.next() % (sizeof T / sizeof *T)] + (r.chance(20) ? " " : ""))));
		return L(d);
	}
	for (int i = 0; i < n; i++) switch (kind >= 0 ? kind : r.range(0, 6)) {
	case 0: d.push_back(L("cut", pos())); break;
	case 1: d.push_back(L("flip", pos(), byte())); break;
	case 2: d.push_back(L("ins", pos(), byte())); break;
	case 3: d.push_back(L("del", pos(), I(r.range(1, r.chance(70) ? 8 : 512)))); break;
	case 4: d.push_back(L("dup", pos(), I(r.range(1, r.chance(70) ? 8 : 512)), I(r.chance(80) ? 1 : r.range(2, 12)))); break;
	case 5: d.push_back(L("move", pos(), I(r.range(1, 64)), pos())); break;
	default: d.push_back(L("zero", pos(), I(r.range(1, 16)))); break;
	}
	return L(d);
}
N gen_C08(Rng &r, int tier) {
	std::vector<N> k{A("plan")};
	gen_knobs(r, k);
	GenCfg c = swarm(r, tier);
	Model m;
	N p = gen_prog(r, c, 8, &m);
	// constructs the typed generator does not write, as text
	static const char *raws[] = {"match 3 { 1 { echo 'a'; }; 2 | 3 { echo 'b'; }; * { echo 'c'; }; };", "match [1, 2] { [let p9, let q9] { echo p9 + q9; }; };", "match {'k': 1} { {'k': const r9} { echo r9; }; };", "let t9 = {'a': [1, 2], 'b': fn(x) { return x; }}; echo t9.a[1];", "echo \"#{1 + 2} and #{'x'}\";", "let a9, let b9 = (fn() { return 1, 2; })();", "echo [x for x <- [1, 2, 3] if x > 1];", "echo {x: 1 for x <- [1, 2]};", "let s9 = 'abc'; echo s9[0] ~ s9[1:];", "echo 1 < 2 ? 'y' : 'n';", "echo undef ?? 3;", "for let i9 = 0; i9 < 3; i9 += 1 { if i9 == 1 { continue; }; echo i9; };", "while true { break; };", "fn v9(xs) { return len xs; }; echo 1.5e3;", "echo 0x1F + 0b101 + 1_000;", "let o9 = 5; o9 **= 2; o9 |= 1; o9 &^= 1; o9 <<= 2; o9 ??= 1;", "echo `raw\nline`;", "echo fn(x) { return fn(y) { return x + y; }; }(1)(2);", "if false { } elseif true { echo 'e'; } else { };", "echo 'a\\x41\\n\\0';", "echo (len [1]) - -1;", "assert true;", "echo 7 // 2 ** 2 % 5;", "match 1 { let z9 if z9 == 1 { echo z9; }; };", "match 'a' { bool { echo 1; }; int { echo 2; }; str { echo 3; }; };"};
	std::vector<N> ins;
	for (int i = (int)r.range(0, 3); i > 0; i--) ins.push_back(L("raw", S(std::string("if true { ") + raws[r.next() % (sizeof raws / sizeof *raws)] + " };")));
	bool rawp = !ins.empty();
	p = insert_stmts(r, p, ins);
	k.push_back(p);
	if (rawp) k.push_back(L("nomodel"));
	if (r.chance(50)) k.push_back(L("style", I((int64_t)(r.next() >> 20) + 1)));
	k.push_back(L("route", I(r.range(R_FILE, R_RECOMPILE))));
	bool dev = r.chance(30);
	if (!dev || r.chance(20)) k.push_back(gen_damage(r, tier));
	if (dev) {
		std::vector<N> fl{A("faults")};
		static const char *kinds[] = {"read-err", "read-err", "read-err", "seek-fail", "close-fail", "open-fail"};
		int64_t sticky = r.chance(50) ? -1 : 0;
		for (int i = (int)r.range(1, 2); i > 0; i--) fl.push_back(L(kinds[r.next() % 6], S("src.yasl"), I(r.range(1, r.chance(50) ? 4 : 40)), I(0), I(sticky)));
		k.push_back(L(fl));
		k.push_back(L("route", I(r.chance(50) ? R_FILE : R_RESET)));
		std::swap(k[k.size() - 1], k[k.size() - 3]); // the first (route ..) found counts
	}
	if (r.chance(dev ? 90 : 40)) { std::vector<N> ch{A("chunks")}; int q = (int)r.range(1, 5), mx = r.chance(50) ? 8 : 120; for (int i = 0; i < q; i++) ch.push_back(I(r.range(1, mx))); k.push_back(L(ch)); }
	if (r.chance(70)) k.push_back(L("bufsize", I(r.pick(std::vector<int64_t>{0, 1, 7, 16, 64, 300}))));
	return L(k);
}
static size_t nest_depth(const std::string &t) { size_t d = 0, m = 0; for (char c : t) { if (strchr("([{", c) && c) d++; else if (strchr(")]}", c) && c && d) d--; if (d > m) m = d; } return m; }
void run_C08(const N &plan) {
	N p = find(plan, "prog");
	if (!p) discard("no program");
	N dm = find(plan, "damage");
	std::string whole = restyle(render(p), (uint64_t)getnum(plan, "style", 0));
	std::string text = damage(whole, dm, true);
	int route = (int)(llabs(getnum(plan, "route", 0)) % (R_RECOMPILE + 1));
	logf_("delivered as %s", RNAME[route]);
	logs(text);
	if (nest_depth(text) > 150) discard("nested deeper than judged");
	bool dev = (bool)find(plan, "faults");
	bool intact = text == whole;
	bool onlycut = dm && dm->size() > 1; if (onlycut) for (size_t i = 1; i < dm->size(); i++) onlycut &= dm->k[i]->is("cut");
	bool must_reject = onlycut && !intact && open_at_end(text);
	auto nfaults = [] { return sh->faults[F_READ_ERR] + sh->faults[F_SEEK_FAIL]; };
	// 1. bounded work, and no foreign memory, while it is compiled
	std::string errc; int sc;
	uint64_t f0 = nfaults(), re0 = sh->faults[F_READ_ERR], of0 = sh->faults[F_OPEN_FAIL];
	auto faults0 = w.faults; auto gc = w.disk;
	bool opened;
	{
		Delivered d; d.a.log = false; d.a.hvals = fresh_hvals();
		set_step_budget(3000000 + 20000 * text.size());
		deliver(d, route, text);
		opened = d.opened;
		if (!opened) { if (sh->faults[F_OPEN_FAIL] == of0) violation("open", "the source file could not be opened, but nothing failed"); if (d.a.S) d.a.close(); check_no_leak("failed open", false); probe("source could not be opened"); finish_ok(); }
		sc = YASL_compile(d.a.S);
		errc = d.a.errtext();
		if (!d.a.trace.empty()) violation("ran", "compiling called a host function: %s", d.a.trace[0].c_str());
		std::string o = d.a.capture();
		if (!o.empty()) violation("ran", "compiling printed %s", esc_dump(o).substr(0, 200).c_str());
		d.a.close();
		check_no_leak("compiled", false);
	}
	logf_("compile: %d", sc); logs(errc);
	if (sc && errc.empty()) violation("unreported", "the source was rejected with %d, but nothing was reported", sc);
	// A failed read that is repeated successfully loses nothing; one that keeps failing must be noticed.
	N fl = find(plan, "faults"); bool sticky = (bool)fl; if (fl) for (size_t i = 1; i < fl->size(); i++) sticky &= fl->k[i]->size() > 4 && fl->k[i]->k[4]->num() < 0;
	if (sh->faults[F_READ_ERR] > re0 && sticky && !sc) violation("read-error-ignored", "every read of the source failed from some point on, but the source was accepted");
	if (!sc && must_reject) violation("torn-accepted", "the source was cut inside a string, comment or bracket, but it was accepted");
	if (intact && sc && nfaults() == f0) violation("rejected", "intact source was rejected with %d: %s", sc, esc_dump(errc).substr(0, 300).c_str());
	probe(sc ? "damaged source rejected" : "damaged source accepted");
	// 2. run what was delivered
	auto run = [&](int rt, bool faulty, Result &x) {
		w.faults = faulty ? faults0 : std::vector<DevFault>();
		for (auto &f : w.disk) { f.second.nreads = f.second.nseeks = f.second.nopens = f.second.ncloses = 0; }
		w.mem_limit = 400 << 20;
		set_step_budget(3000000 + 20000 * text.size());
		Delivered d; d.a.log = false; d.a.hvals = fresh_hvals();
		w.on_limit = nullptr;
		deliver(d, rt, text);
		x.opened = d.opened;
		if (!d.opened) { if (d.a.S) d.a.close(); return; }
		// a damaged program may well run for ever; only a rejected one has to end
		if (!sc || nfaults()) { set_step_budget(20000000); w.on_limit = [](const char *) { probe("damaged program cut short"); sh->nontrivial = sh->loghash | 1; finish_ok(); }; }
		x.status = d.a.run();
		w.on_limit = nullptr; w.mem_limit = 0;
		set_step_budget(0);
		x.trace = d.a.trace; x.err = d.a.errtext(); x.out = d.a.capture();
		d.a.close();
	};
	Result x;
	uint64_t f1 = nfaults(), re1 = sh->faults[F_READ_ERR];
	run(route, true, x);
	bool hit = nfaults() != f1, rhit = sh->faults[F_READ_ERR] != re1;
	logf_("run: %d %s", x.status, hit ? "(device failed)" : ""); logs(x.out); logs(x.err);
	if (x.opened) {
		bool ran = !x.trace.empty() || !x.out.empty();
		if (rhit && sticky && (ran || x.status == 0)) violation("ran-partial", "reads of the source kept failing, but it ran: status %d, %s", x.status, esc_dump(x.out).substr(0, 200).c_str());
		if (rhit && x.status && x.err.empty() && !ran) violation("unreported", "a read of the source failed, but nothing was reported");
		if (sc && !hit && nfaults() == f0) {
			if (x.status != sc) violation("reject-status", "rejected with %d when compiled, but running gives %d", sc, x.status);
			if (ran) violation("ran-rejected", "rejected source ran: %s", (x.trace.empty() ? esc_dump(x.out) : x.trace[0]).substr(0, 200).c_str());
			if (x.err != errc) violation("message", "rejected with %s when compiled, but with %s when run", esc_dump(errc).substr(0, 300).c_str(), esc_dump(x.err).substr(0, 300).c_str());
		}
	}
	// 3. the same bytes another way, on a healthy device: the same outcome
	if (x.opened) {
		Result y;
		run(route == R_BB ? R_FILE : R_BB, false, y);
		if (hit) {
			// a device that failed may make the load fail, but nothing in between
			bool ran = !x.trace.empty() || !x.out.empty();
			if (x.status && !ran) { sh->nontrivial = sh->loghash | 1; probe("load failed"); finish_ok(); }
			compare_traces("after a device error", y.trace, x.trace);
			probe("load survived a device error");
		}
		if (x.status != y.status) violation("route-status", "status %d by one route, %d by another: %s / %s", x.status, y.status, esc_dump(x.err).substr(0, 200).c_str(), esc_dump(y.err).substr(0, 200).c_str());
		if (strip_ptr(x.out) != strip_ptr(y.out)) violation("route-output", "%s", first_diff(strip_ptr(x.out), strip_ptr(y.out)).c_str());
		if (route != R_RECOMPILE && strip_ptr(x.err) != strip_ptr(y.err)) violation("route-message", "%s", first_diff(strip_ptr(x.err), strip_ptr(y.err)).c_str());
	}
	sh->nontrivial = sh->loghash | 1;
	finish_ok();
}
