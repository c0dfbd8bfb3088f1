// C11: interactive sessions.  Mode A drives the real front end (main.c's loop on the simulated standard input), mode B the embedding
// calls a host's own loop would use (YASL_resetstate[_bb], YASL_execute[_REPL]) with host functions, aborts and stored functions.
#include "engine.h"
extern "C" int yasl_main(int argc, char **argv);
extern "C" int sim_fflush(FILE *);
static std::string oneline(const N &stmts) { std::string s = render(stmts), o; for (char c : s) o += c == '\n' || c == '\t' ? ' ' : c; while (!o.empty() && o.back() == ' ') o.pop_back(); return o; }
// text that makes a whole entry unacceptable, wherever it stands behind complete statements
static const char *BAD[] = {"nosuchname;", "nosuchname = 3;", "const kk9 = 1; kk9 = 2;", "let dd9 = 1; let dd9 = 2;", ")", "let = 3;", "if {", "if true {", "if true { echo 1;", "'unterminated", "\"also #{1", "fn (", "fn gg9(", "fn gg9() { return", "}", "@", "let ee9 = ;",
	"[1, 2", "{'a': ", "1 +", "(1", "while true { echo 1", "for zz9 <- [1] {", "for zz9 <- ", "match 1 { 1 {", "1 ? 2", "0x", "echo", "let hh9", "const ii9 = nosuchname;", "echo nosuchname", "if true { let jj9 = 1; jj9 = nosuchname; };", "fn ll9() { nosuchname; };", "let mm9 = fn() { nosuchname = 1; };",
	"\"#{nosuchname}\";", "[x9 for x9 <- nosuchname];", "break;", "continue;", "1 = 2;", "let nn9 = 1; nosuchname;", "a9->", "5 5", "export", "\\", "`", "let a..b = 1;", "match 1 { [let qq9] { nosuchname; } };",
	"while false { nosuchname; };", "if false { nosuchname; };", "if true { 1; } else { nosuchname; };", "true ? 1 : nosuchname;", "false && nosuchname;", "for let i9 = 0; false; nosuchname += 1 { 1; };", "let yield = 1;", "yield;", "echo pragma;", "global;", "enum = 1;", "fn struct() { 1; };", "while false { let a9 = 1; let a9 = 2; };", "if false { break; };", "undef ?? nosuchname;", "true || nosuchname;", "return 1, 2;", "fn b9() { export 1; };", "match 1 { yield { 1; }; };", "match 1 { 1 | let c9 { 1; }; };", "match 1 { let d9 | 1 { 1; }; };", "match 1 { let e9 | const e9 { 1; }; };", "match 1 { [let f9, let f9] { 1; }; };", "match 1 { nosuchtype { 1; }; };", "match 1 { -'a' { 1; }; };", "match 1 { \"#{1}\" { 1; }; };", "match 1 { {int: 1} { 1; }; };", "match 1 { const g9 { g9 = 2; }; };", "1->2;", "1.2.3;", "[1].(2);", "let h9 += 1;", "const t9;", "1(1) = 2;", "'a' += 2;", "if true 1;", "else { 1; };", "elseif true { 1; };", "for 1 <- [1] { 1; };", "for let j9 = 1 { 1; };", "fn k9(let) { return 1; };", "let l9, let l9 = 1, 2;", "let m9, n9 = 1, 2;", "nosuchname += 1;", "nosuchname[1] = 2;", "const o9 = 1; o9 += 1;", "const fn p9() { return 1; }; p9 = 1;", "0b2;", "0x_;", "'\\q';", "'\\x1';", "\"\\x\";", "fn u9() { const v = 1; return fn() { v = 2; }; };", "(fn() { return nosuchname; })();", "fn w9() { while true { let x9 = nosuchname; }; };"};
static const int NBAD = sizeof BAD / sizeof *BAD;
static const char *QUIT[] = {"quit();", "if true { quit(); };", "(fn() { quit(); return 1; })();", "for q9 <- [1, 2] { quit(); };", "echo quit();", "let r9 = [1, quit(), 2];", "while true { quit(); };", "[1, 2]->push(quit());"};
static N stmts_of(const N &e, size_t from) { std::vector<N> k{A("prog")}; k.insert(k.end(), e->k.begin() + (long)from, e->k.end()); return L(k); }

// (hc f args...): the host itself calls f, and stores what it returns in g0
static N hostcall(const N &e) { std::vector<N> c{A("call"), V_(e->k[1]->a)}; c.insert(c.end(), e->k.begin() + 2, e->k.end()); return L("=", A("g0"), L(c)); }
// (entries (e|x stmts...) (bad n stmts...) (badmid n stmts...) (quit n stmts...) (blank n)): e interactive, x as a program of its own
static void model_entries(Model &m, const std::vector<N> &es, std::vector<int> *st = nullptr) {
	for (auto &e : es) {
		int s = 0;
		if (e->is("e") || e->is("x")) s = m.run_entry(stmts_of(e, 1), e->is("e"));
		else if (e->is("quit")) s = m.run_entry(L("prog", L("x", L("u"))), false), s = m.run_entry(stmts_of(e, 2), false);
		else if (e->is("hc")) s = m.run_entry(L("prog", hostcall(e)), true);
		if (st) st->push_back(s);
	}
}
N gen_C11(Rng &r, int tier) {
	std::vector<N> k{A("plan")};
	gen_knobs(r, k);
	bool embed = r.chance(35);
	GenCfg c = swarm(r, tier);
	c.host = embed; c.objs = c.objs && embed; c.hcall = c.hcall && embed; c.globals = embed;
	c.maxdepth = (int)r.range(1, 3);
	if (r.chance(60)) c.errors = true;
	Gen g(r, c);
	std::vector<N> es;
	int n = (int)r.range(2, tier ? 14 : 9);
	std::vector<std::string> hfns;
	int phost = embed && r.chance(50) ? (int)r.range(10, 45) : 0;
	int pbad = (int)r.range(0, 40), pecho = (int)r.range(10, 60), perr = c.errors ? (int)r.range(0, 30) : 0;
	for (int i = 0; i < n; i++) {
		Gen::Var dummy{"", 'I', false, 0, false}; (void)dummy;
		auto vars = g.vars; int next = g.next;
		std::vector<N> b;
		g.total = 0;
		int ns = (int)r.range(0, r.chance(20) ? 6 : 3);
		for (int j = 0; j < ns; j++) g.stmt(b, 0);
		if (r.chance(pbad)) {
			std::vector<N> e{A(r.chance(70) ? "bad" : "badmid"), I(r.range(0, NBAD - 1))};
			e.insert(e.end(), b.begin(), b.end());
			es.push_back(L(e));
			g.vars = vars; if (r.chance(70)) g.next = next;      // the next entry may declare the same names again
			continue;
		}
		if (r.chance(phost)) {
			g.vars = vars;
			std::vector<N> e;
			if (hfns.empty() || r.chance(50)) {
				std::string f = g.fresh(), p0 = g.fresh(), p1 = g.fresh();
				N fn = g.fnbody({{p0, 'I'}, {p1, 'S'}}, "ISBL"[r.next() % 4], 1, "fn", f);
				std::vector<N> bad{A("do"), r.chance(50) ? X_(BIN("//", L("i", I(7)), V_(p0))) : r.chance(50) ? L("assert", V_(p0)) : X_(L("ix", L("ls", L("i", I(1)), L("i", I(2))), V_(p0)))};
				N at = r.chance(50) ? L("for", A(g.fresh()), L("ls", L("i", I(1)), L("i", I(2))), L(bad)) : L("if", L("b", I(1)), L(bad));
				std::vector<N> fk = fn->k; if (r.chance(70)) fk.insert(fk.begin() + 3 + (long)r.range(0, (int64_t)fk.size() - 4), at);
				e = {A("e"), L(fk)};
				hfns.push_back(f);
			} else {
				e = {A("hc"), A(hfns[r.next() % hfns.size()])};
				if (r.chance(92)) e.push_back(L("i", I(r.chance(30) ? 0 : r.range(-3, 5))));
				if (e.size() > 2 && r.chance(80)) e.push_back(L("s", S(r.chance(50) ? "" : "host")));
				if (r.chance(5)) e.push_back(L("u"));
			}
			es.push_back(L(e));
			Model m; std_hvals(m); std::vector<int> st;
			try { model_entries(m, es, &st); } catch (Abandon &) { es.pop_back(); if (e[0]->a == "e") hfns.pop_back(); }
			g.vars = vars;
			continue;
		}
		if (r.chance(4)) { es.push_back(L("blank", I(r.range(0, 4)))); g.vars = vars; continue; }
		if (r.chance(perr)) {
			switch (r.range(0, 4)) {
			case 0: b.push_back(X_(BIN("//", L("i", I(1)), L("i", I(0))))); break;
			case 1: b.push_back(X_(L("ix", g.ex('L', 1), L("i", I(77))))); break;
			case 2: b.push_back(L("assert", L("b", I(0)))); break;
			case 3: { std::vector<N> bb{A("do"), L("let", A(g.fresh()), g.ex('I', 1)), X_(BIN("%", L("i", I(1)), L("i", I(0))))}; b.push_back(L("for", A(g.fresh()), L("ls", L("i", I(1)), L("i", I(2))), L(bb))); break; }
			default: { std::string p = g.fresh(), f = g.fresh(); b.push_back(L("fn", A(f), L(std::vector<N>{A(p)}), L("ret", BIN("//", V_(p), L("i", I(0)))))); b.push_back(X_(L("call", V_(f), g.ex('I', 1)))); }
			}
		}
		bool x = embed && r.chance(25);
		if (!x && r.chance(pecho)) { static const char t[] = "IISBL"; b.push_back(X_(g.ex(t[r.next() % 5], 0))); }
		else if (!b.empty() && b.back()->is("x") && !x) b.push_back(L("if", L("b", I(0)), L(std::vector<N>{A("do")})));
		std::vector<N> e{A(x ? "x" : "e")}; e.insert(e.end(), b.begin(), b.end());
		es.push_back(L(e));
		Model m; if (embed) std_hvals(m);
		std::vector<int> st;
		try { model_entries(m, es, &st); } catch (Abandon &) { es.pop_back(); g.vars = vars; continue; }
		if (st.back() || x) { g.vars = vars; }
	}
	if (!embed && r.chance(15)) {
		std::vector<N> b; auto vars = g.vars; for (int j = (int)r.range(0, 2); j > 0; j--) g.stmt(b, 0);
		std::vector<N> e{A("quit"), I(r.range(0, 7))}; e.insert(e.end(), b.begin(), b.end());
		es.push_back(L(e));
		Model m; try { model_entries(m, es); } catch (Abandon &) { es.pop_back(); }
		g.vars = vars;
		if (r.chance(50)) es.push_back(L("e", L("echo", L("i", I(999)))));
	}
	std::vector<N> el{A("entries")}; el.insert(el.end(), es.begin(), es.end());
	k.push_back(L(el));
	if (embed) {
		k.push_back(L("mode", A("embed")));
		Model m; std_hvals(m); try { model_entries(m, es); gen_aborts(r, k, m.hostcalls, 40); } catch (Abandon &) {}
		std::vector<N> rt{A("routes")}; for (size_t i = 0; i < es.size(); i++) rt.push_back(I(r.range(0, 9))); k.push_back(L(rt));
		if (r.chance(30)) { std::vector<N> fl{A("faults")}; fl.push_back(L("open-fail", S("*"), I(r.range(1, 3)))); k.push_back(L(fl)); }
	} else {
		if (r.chance(30)) k.push_back(L("cut", I(r.range(0, 400))));
		if (r.chance(15)) { std::vector<N> fl{A("faults")}; fl.push_back(L("read-err", S("<stdin>"), I(r.range(1, 12)))); k.push_back(L(fl)); }
	}
	if (r.chance(60)) { std::vector<N> ch{A("chunks")}; int m = (int)r.range(1, 4); for (int i = 0; i < m; i++) ch.push_back(I(r.range(1, 40))); k.push_back(L(ch)); }
	if (r.chance(40)) k.push_back(L("bufsize", I(r.pick(std::vector<int64_t>{0, 1, 7, 64, 300}))));
	return L(k);
}
static std::string text_of(const N &e, bool line, std::string *full = nullptr) {
	auto rn = [&](const N &p) { return line ? oneline(p) : render(p); };
	auto bad = [&](const N &n) { return std::string(BAD[llabs(n->num()) % NBAD]); };
	// in the middle of an entry only text that cannot take in what follows
	auto badm = [&](const N &n) { for (int64_t i = llabs(n->num()) % NBAD;; i = (i + 1) % NBAD) { std::string t = BAD[i]; if (t.back() == ';' || t == ")" || t == "}" || t == "@" || t == "\\" || t == "`") return t; } };
	if (e->is("e") || e->is("x")) return rn(stmts_of(e, 1));
	if (e->is("bad")) return rn(stmts_of(e, 2)) + " " + bad(e->k[1]);
	if (e->is("badmid")) { N p = stmts_of(e, 2); size_t h = 1 + p->size() / 2; std::vector<N> a{A("prog")}, b{A("prog")}; for (size_t i = 1; i < p->size(); i++) (i < h ? a : b).push_back(p->k[i]); return rn(L(a)) + " " + badm(e->k[1]) + " " + rn(L(b)); }
	if (e->is("quit")) return rn(stmts_of(e, 2)) + " " + QUIT[llabs(e->k[1]->num()) % 8] + " echo 'not reached';";
	static const char *bl[] = {"", " ", "# just a comment"};
	return e->is("blank") ? bl[llabs(e->k[1]->num()) % 3] : "";
}
static bool is_bad(const N &e) { return e->is("bad") || e->is("badmid"); }
static void run_repl(const N &plan, const std::vector<N> &es) {
	struct Piece { std::string line, out; int status; bool quit; };
	static std::vector<Piece> ps;
	static Model m;
	for (auto &e : es) {
		Piece p; p.line = text_of(e, true); p.status = 0; p.quit = false;
		if (p.line.find('\n') != std::string::npos) discard("newline in an entry");
		size_t o = m.out.size();
		if (is_bad(e)) p.status = 4;
		else if (e->is("e") || e->is("x")) p.status = m.run_entry(stmts_of(e, 1), true);
		else if (e->is("quit")) { m.run_entry(stmts_of(e, 2), false); if (m.status) p.status = m.status; else p.quit = true; }
		p.out = m.out.substr(o);
		ps.push_back(p);
		if (p.quit) break;
	}
	std::string in;
	for (auto &e : es) in += text_of(e, true) + "\n";
	int64_t cut = getnum(plan, "cut", -1);
	if (cut >= 0 && cut < (int64_t)in.size()) { in.resize((size_t)cut); fired(F_SRC_TRUNC); }
	logs(in);
	w.sin = in;
	auto judge = [&](bool quit) {
		sim_fflush(nullptr);
		logs(w.sout); logs("--- stderr"); logs(w.serr);
		std::string got = w.sout;
		size_t b = got.find("yasl> ");
		if (b == std::string::npos) violation("no-prompt", "the session printed no prompt");
		got = got.substr(b);
		// what was delivered before the input ended or failed
		std::string del = in.substr(0, w.sin_pos);
		std::string want; size_t pos = 0, i = 0; bool q = false; size_t nfail = 0;
		std::string rest = del;
		for (; i < ps.size(); i++) {
			size_t nl = del.find('\n', pos);
			bool whole = nl != std::string::npos;
			// an entry that is complete but for its line end counts as well
			if (!whole && (pos == del.size() || del.substr(pos) != ps[i].line)) break;
			want += "yasl> " + ps[i].out;
			if (ps[i].status) nfail++;
			if (ps[i].quit) { q = true; break; }
			if (!whole) { pos = del.size(); break; }
			pos = nl + 1;
		}
		bool eofline = !q && i < ps.size() && pos == del.size() && !del.empty() && del.back() != '\n';
		if (!q && !eofline) want += "yasl> ";
		bool partial = !q && pos < del.size();
		if (quit && !q && !partial) violation("quit", "the session ended by itself after %zu entries", i);
		if (quit && w.exit_code != 0) violation("quit-code", "quit() ended the process with code %d", w.exit_code);
		if (!quit && q) violation("quit-ignored", "quit() did not end the session");
		if (partial ? got.compare(0, want.size(), want) != 0 : got != want) violation("session-output", "%s", first_diff(want, got).c_str());
		size_t nl = 0; for (char c : w.serr) nl += c == '\n';
		if (nl < nfail) violation("unreported", "%zu entries fail, but only %zu lines were reported: %s", nfail, nl, esc_dump(w.serr).substr(0, 600).c_str());
		if (!nfail && !partial && !w.serr.empty()) violation("spurious-error", "no entry fails, but an error was reported: %s", esc_dump(w.serr).substr(0, 600).c_str());
		if (w.stdin_reads_after_eof > 8) violation("read-past-end", "%lld reads after the end of the input", (long long)w.stdin_reads_after_eof);
		if (nfail) probe("session with failed entries");
		if (q) probe("session ended by quit");
		if (partial) probe("input ended inside an entry");
	};
	w.on_exit = [&](int) { judge(true); sh->nontrivial = sh->loghash | 1; finish_ok(); };
	set_step_budget(60000000);
	char a0[] = "yasl"; char *argv[] = {a0, nullptr};
	int rc = yasl_main(1, argv);
	if (rc) violation("session-status", "the session ended normally, but with exit code %d", rc);
	judge(false);
	check_no_leak("end of session", m.cyclic);
}
static void run_embed(const N &plan, const std::vector<N> &es) {
	Model m; std_hvals(m);
	m.abort_at = getnum(plan, "abort-at", -1); m.abort_status = (int)getnum(plan, "abort-status", 2);
	Actor a; a.hvals = fresh_hvals(); a.abort_at = m.abort_at; a.abort_status = m.abort_status; a.abort_print = getnum(plan, "abort-print", 0);
	N rt = find(plan, "routes");
	auto judge = [&](const N &, size_t i) {
		compare_traces(("entry " + std::to_string(i)).c_str(), m.trace, a.trace);
		std::string out = a.capture();
		if (out != m.out) violation("output", "entry %zu: %s", i, first_diff(m.out, out).c_str());
		for (auto g : {"g0", "g1", "g2"}) { std::string d; if (!a.get(g, d)) violation("global-lost", "entry %zu: %s", i, g); if (d != dump(m.globals[g])) violation("global", "entry %zu: %s: want %s got %s", i, g, dump(m.globals[g]).c_str(), d.c_str()); }
		if (m.top) for (auto &v : m.top->vars) if (v.second->t != 'c' && v.second->t != 'h' && v.second->t != 'e') {
			std::string d; if (!a.get(v.first, d)) violation("variable-lost", "entry %zu: variable %s of an earlier entry is gone", i, v.first.c_str());
			if (d != dump(*v.second)) violation("variable", "entry %zu: %s: want %s got %s", i, v.first.c_str(), dump(*v.second).c_str(), d.c_str());
		}
	};
	set_step_budget(60000000);
	a.open_buf(""); a.libs();
	size_t i = 0, errlen = 0;
	for (auto &e : es) {
		i++;
		if (e->is("quit")) continue;
		if (e->is("hc")) {
			if (!m.top || !std::any_of(m.top->vars.begin(), m.top->vars.end(), [&](auto &v) { return v.first == e->k[1]->a && v.second->t == 'c'; })) continue;
			logf_("entry %zu (hc) %s", i, show(e).c_str());
			int want = m.run_entry(L("prog", hostcall(e)), true);
			if (YASL_loadglobal(a.S, e->k[1]->a.c_str()) != YASL_SUCCESS) violation("function-lost", "entry %zu: function %s of an earlier entry is gone", i, e->k[1]->a.c_str());
			for (size_t j = 2; j < e->size(); j++) { const N &x = e->k[j]; push_value(a, x->is("i") ? V::In(x->k[1]->num()) : x->is("s") ? V::St(x->k[1]->a) : V()); }
			int got = YASL_functioncall(a.S, (int)e->size() - 2);
			logf_("-> %d, want status %d", got, want);
			if (want ? got != -want : got < 0) violation("call-status", "entry %zu: want %s%d, got %d", i, want ? "" : "at least ", -want, got);
			if (!want) { if (!got) { YASL_pushundef(a.S); } for (; got > 1; got--) YASL_pop(a.S); if (YASL_setglobal(a.S, "g0") != YASL_SUCCESS) violation("setglobal", "entry %zu: g0 can't be set", i); }
			fired(F_CALLBACK); probe(want ? "failing_host_call" : "host_call");
			judge(e, i);
			continue;
		}
		std::string src = text_of(e, false);
		int64_t route = rt && rt->size() > i ? rt->k[i]->num() : 0;
		logf_("entry %zu (%s)", i, e->head().c_str()); logs(src);
		fired(F_RESET);
		char *buf = nullptr;
		if (route < 3) {
			std::string path = "entry" + std::to_string(i) + ".yasl";
			w.disk[path].data = src;
			size_t nf = sh->faults[F_OPEN_FAIL];
			int s = YASL_resetstate(a.S, path.c_str());
			bool failed = sh->faults[F_OPEN_FAIL] != nf;
			if (failed != (s != YASL_SUCCESS)) violation("reset-status", "entry %zu: open %s, YASL_resetstate returned %d", i, failed ? "failed" : "worked", s);
			// the host tries again with the text itself
			if (failed) { s = YASL_resetstate_bb(a.S, src.data(), src.size()); if (s != YASL_SUCCESS) violation("reset-status", "YASL_resetstate_bb returned %d", s); }
		} else {
			buf = (char *)malloc(src.size() + 1); memcpy(buf, src.data(), src.size());
			int s = YASL_resetstate_bb(a.S, buf, src.size());
			if (s != YASL_SUCCESS) violation("reset-status", "YASL_resetstate_bb returned %d", s);
		}
		int want = 0;
		if (!is_bad(e) && !e->is("blank")) want = m.run_entry(stmts_of(e, 1), e->is("e"));
		int got = e->is("x") ? YASL_execute(a.S) : YASL_execute_REPL(a.S);
		if (buf) { memset(buf, '#', src.size()); free(buf); }
		std::string err = a.errtext();
		logf_("-> %d %s", got, err.size() > errlen && err.size() >= errlen ? err.substr(errlen).c_str() : "");
		errlen = err.size();
		if (is_bad(e) ? got == 0 : got != want) violation("status", "entry %zu: want status %s, got %d", i, is_bad(e) ? "not 0" : std::to_string(want).c_str(), got);
		judge(e, i);
	}
	probe("embedded session");
	a.close();
	if (!m.cyclic) a.check_objs("end of session");
	check_no_leak("end of session", m.cyclic);
}
void run_C11(const N &plan) {
	N el = find(plan, "entries");
	if (!el || el->size() < 2) discard("no entries");
	std::vector<N> es(el->k.begin() + 1, el->k.end());
	if (getstr(plan, "mode", "") == "embed") run_embed(plan, es); else run_repl(plan, es);
	sh->nontrivial = sh->loghash | 1;
	finish_ok();
}
