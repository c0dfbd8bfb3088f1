// C17: what a program prints, on whichever sink, in whatever pieces, on a device that fails.
#include "engine.h"
extern "C" int sim_fflush(FILE *);
extern "C" size_t sim_fwrite(const void *, size_t, size_t, FILE *);
static std::string marked(Rng &r, int64_t &n, int tier) {
	// unique start, then content of a length around the sizes that matter
	static const std::vector<int64_t> base{0, 0, 1, 5, 16, 32, 64, 100, 128, 255, 256, 257, 300, 512, 1000, 1015, 1020, 1023, 1024, 1025, 1040, 2000, 2048, 4090, 4096, 4100, 8192};
	int64_t len = r.chance(70) ? r.range(0, 40) : r.pick(base) + r.range(-3, 3);
	if (r.chance(tier ? 4 : 2)) len = r.range(8000, 60000);
	std::string s = "L" + std::to_string(n++) + ":";
	int kind = (int)r.range(0, 5);
	static const char *odd[] = {"%s", "%n", "%d%d", "\n", "\t", "\xff", "\xc3\xa9", "\r", "%.*s", "%", "\\"};
	while ((int64_t)s.size() < len) switch (kind) { case 0: s += 'x'; break; case 1: s += (char)('a' + s.size() % 26); break; case 2: s += odd[r.next() % 11]; break; case 3: s += r.chance(30) ? std::string(1, '\0') : "y"; break; case 4: s += std::string(1, '\0'); break; default: s += std::to_string(s.size()); break; }
	return s;
}
static N do_(std::vector<N> b) { b.insert(b.begin(), A("do")); return L(b); }
N gen_C17(Rng &r, int tier) {
	std::vector<N> k{A("plan")};
	gen_knobs(r, k);
	std::vector<N> el{A("entries")};
	int64_t n = 0; int ne = (int)r.range(1, 3); int fresh = 0;
	bool mod = r.chance(25);
	if (mod) {
		std::vector<N> b{A("prog")};
		for (int i = (int)r.range(1, 3); i > 0; i--) b.push_back(L("echo", S(marked(r, n, 0))));
		b.push_back(L("fn", A("mf"), L(std::vector<N>{A("ma")}), L("echo", BIN("~", S(marked(r, n, 0)), V_("ma"))), L("ret", V_("ma"))));
		b.push_back(r.chance(85) ? L("export", V_("mf")) : L("assert", L("b", I(0))));
		N p = L(b);
		k.push_back(L("mods", L("mod", S("m0"), p)));
		k.push_back(L("disk", L("f", S("./m0.yasl"), S(render(p)))));
	}
	int64_t hostcalls = 0;
	for (int e = 0; e < ne; e++) {
		GenCfg c = swarm(r, tier); c.stmts = (int)r.range(1, 14); c.globals = false;
		Model m; N p = gen_prog(r, c, 6, &m); hostcalls += m.hostcalls;
		std::vector<N> ins;
		for (int i = (int)r.range(1, tier ? 14 : 8); i > 0; i--) switch (r.range(0, 9)) {
		case 0: case 1: case 2: case 3: ins.push_back(L("echo", S(marked(r, n, tier)))); break;
		case 4: ins.push_back(L("iow", S(marked(r, n, tier)))); break;
		case 5: ins.push_back(X_(H_("hnest", {L("i", I(n++))}))); break;
		case 6: { std::string v = "o" + std::to_string(fresh++); ins.push_back(L("fori", A(v), L("i", I(n)), L("i", I(n + r.range(1, tier ? 60 : 12))), L("i", I(1)), do_({r.chance(70) ? L("echo", BIN("~", BIN("~", S("L"), V_(v)), S(":"))) : L("iow", BIN("~", BIN("~", S("L"), V_(v)), S(":")))}))); n += 61; break; }
		case 7: if (mod) { std::string v = "o" + std::to_string(fresh++); ins.push_back(L("if", L("b", I(1)), do_({L("let", A(v), L("req", S("m0"))), X_(H_("hemit", {L("call", V_(v), L("i", I(r.range(0, 9))))}))}))); break; } // fallthrough
		case 8: ins.push_back(L("echo", S(""))); break;
		default: ins.push_back(L("echo", L("ls", S(marked(r, n, 0)), L("i", I(n++))))); break;
		}
		p = insert_stmts(r, p, ins);
		if (r.chance(10)) p->k.push_back(L("assert", L("b", I(0))));
		static const char *sinks[] = {"keep", "keep", "str", "errstr", "both"};
		el.push_back(L(sinks[r.next() % 5], p));
	}
	k.push_back(L(el));
	gen_aborts(r, k, hostcalls, 15);
	if (r.chance(45)) {
		std::vector<N> fl{A("faults")};
		for (int i = r.chance(75) ? 1 : 2; i > 0; i--) { bool err = r.chance(60); fl.push_back(L(err ? "write-err" : "write-short", S(r.chance(85) ? "<stdout>" : "<stderr>"), I(r.range(1, r.chance(50) ? 3 : 25)), I(err ? 0 : r.range(0, 40)), I(r.chance(25) ? -1 : 0))); }
		k.push_back(L(fl));
	}
	if (r.chance(80)) k.push_back(L("bufsize", I(r.pick(std::vector<int64_t>{0, 0, 1, 2, 7, 16, 64, 300, 1024, 4096}))));
	return L(k);
}
static bool subsequence(const std::string &s, const std::string &of) { size_t j = 0; for (size_t i = 0; i < of.size() && j < s.size(); i++) if (of[i] == s[j]) j++; return j == s.size(); }
void run_C17(const N &plan) {
	N el = find(plan, "entries");
	if (!el || el->size() < 2) discard("no entries");
	Model m; std_hvals(m);
	if (N mm = find(plan, "mods")) for (size_t i = 1; i < mm->size(); i++) if (mm->k[i]->is("mod")) m.modules[mm->k[i]->k[1]->a] = mm->k[i]->k[2];
	Actor a; a.hvals = fresh_hvals();
	m.abort_at = a.abort_at = getnum(plan, "abort-at", -1); m.abort_status = a.abort_status = (int)getnum(plan, "abort-status", 2); a.abort_print = getnum(plan, "abort-print", 0);
	bool out_str = false, err_str = false;
	std::string pout, cap;         // what belongs on standard output, and in the captured string
	m.on_write = [&](const std::string &t) { if (out_str) pout += t; else m.out += t; };
	auto nest_text = [](int64_t n) { return "<host " + std::to_string(n) + ">"; };
	m.on_nest = [&](int64_t n) { if (out_str) pout += nest_text(n); else m.out += nest_text(n); };
	std::string &real_sink = w.sout; (void)real_sink;
	a.on_nest = [&](Actor &, int64_t n) { std::string t = nest_text(n); sim_fwrite(t.data(), 1, t.size(), sim_stdout); };
	set_step_budget(60000000);
	a.open_buf(""); a.libs(63, false);
	YASL_State *S = a.S;
	size_t done = 0; int64_t hc = 0; size_t errs = 0, caperr = 0; bool fatal = false;
	auto faulty = [&] { return sh->faults[F_OUT_ERR] != 0; };
	for (size_t i = 1; i < el->size(); i++) {
		N e = el->k[i]; if (e->size() < 2) continue;
		if ((e->is("str") || e->is("both")) && !out_str) { YASL_setprintout_tostr(S); out_str = true; probe("sink changed to a string"); }
		if ((e->is("errstr") || e->is("both")) && !err_str) { YASL_setprinterr_tostr(S); err_str = true; }
		std::string src = render(e->k[1]);
		logf_("entry %zu, output to %s", i, out_str ? "string" : "stdout"); logs(src);
		size_t from = m.out.size(); size_t hc0 = m.outat.size(); hc = a.hostcalls;
		int want;
		try { want = m.run_entry(e->k[1], false); } catch (Abandon &ab) { discard(ab.why); }
		if (m.trace.size() > 100000) discard("long");
		std::string cap0 = cap;
		a.on_host = [&](Actor &) {
			size_t at = hc0 + (size_t)(a.hostcalls - 1 - hc);
			if (at >= m.outat.size()) return;     // reported as a trace difference
			if (out_str) { std::string got = a.capture(), exp = cap0 + m.out.substr(from, m.outat[at] - from); if (got != exp) violation("output-so-far", "host call %lld: %s", (long long)a.hostcalls, first_diff(exp, got).c_str()); }
			else if (!faulty()) { std::string exp = pout + m.out.substr(from, m.outat[at] - from); if (w.sout.size() > exp.size() || exp.compare(0, w.sout.size(), w.sout)) violation("output-so-far", "host call %lld: %s", (long long)a.hostcalls, first_diff(exp, w.sout).c_str()); }
		};
		YASL_resetstate_bb(S, src.data(), src.size());
		int got = YASL_execute(S);
		a.on_host = nullptr;
		std::string delta = m.out.substr(from);
		(out_str ? cap : pout) += delta;
		logf_("-> %d, %zu bytes expected on stdout, %zu in the string", got, pout.size(), cap.size());
		compare_traces(("entry " + std::to_string(i)).c_str(), m.trace, a.trace);
		if (got != want) violation("status", "entry %zu: want status %d, got %d", i, want, got);
		if (out_str) { std::string c = a.capture(); if (c != cap) violation("captured", "entry %zu: %s", i, first_diff(cap, c).c_str()); }
		if (want) {
			errs++; sim_fflush(sim_stderr);
			bool silent = show(e->k[1]).find("hthrow") != std::string::npos || a.abort_at > 0;
			std::string ec = err_str ? a.errtext() : "";
			if (!silent && err_str && ec.size() <= caperr) violation("unreported", "entry %zu failed with %d, but nothing was reported", i, want);
			if (!silent && !err_str && w.serr.empty() && !faulty()) violation("unreported", "entry %zu failed with %d, but nothing was reported", i, want);
			caperr = ec.size();
		}
	}
	(void)fatal; (void)done;
	a.close();
	check_no_leak("end of session", m.cyclic);
	if (!m.cyclic) a.check_objs("end of session");
	sim_fflush(sim_stdout); sim_fflush(sim_stderr);
	if (!errs && !w.serr.empty()) violation("spurious-error", "nothing failed, but standard error holds %s", esc_dump(w.serr).substr(0, 300).c_str());
	uint64_t lost = sh->faults[F_OUT_ERR];
	logf_("stdout %zu bytes of %zu", w.sout.size(), pout.size());
	N fl = find(plan, "faults");
	// glibc does not take a short write from such a device for a reason to try again everywhere: the rest may be lost
	bool err = false; int nerr = 0; bool sticky = false;
	if (fl) for (auto &f : w.faults) if (f.used && f.path == "<stdout>") { err = true; nerr++; sticky |= f.err < 0; }
	(void)lost;
	if (!err) { if (w.sout != pout) violation("stdout", "%s", first_diff(pout, w.sout).c_str()); }
	else {
		if (!subsequence(w.sout, pout)) violation("stdout-order", "what reached the failing device is not what was printed with parts missing: %s", first_diff(pout, w.sout).c_str());
		if (nerr == 1 && !sticky) {
			size_t p = 0, q = 0;
			while (p < w.sout.size() && p < pout.size() && w.sout[p] == pout[p]) p++;
			while (q < w.sout.size() - p && q < pout.size() - p && w.sout[w.sout.size() - 1 - q] == pout[pout.size() - 1 - q]) q++;
			if (p + q < w.sout.size()) violation("stdout-gap", "one write failed, but more than one piece is missing or changed: %s", first_diff(pout, w.sout).c_str());
		}
		// nothing twice
		std::map<std::string, int> seen;
		for (size_t i = 0; (i = w.sout.find('L', i)) != std::string::npos; i++) { size_t j = i + 1; while (j < w.sout.size() && isdigit((unsigned char)w.sout[j])) j++; if (j > i + 1 && j < w.sout.size() && w.sout[j] == ':') seen[w.sout.substr(i, j - i)]++; }
		for (auto &s : seen) { size_t c = 0; for (size_t i = 0; (i = pout.find(s.first + ":", i)) != std::string::npos; i++) c++; if ((size_t)s.second > c) violation("stdout-repeated", "%s was printed %zu times, but reached the device %d times", s.first.c_str(), c, s.second); }
		probe("output device failed");
	}
	sh->nontrivial = sh->loghash | 1;
	finish_ok();
}
