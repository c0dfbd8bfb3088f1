// C10: graphs of modules, required again and again by a session, with modules that are missing, unreadable, torn, broken or fail while loading.
#include "engine.h"
static const char *LIBDIR = "/usr/local/lib/yasl/";
static N lam(const char *p, N e) { return L("lam", L(std::vector<N>{A(p)}), L("ret", e)); }
static N fn_(const char *name, const char *p, std::vector<N> body) { std::vector<N> k{A("fn"), A(name), L(std::vector<N>{A(p)})}; k.insert(k.end(), body.begin(), body.end()); return L(k); }
static N do_(std::vector<N> b) { b.insert(b.begin(), A("do")); return L(b); }
// native modules: what the loader finds at each place of the search path
extern "C" void sim_dl_register(const char *path, const char *sym, void *fn);
static const char *NATDIR[] = {"/usr/local/lib/yasl/lib?.so", "/usr/local/lib/yasl/?.so", "./lib?.so", "./?.so", "?"};
template <int W> static int nat_int(YASL_State *S) { YASL_pushint(S, 70 + W); return 1; }
template <int W> static int nat_list(YASL_State *S) { YASL_pushlist(S); YASL_pushint(S, W); YASL_listpush(S); return 1; }
static int nat_throw(YASL_State *S) { YASL_print_err(S, "ValueError: native module failed."); YASL_throw_err(S, YASL_VALUE_ERROR); return 0; }
static void *NATF[2][5] = {{(void *)nat_int<0>, (void *)nat_int<1>, (void *)nat_int<2>, (void *)nat_int<3>, (void *)nat_int<4>}, {(void *)nat_list<0>, (void *)nat_list<1>, (void *)nat_list<2>, (void *)nat_list<3>, (void *)nat_list<4>}};
static std::string nat_path(int w, const std::string &n) { std::string p = NATDIR[w]; return p.replace(p.find('?'), 1, n); }
static N il(int64_t n) { return L("i", I(n)); }
// what a module exports; both copies of a module (library directory and current directory) export the same kind
enum { K_FN, K_TABLE, K_LIST, K_INT, K_STR, K_SET, K_HIGHER, K_ERR, K_LAZY, K_RE, K_CLOS, K_N };
struct ModGen {
	Rng &r; int n; std::vector<int> kind; int tier; int uid = 0;
	std::string name(int i) { return "m" + std::to_string(i); }
	std::string fresh() { return "q" + std::to_string(uid++); }
	N arg() { return il(r.range(-2, 9)); }
	int real_kind(int i, int depth = 0) { if (kind[i] != K_RE) return kind[i]; return i + 1 < n && depth < 5 ? real_kind(i + 1, depth + 1) : K_INT; }
	// statements that use the value of variable or expression v
	void use(std::vector<N> &o, N v, int kd, bool host) {
		auto emit = [&](N e) { o.push_back(host ? X_(H_("hemit", {e})) : L("echo", e)); };
		switch (kd) {
		case K_FN: case K_ERR: case K_LAZY: emit(L("call", v, arg())); if (r.chance(50)) emit(L("call", v, arg())); break;
		case K_TABLE: emit(L("call", L("ix", v, S("f")), arg())); emit(L("ix", v, S("n"))); if (r.chance(40)) { o.push_back(L("ix=", v, S("n"), arg())); emit(L("ix", v, S("n"))); } if (r.chance(40)) emit(L("call", L("ix", v, S("f")), arg())); break;
		case K_LIST: o.push_back(X_(M_("push", v, {arg()}))); emit(v); break;
		case K_INT: case K_STR: emit(v); break;
		case K_SET: o.push_back(X_(M_("add", v, {arg()}))); emit(L("len", v)); break;
		case K_HIGHER: { std::string x = fresh(); emit(L("call", v, host && r.chance(50) ? V_("hid") : lam(x.c_str(), BIN("+", V_(x), arg())), arg())); break; }
		case K_CLOS: { std::string f = fresh(); o.push_back(L("let", A(f), L("call", v, arg()))); emit(L("call", V_(f), arg())); emit(L("call", V_(f), arg())); break; }
		}
	}
	N module(int i, int fate) {
		std::vector<N> k{A("prog")};
		if (r.chance(40)) { GenCfg c; c.host = false; c.objs = c.hcall = c.globals = false; c.stmts = (int)r.range(1, 5); c.maxdepth = 2; c.errors = false; Model m; N p = gen_prog(r, c, 4, &m); if (show(p).find("(h ") == std::string::npos) k.insert(k.end(), p->k.begin() + 1, p->k.end()); }
		if (r.chance(50)) k.push_back(L("echo", S("in " + name(i))));
		k.push_back(L("let", A("mc"), il(r.range(0, 5))));
		k.push_back(L("let", A("ml"), L("ls", il(1), il(2))));
		if (r.chance(30)) k.push_back(L("let", A("g1"), S("module's own g1")));
		if (r.chance(25) && kind[i] != K_RE) { k.push_back(L("let", A("own"), L("ls"))); k.push_back(L("for", A("e"), L("ls", il(3), il(1), il(2)), do_({X_(M_("push", V_("own"), {V_("e")}))}))); k.push_back(X_(M_("sort", V_("own"), {}))); k.push_back(L("echo", V_("own"))); }
		for (int j = i + 1; j < n; j++) if (r.chance(n > 3 ? 25 : 40)) {
			std::string d = "d" + std::to_string(j);
			k.push_back(L("let", A(d), L("req", S(name(j)))));
			if (r.chance(60)) use(k, V_(d), real_kind(j), false);
		}
		if (fate == 1) { static const int w[] = {0, 1, 2, 3, 4}; switch (w[r.next() % 5]) { case 0: k.push_back(L("assert", L("b", I(0)))); break; case 1: k.push_back(X_(BIN("//", il(1), il(0)))); break; case 2: k.push_back(X_(L("ix", V_("ml"), il(77)))); break; case 3: k.push_back(X_(M_("nosuch", V_("ml"), {}))); break; default: k.push_back(L("for", A("e"), V_("ml"), do_({X_(L("call", lam("z", BIN("//", V_("z"), il(0))), V_("e")))}))); break; } }
		N ex;
		switch (kind[i]) {
		case K_FN: k.push_back(fn_("mf", "ma", {L("op=", A("mc"), A("+"), V_("ma")), X_(M_("push", V_("ml"), {V_("mc")})), L("ret", BIN("+", V_("mc"), L("len", V_("ml"))))})); ex = V_("mf"); break;
		case K_TABLE: k.push_back(fn_("mf", "ma", {L("op=", A("mc"), A("+"), V_("ma")), L("ret", V_("mc"))})); ex = L("tb", S("f"), V_("mf"), S("n"), V_("ml"), il(1), S("one")); break;
		case K_LIST: ex = V_("ml"); break;
		case K_INT: ex = V_("mc"); break;
		case K_STR: ex = BIN("~", S("str of " + name(i)), L("m", A("tostr"), V_("mc"))); break;
		case K_SET: ex = L("set", il(1), V_("mc")); break;
		case K_HIGHER: k.push_back(L("fn", A("mf"), L(std::vector<N>{A("mh"), A("ma")}), L("op=", A("mc"), A("+"), il(1)), L("ret", BIN("+", L("call", V_("mh"), V_("ma")), V_("mc"))))); ex = V_("mf"); break;
		case K_ERR: k.push_back(fn_("mf", "ma", {L("if", BIN(">", V_("ma"), il(6)), do_({r.chance(50) ? L("assert", L("b", I(0))) : r.chance(50) ? X_(L("ix", V_("ml"), il(99))) : X_(BIN("//", V_("ma"), il(0)))})), L("op=", A("mc"), A("+"), il(1)), L("ret", V_("mc"))})); ex = V_("mf"); break;
		case K_LAZY: {
			if (i + 1 >= n) { k.push_back(fn_("mf", "ma", {L("ret", V_("ma"))})); ex = V_("mf"); break; }
			int j = (int)r.range(i + 1, n - 1); std::vector<N> b{L("let", A("lz"), L("req", S(name(j))))};
			int kd = real_kind(j);
			b.push_back(L("ret", kd == K_FN || kd == K_ERR || kd == K_LAZY ? L("call", V_("lz"), V_("ma")) : kd == K_LIST ? L("len", V_("lz")) : V_("ma")));
			k.push_back(fn_("mf", "ma", b)); ex = V_("mf"); break; }
		case K_RE: ex = i + 1 < n ? L("req", S(name(i + 1))) : il(4); break;
		default: k.push_back(fn_("mf", "ma", {L("let", A("mb"), BIN("*", V_("ma"), il(2))), L("ret", lam("mz", BIN("+", BIN("+", V_("mb"), V_("mz")), V_("mc"))))})); ex = V_("mf"); break;
		}
		if (fate != 2) k.push_back(L("export", ex)); else k.push_back(L("echo", S("no export")));
		if (fate != 2 && r.chance(10)) k.push_back(L("echo", S("after export")));
		return L(k);
	}
};
static const char *TAILS[] = {"let = 3;", "fn () {", "nosuchname = 1;", "let q9 = [1, 2;", "echo 'unclosed", "/* unclosed", "if { };", "return 5;", "break;", "}", "x + ;", "if true { export 1; };", "let m9 = 1; let m9 = 2;", "echo nosuchname;", "@", "fn f9() { export 1; };"};
N gen_C10(Rng &r, int tier) {
	std::vector<N> k{A("plan")};
	gen_knobs(r, k);
	int n = (int)r.range(1, tier ? 6 : 4);
	ModGen g{r, n, {}, tier};
	for (int i = 0; i < n; i++) g.kind.push_back((int)r.range(0, K_N - 1));
	// module files
	std::vector<N> mods{A("mods")};
	int pbad = r.chance(40) ? 0 : (int)r.range(5, 40);
	for (int i = 0; i < n; i++) {
		static const int W[] = {0, 0, 0, 0, 0, 0, 1, 1, 2, 3};   // ./, library, both, as named
		int where = W[r.next() % 10];
		for (int copy = 0; copy < 2; copy++) {
			std::string path = copy ? LIBDIR + g.name(i) + ".yasl" : "./" + g.name(i) + ".yasl";
			if (copy == 0 && where == 1) continue;
			if (copy == 1 && (where == 0 || where == 3)) continue;
			if (where == 3) path = g.name(i);
			int fate = 0;
			if (r.chance(pbad)) fate = (int)r.range(1, 6);
			N body = g.module(i, fate);
			if (fate == 3) mods.push_back(L("mod", S(path), A("tail"), body, I(r.range(0, (int64_t)(sizeof TAILS / sizeof *TAILS) - 1)), I(r.range(0, 30))));
			else if (fate == 4) mods.push_back(L("mod", S(path), A("cut"), body, I(r.range(0, 4000))));
			else if (fate == 5) mods.push_back(L("mod", S(path), A("tail"), L("prog"), I(-1), I(0)));   // empty file
			else if (fate == 6) { if (r.chance(50)) continue; mods.push_back(L("mod", S(path), A("ok"), body)); }   // missing
			else mods.push_back(L("mod", S(path), A("ok"), body));
		}
	}
	k.push_back(L(mods));
	// native modules: (nat name place kind), kind 0 int 1 list 2 fails 3 has no entry point
	std::vector<N> nats{A("nats")};
	bool nat = r.chance(25);
	if (nat) { for (int i = (int)r.range(1, 3); i > 0; i--) nats.push_back(L("nat", S("nat" + std::to_string(r.range(0, 1))), I(r.range(0, 4)), I(r.chance(80) ? r.range(0, 1) : r.range(2, 3)))); k.push_back(L(nats)); }
	// entries
	std::vector<N> el{A("entries")};
	int ne = (int)r.range(1, 4);
	std::vector<int> gk(3, -1);   // kinds held by the host globals g0..g2
	std::vector<std::pair<std::string, int>> tops;   // REPL variables
	for (int e = 0; e < ne; e++) {
		bool repl = r.chance(30);
		std::vector<N> ins;
		int nu = (int)r.range(1, tier ? 6 : 4);
		auto gk0 = gk; auto tops0 = tops;
		for (int u = 0; u < nu; u++) {
			int j = r.chance(96) ? (int)r.range(0, n - 1) : -1;
			int kd = j < 0 ? K_INT : g.real_kind(j);
			N rq = L("req", S(j < 0 ? std::string("nosuch") : g.name(j)));
			std::vector<N> b; std::string v = g.fresh();
			if (nat && r.chance(40)) { ins.push_back(X_(H_("hemit", {L("reqc", S(r.chance(90) ? "nat" + std::to_string(r.range(0, 1)) : std::string("nosuch")))}))); if (r.chance(50)) continue; }
			switch (r.range(0, repl ? 8 : 7)) {
			case 0: case 1: b.push_back(L("let", A(v), rq)); g.use(b, V_(v), kd, true); if (r.chance(30)) { std::string v2 = g.fresh(); b.push_back(L("let", A(v2), rq)); g.use(b, V_(v2), kd, true); g.use(b, V_(v), kd, true); } ins.push_back(L("if", L("b", I(1)), do_(b))); break;
			case 2: { b.push_back(L("let", A(v), rq)); g.use(b, V_(v), kd, true); std::string i = g.fresh(); ins.push_back(L("fori", A(i), il(0), il(r.range(1, 3)), il(1), do_(b))); break; }
			case 3: { std::string f = g.fresh(), p = g.fresh(); b.push_back(L("let", A(v), rq)); g.use(b, V_(v), kd, true); b.push_back(L("ret", V_(p))); std::vector<N> bb{X_(H_("hemit", {r.chance(50) ? L("call", V_(f), il(3)) : H_("hcall", {V_(f), il(3)})}))}; std::vector<N> o{fn_(f.c_str(), p.c_str(), b)}; if (r.chance(30)) bb.push_back(bb[0]); o.insert(o.end(), bb.begin(), bb.end()); ins.push_back(L("if", L("b", I(1)), do_(o))); break; }
			case 4: { int q = (int)r.range(0, 2); ins.push_back(X_(H_("hsetg", {S("g" + std::to_string(q)), rq}))); gk[q] = kd; break; }
			case 5: { int q = (int)r.range(0, 2); if (gk[q] >= 0) { g.use(b, V_("g" + std::to_string(q)), gk[q], true); ins.push_back(L("if", L("b", I(1)), do_(b))); } break; }
			case 6: { std::string x = g.fresh(); ins.push_back(X_(H_("hemit", {L("len", L("ls", il(1), S("two"), rq))}))); ins.push_back(L("for", A(x), L("ls", il(1), il(2)), do_({L("let", A(v), rq), X_(H_("hemit", {V_(x)}))}))); break; }
			case 7: ins.push_back(X_(H_("hemit", {H_("hid", {BIN("==", rq, rq)})}))); break;
			default: if (r.chance(50) || tops.empty()) { ins.push_back(L("let", A(v), rq)); tops.push_back({v, kd}); } else { auto &t = r.pick(tops); g.use(b, V_(t.first), t.second, true); ins.push_back(L("if", L("b", I(1)), do_(b))); } break;
			}
		}
		N p;
		if (repl) { std::vector<N> b{A("prog")}; b.insert(b.end(), ins.begin(), ins.end()); b.push_back(L("echo", il(0))); p = L(b); }
		else { GenCfg c = swarm(r, 0); c.globals = false; c.stmts = (int)r.range(1, 8); c.errors = c.errors && r.chance(30); Model m; p = gen_prog(r, c, 6, &m); for (auto &s : ins) { p->k.insert(p->k.begin() + r.range(1, (int64_t)p->k.size()), s); } }
		// order matters for REPL variables: keep only what the model can run
		std::vector<N> en{A(repl ? "e" : "x")}; en.insert(en.end(), p->k.begin() + 1, p->k.end());
		el.push_back(L(en));
	}
	if (r.chance(4)) { el.push_back(L("cyc", I(r.range(1, 4)), I(r.range(0, 2)))); el.push_back(L("x", X_(H_("hemit", {L("req", S(g.name(0)))})))); }
	k.push_back(L(el));
	if (r.chance(25)) gen_aborts(r, k, 12, 100);
	if (r.chance(35)) {
		std::vector<N> fl{A("faults")};
		int i = (int)r.range(0, n - 1);
		std::string path = r.chance(75) ? "./" + g.name(i) + ".yasl" : LIBDIR + g.name(i) + ".yasl";
		int64_t sticky = r.chance(40) ? -1 : 0;
		if (r.chance(40)) { fl.push_back(L("open-fail", S(path), I(r.range(1, 3)), I(0), I(sticky))); if (r.chance(30)) fl.push_back(L("open-fail", S(r.chance(50) ? g.name(i) : LIBDIR + g.name(i) + ".yasl"), I(r.range(1, 2)), I(0), I(0))); }
		else if (r.chance(80)) fl.push_back(L("read-err", S(path), I(r.range(1, r.chance(60) ? 2 : 60)), I(0), I(sticky)));
		else fl.push_back(L("seek-fail", S(path), I(r.range(1, 60)), I(0), I(sticky)));
		if (nat && r.chance(40)) fl.push_back(L("dlopen-fail", S("*"), I(r.range(1, 12))));
		k.push_back(L(fl));
	}
	if (r.chance(60)) { std::vector<N> ch{A("chunks")}; int q = (int)r.range(1, 4); for (int i = 0; i < q; i++) ch.push_back(I(r.range(1, 80))); k.push_back(L(ch)); }
	if (r.chance(40)) k.push_back(L("bufsize", I(r.pick(std::vector<int64_t>{0, 1, 7, 64, 300}))));
	return L(k);
}
struct Snap { int status = 0; size_t trace = 0; std::string out; std::string globals; };
static N stmts_of(const N &e) { std::vector<N> k{A("prog")}; k.insert(k.end(), e->k.begin() + 1, e->k.end()); return L(k); }
void run_C10(const N &plan) {
	N el = find(plan, "entries"), ml = find(plan, "mods");
	if (!el || el->size() < 2 || !ml) discard("no entries");
	std::vector<N> es(el->k.begin() + 1, el->k.end());
	// the disk
	struct File { N ast; bool bad; };
	std::map<std::string, File> files;
	for (size_t i = 1; i < ml->size(); i++) {
		N m = ml->k[i];
		if (!m->is("mod") || m->size() < 4) continue;
		const std::string &path = m->k[1]->a;
		N body = m->k[3];
		std::string text = render(body); bool bad = false;
		if (m->k[2]->a == "tail" && m->size() > 5) {
			int64_t t = m->k[4]->num(); bad = true;
			if (t >= 0) { N a = L(body->k), b = L("prog"); int64_t at = llabs(m->k[5]->num()) % (int64_t)a->k.size(); for (size_t q = 1 + (size_t)at; q < body->size(); q++) b->k.push_back(body->k[q]); a->k.resize(std::min(a->k.size(), 1 + (size_t)at)); text = render(a) + TAILS[t % (int64_t)(sizeof TAILS / sizeof *TAILS)] + "\n" + (t == 4 || t == 5 ? "" : render(b)); }
			fired(F_MOD_FAIL);
		} else if (m->k[2]->a == "cut" && m->size() > 4) {
			size_t c = (size_t)llabs(m->k[4]->num()) % (text.size() + 1), q = 0;
			for (; q <= text.size(); q++) if (open_at_end(text.substr(0, (c + q) % (text.size() + 1)))) break;
			if (q > text.size()) discard("nowhere to cut");
			text = text.substr(0, (c + q) % (text.size() + 1)); bad = true; fired(F_SRC_TRUNC);
		}
		w.disk[path].data = text;
		files[path] = {body, bad};
		logf_("%s%s:", path.c_str(), bad ? " (broken)" : ""); logs(text);
	}
	std::map<std::string, int> nats;
	if (N nl = find(plan, "nats")) for (size_t i = 1; i < nl->size(); i++) {
		N x = nl->k[i]; if (x->size() < 4) continue;
		int wh = (int)(llabs(x->k[2]->num()) % 5), kd = (int)(llabs(x->k[3]->num()) % 4); std::string p = nat_path(wh, x->k[1]->a);
		if (!nats.insert({p, kd * 8 + wh}).second) continue;
		sim_dl_register(p.c_str(), kd == 3 ? "YASL_load_something_else" : "YASL_load_dyn_lib", kd == 2 ? (void *)nat_throw : NATF[kd & 1][wh]);
		logf_("native %s kind %d", p.c_str(), kd);
	}
	for (auto &e : es) if (e->is("cyc")) {
		int64_t n = 1 + llabs(e->k[1]->num()) % 4;
		for (int64_t i = 0; i < n; i++) w.disk["./cyc" + std::to_string(i) + ".yasl"].data = "let c" + std::to_string(i) + " = require('cyc" + std::to_string((i + 1) % n) + "');\nexport c" + std::to_string(i) + ";\n";
	}
	// the real thing, entry by entry
	Actor a; a.hvals = fresh_hvals();
	a.abort_at = getnum(plan, "abort-at", -1); a.abort_status = (int)getnum(plan, "abort-status", 2); a.abort_print = getnum(plan, "abort-print", 0);
	set_step_budget(60000000);
	a.open_buf(""); a.libs();
	YASL_State *S = a.S;
	// what the host keeps in the tables of the libraries, and a metatable of its own
	static const char *LIBT[] = {"math", "io", "collections"};
	for (auto t : LIBT) { if (YASL_loadglobal(S, t) != YASL_SUCCESS || !YASL_istable(S)) discard("no library table"); YASL_pushlit(S, "hostmark"); YASL_pushint(S, 42); YASL_tableset(S); YASL_pop(S); }
	YASL_pushtable(S); YASL_pushlit(S, "hostmark"); YASL_pushint(S, 43); YASL_tableset(S); YASL_registermt(S, "hostmt");
	auto marked = [&](int64_t want) {
		int64_t found = -1; YASL_pushundef(S);
		while (YASL_tablenext(S)) {
			int64_t v = YASL_isint(S) ? YASL_peekint(S) : -2;
			YASL_pop(S);
			if (YASL_isstr(S) && top_bytes(S) == "hostmark") found = v;
		}
		return found == want;
	};
	std::vector<Snap> snaps;
	size_t i = 0;
	for (auto &e : es) {
		i++;
		std::string src = e->is("cyc") ? "let z9 = require('cyc" + std::to_string(llabs(e->k[2]->num()) % (1 + llabs(e->k[1]->num()) % 4)) + "');\nhemit(z9);" : render(stmts_of(e));
		logf_("entry %zu (%s)", i, e->head().c_str()); logs(src);
		if (YASL_resetstate_bb(S, src.data(), src.size()) != YASL_SUCCESS) violation("reset-status", "entry %zu", i);
		fired(F_RESET);
		int st = e->is("e") ? YASL_execute_REPL(S) : YASL_execute(S);
		Snap s; s.status = st; s.trace = a.trace.size(); s.out = a.capture();
		logf_("-> %d", st); logs(s.out); logs(a.errtext());
		for (auto g : {"g0", "g1", "g2"}) { std::string d; if (!a.get(g, d)) violation("global-lost", "entry %zu: %s", i, g); s.globals += std::string(g) + "=" + d + " "; }
		for (auto t : LIBT) { if (YASL_loadglobal(S, t) != YASL_SUCCESS) violation("global-lost", "entry %zu: %s", i, t); if (!YASL_istable(S) || !marked(42)) violation("library-replaced", "entry %zu: what the host put into `%s` is gone", i, t); YASL_pop(S); }
		if (YASL_loadmt(S, "hostmt") != YASL_SUCCESS || !YASL_istable(S) || !marked(43)) violation("metatable-replaced", "entry %zu: the host's metatable is gone", i);
		YASL_pop(S);
		for (auto &o : w.opens) if (o.open) violation("left-open", "entry %zu: %s is still open", i, o.path.c_str());
		if (e->is("cyc")) probe("modules requiring each other in a circle");
		if (st && a.errtext().empty() && a.abort_at < 0 && show(e).find("hthrow") == std::string::npos) violation("unreported", "entry %zu failed with %d, but nothing was reported", i, st);
		snaps.push_back(s);
	}
	std::vector<std::string> opened; for (auto &o : w.opens) opened.push_back(o.path);
	// the model, with every way in which the injected device failure may have been noticed
	N fl = find(plan, "faults");
	std::string fpath; bool fsticky = false, devfault = false;
	std::vector<N> openfails; std::set<int64_t> dlfails;
	if (fl) for (size_t q = 1; q < fl->size(); q++) {
		if (fl->k[q]->size() < 3) continue;
		if (fl->k[q]->is("open-fail")) openfails.push_back(fl->k[q]);
		else if (fl->k[q]->is("dlopen-fail")) dlfails.insert(fl->k[q]->k[2]->num());
		else { devfault = true; fpath = fl->k[q]->k[1]->a; fsticky = fl->k[q]->size() > 4 && fl->k[q]->k[4]->num() < 0; }
	}
	bool fired_dev = sh->faults[F_READ_ERR] + sh->faults[F_SEEK_FAIL] > 0;
	if (!fired_dev) devfault = false;
	bool cyclic = false; std::string why; std::string whycls; bool ok = false; int64_t nloads = 0;
	int64_t maxload = devfault ? 14 : 0;
	for (int64_t failat = 0; failat <= maxload && !ok; failat++) {
		// 0: nothing was noticed.  With a read that fails for good that is not an option.
		if (!failat && devfault && fsticky && sh->faults[F_READ_ERR]) continue;
		Model m; std_hvals(m);
		m.abort_at = a.abort_at; m.abort_status = a.abort_status;
		std::map<std::string, int64_t> nopen; std::map<size_t, bool> used; std::vector<std::string> want_open; int64_t ploads = 0;
		m.find_module = [&](const std::string &nm) -> N {
			for (int q = 0; q < 3; q++) {
				std::string path = q == 0 ? LIBDIR + nm + ".yasl" : q == 1 ? "./" + nm + ".yasl" : nm;
				int64_t nth = ++nopen[path]; bool fail = false;
				for (size_t z = 0; z < openfails.size(); z++) { N f = openfails[z]; if (f->k[1]->a != path) continue; if (f->k[2]->num() == nth) { fail = true; used[z] = true; } else if (used[z] && f->size() > 4 && f->k[4]->num() < 0) fail = true; }
				auto it = files.find(path);
				if (fail || it == files.end()) continue;
				want_open.push_back(path);
				if (path == fpath) { ploads++; if (failat && (fsticky ? ploads >= failat : ploads == failat)) return nullptr; }
				return it->second.bad ? nullptr : it->second.ast;
			}
			return nullptr;
		};
		int64_t ndl = 0;
		m.find_native = [&](const std::string &nm) -> V {
			for (int q = 0; q < 5; q++) {
				auto it = nats.find(nat_path(q, nm)); bool fail = dlfails.count(++ndl) != 0;
				if (it == nats.end() || fail) continue;
				int kd = it->second / 8;
				if (kd >= 2) throw ScriptErr{7};
				probe("native module loaded");
				return kd ? m.listv({V::In(q)}) : V::In(70 + q);
			}
			throw ScriptErr{7};
		};
		std::string bad, cls;
		try {
			for (size_t q = 0; q < es.size(); q++) {
				int st;
				if (es[q]->is("cyc")) st = 2; else st = m.run_entry(stmts_of(es[q]), es[q]->is("e"));
				const Snap &s = snaps[q];
				std::string gl; for (auto g : {"g0", "g1", "g2"}) gl += std::string(g) + "=" + dump(m.globals[g]) + " ";
				char pre[32]; snprintf(pre, sizeof pre, "entry %zu: ", q + 1);
				std::vector<std::string> got(a.trace.begin(), a.trace.begin() + (long)s.trace);
				if (m.trace != got) { cls = "trace"; size_t d = 0; while (d < got.size() && d < m.trace.size() && got[d] == m.trace[d]) d++; bad = pre + std::string("host call ") + std::to_string(d) + ": want " + (d < m.trace.size() ? m.trace[d] : "none") + " got " + (d < got.size() ? got[d] : "none"); break; }
				if (st != s.status) { cls = "status"; bad = pre + std::string("want status ") + std::to_string(st) + ", got " + std::to_string(s.status); break; }
				if (m.out != s.out) { cls = "output"; bad = pre + first_diff(m.out, s.out); break; }
				if (gl != s.globals) { cls = "global"; bad = pre + std::string("want ") + gl + "got " + s.globals; break; }
				if (st == 2) probe("entry ended by a failing require"); else if (st) probe("entry failed otherwise");
			}
		} catch (Abandon &ab) { discard(ab.why); }
		if (bad.empty()) {
			std::vector<std::string> got; for (auto &o : opened) if (o.find("cyc") == std::string::npos) got.push_back(o);
			if (got != want_open) { cls = "search-path"; size_t d = 0; while (d < got.size() && d < want_open.size() && got[d] == want_open[d]) d++; bad = "load " + std::to_string(d + 1) + ": want " + (d < want_open.size() ? want_open[d] : "none") + " got " + (d < got.size() ? got[d] : "none"); }
		}
		if (m.cyclic) cyclic = true;
		nloads = m.loads;
		if (bad.empty()) { ok = true; if (failat) probe("load ended by a device error"); else if (devfault) probe("load survived a device error"); }
		else if (why.empty()) { why = bad; whycls = cls; }
	}
	if (!ok) violation(whycls.c_str(), "%s%s", why.c_str(), maxload ? " (nor does any point of failure of the device explain it)" : "");
	if (!nloads) probe("nothing loaded"); else probe(nloads > 4 ? "many modules loaded" : "modules loaded");
	a.close();
	if (!cyclic) a.check_objs("end of session");
	check_no_leak("end of session", cyclic);
	sh->nontrivial = sh->loghash | 1;
	finish_ok();
}
