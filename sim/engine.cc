#include "engine.h"
#include <algorithm>
// ---------------- shared pieces ----------------
GenCfg swarm(Rng &r, int tier) {
	GenCfg c;
	c.closures = r.chance(80); c.loops = r.chance(85); c.sets = r.chance(60); c.tables = r.chance(80); c.strings = r.chance(80); c.objs = r.chance(50); c.globals = r.chance(50);
	c.errors = r.chance(50); c.illtyped = r.chance(20) ? 15 : 0; c.hcall = r.chance(30); c.multi = r.chance(30); c.match = r.chance(40);
	c.stmts = (int)r.range(4, tier ? 26 : 18); c.maxdepth = (int)r.range(2, 4); c.big = r.chance(15);
	return c;
}
void std_hvals(Model &m) {
	m.hvals = {V::In(7), V::St("host"), V::F(2.5), V::B(true), m.listv({V::In(1), V::In(2), V::In(3)}), V()};
	V t = m.tablev(); m.rawset(*t.o, V::St("hk"), V::In(5)); m.hvals.push_back(t);
	for (auto g : {"g0", "g1", "g2"}) m.globals[g] = V();
}
void gen_knobs(Rng &r, std::vector<N> &k) {
	static const int64_t fills[] = {0xAA, 0xCC, 0x00, 0xFF, 0x5B};
	k.push_back(L("fill", I(fills[r.next() % 5])));
}
N gen_prog(Rng &r, GenCfg &c, int tries, Model *out, std::function<void(Model &)> prep) {
	N last;
	for (int i = 0; i < tries; i++) {
		GenCfg c2 = c;
		Gen g(r, c2);
		N p = g.program();
		Model m; std_hvals(m); if (prep) prep(m);
		try { m.run(p); } catch (Abandon &) { last = nullptr; continue; }
		if (out) *out = m;
		return p;
	}
	return L("prog", X_(H_("hemit", {L("i", I(1))})));
}
std::vector<V> fresh_hvals() { Model m; std_hvals(m); return m.hvals; }
void gen_aborts(Rng &r, std::vector<N> &k, int64_t hostcalls, int pct) {
	if (hostcalls <= 0 || !r.chance(pct)) return;
	k.push_back(L("abort-at", I(r.range(1, hostcalls))));
	k.push_back(L("abort-status", I(r.range(2, 11))));
	k.push_back(L("abort-print", I(r.range(0, 1))));
}
N insert_stmts(Rng &r, const N &prog, const std::vector<N> &stmts) {
	N p = L(prog->k);
	for (auto &s : stmts) p->k.insert(p->k.begin() + r.range(1, (int64_t)p->k.size()), s);
	return p;
}
bool Case::prepare(const N &holder, const N &prog, std::function<void(Model &)> prep) {
	spec = prog;
	std_hvals(m); if (prep) prep(m);
	m.abort_at = getnum(holder, "abort-at", -1); m.abort_status = (int)getnum(holder, "abort-status", 2);
	try { m.run(prog); for (auto g : {"g0", "g1", "g2"}) dump(m.globals[g]); } catch (Abandon &a) { return false; }
	src = render(prog);
	a.hvals = fresh_hvals();
	a.abort_at = m.abort_at; a.abort_status = m.abort_status; a.abort_print = getnum(holder, "abort-print", 0);
	return true;
}
void Case::start(bool from_file, const std::string &path) {
	if (from_file) { if (!a.open_file(path)) violation("open", "a source file that exists could not be opened"); }
	else a.open_buf(src);
	a.libs();
}
void Case::judge(const char *who) {
	logf_("%s status %d %s", who, a.status, a.S ? a.errtext().c_str() : "");
	compare_traces(who, m.trace, a.trace);
	if (a.status != m.status) violation("status", "%s: want status %d, got %d", who, m.status, a.status);
	std::string out = a.capture();
	logs(out);
	if (out != m.out) violation("output", "%s: %s", who, first_diff(m.out, out).c_str());
	for (auto g : {"g0", "g1", "g2"}) { std::string d; if (!a.get(g, d)) violation("global-lost", "%s: %s", who, g); if (d != dump(m.globals[g])) violation("global", "%s: %s: want %s got %s", who, g, dump(m.globals[g]).c_str(), d.c_str()); }
}
void Case::finish(const char *who) { a.close(); if (!m.cyclic) a.check_objs(who); }

// ---------------- C03: host aborts ----------------
N gen_C03(Rng &r, int tier) {
	GenCfg c = swarm(r, tier);
	Model m;
	N p;
	if (r.chance(30)) for (int i = 0; i < 4 && !p; i++) {
		p = gen_failing_containers(r, tier);
		Model m2; std_hvals(m2);
		try { m2.run(p); m = m2; } catch (Abandon &) { p = nullptr; }
	}
	int pct = p ? 30 : 70;
	if (!p) p = gen_prog(r, c, 8, &m);
	std::vector<N> k{A("plan"), p};
	gen_knobs(r, k);
	gen_aborts(r, k, m.hostcalls, pct);
	return L(k);
}
void run_C03(const N &plan) {
	N p = find(plan, "prog");
	if (!p) discard("no program");
	Case c;
	if (!c.prepare(plan, p)) discard("model");
	logs(c.src);
	set_step_budget(60000000);
	c.start();
	c.a.run();
	c.judge("run");
	c.finish("end");
	check_no_leak("end", c.m.cyclic);
	sh->nontrivial = sh->loghash | 1;
	finish_ok();
}
#define E(id) {#id, gen_##id, run_##id}
const std::vector<Engine> engines = {E(C01), E(C02), E(C03), E(C04), E(C05), E(C06), E(C07), E(C08), E(C09), E(C10), E(C11), E(C13), E(C12), E(C14), E(C15), E(C16), E(C17), E(C18)};
const Engine *find_engine(const std::string &id) { for (auto &e : engines) if (id == e.id) return &e; return nullptr; }
