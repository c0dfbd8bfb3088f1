#include "rt.h"
#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <ctime>
#include <dlfcn.h>
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
#include <sys/time.h>
#include <ucontext.h>
#include <unistd.h>

Shared *sh;
World w;
extern "C" { FILE *sim_stdin, *sim_stdout, *sim_stderr; }

const char *fault_names[F_N] = {"open_fail", "read_err", "read_short", "write_err", "write_short", "enospc", "seek_fail", "close_fail",
	"crash", "host_abort", "context_switch", "source_truncated", "source_flipped", "source_duplicated", "adversarial_draw", "clock_jump", "module_failure",
	"stack_exhaustion", "callback", "nested_run", "input_eof", "failed_step", "mutation_during_iteration", "use_after_close", "early_teardown", "reset",
	"dl_failure", "output_err"};

// ================= plan =================
N A(const std::string &s) { auto n = std::make_shared<Node>(); n->a = s; return n; }
N S(const std::string &s) { auto n = std::make_shared<Node>(); n->a = s; n->str = true; return n; }
N I(int64_t v) { return A(std::to_string(v)); }
N L(std::vector<N> v) { auto n = std::make_shared<Node>(); n->list = true; n->k = std::move(v); return n; }
static void esc(const std::string &s, std::string &o) {
	o += '"';
	for (unsigned char c : s) {
		char b[8];
		if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
		else if (c == '\n') o += "\\n";
		else if (c < 32 || c >= 127) { snprintf(b, 8, "\\x%02x", c); o += b; }
		else o += (char)c;
	}
	o += '"';
}
static size_t width(const N &n) {
	if (!n->list) return n->a.size() + (n->str ? 2 : 0);
	size_t t = 2;
	for (auto &c : n->k) { t += width(c) + 1; if (t > 200) return t; }
	return t;
}
void show(const N &n, std::string &o, int ind) {
	if (!n->list) { if (n->str) esc(n->a, o); else o += n->a; return; }
	bool flat = width(n) <= 100;
	o += '(';
	for (size_t i = 0; i < n->k.size(); i++) {
		if (i) { if (flat || (i == 1 && !n->k[i]->list)) o += ' '; else { o += '\n'; o.append(ind + 2, ' '); } }
		show(n->k[i], o, ind + 2);
	}
	o += ')';
}
std::string show(const N &n) { std::string o; show(n, o, 0); return o; }
static N parse1(const char *&p) {
	while (*p && (isspace((unsigned char)*p) || *p == ';')) { if (*p == ';') while (*p && *p != '\n') p++; else p++; }
	if (!*p) return nullptr;
	if (*p == '(') {
		p++;
		auto n = L(std::vector<N>{});
		for (;;) {
			while (*p && (isspace((unsigned char)*p) || *p == ';')) { if (*p == ';') while (*p && *p != '\n') p++; else p++; }
			if (*p == ')') { p++; return n; }
			N c = parse1(p);
			if (!c) { fprintf(stderr, "plan: unterminated list\n"); _exit(3); }
			n->k.push_back(c);
		}
	}
	if (*p == '"') {
		p++;
		std::string s;
		while (*p && *p != '"') {
			if (*p == '\\') {
				p++;
				if (*p == 'n') s += '\n';
				else if (*p == 'x') { char b[3] = {p[1], p[2], 0}; s += (char)strtol(b, nullptr, 16); p += 2; }
				else s += *p;
				p++;
			} else s += *p++;
		}
		if (*p) p++;
		return S(s);
	}
	std::string s;
	while (*p && !isspace((unsigned char)*p) && *p != '(' && *p != ')') s += *p++;
	return A(s);
}
N parse(const std::string &s) { const char *p = s.c_str(); return parse1(p); }
N find(const N &plan, const char *h) { for (auto &c : plan->k) if (c->is(h)) return c; return nullptr; }
std::vector<N> findall(const N &plan, const char *h) { std::vector<N> r; for (auto &c : plan->k) if (c->is(h)) r.push_back(c); return r; }
int64_t getnum(const N &plan, const char *h, int64_t d) { N n = find(plan, h); return n && n->size() > 1 ? n->k[1]->num() : d; }
std::string getstr(const N &plan, const char *h, const std::string &d) { N n = find(plan, h); return n && n->size() > 1 ? n->k[1]->a : d; }

// ================= probes =================
static std::vector<std::string> &pnames() { static std::vector<std::string> v; return v; }
int probe_id(const char *name) {
	auto &v = pnames();
	for (size_t i = 0; i < v.size(); i++) if (v[i] == name) return (int)i;
	if (v.size() >= 64) return 63;
	v.push_back(name);
	return (int)v.size() - 1;
}
const char *probe_name(int i) { return pnames()[i].c_str(); }
int probe_count() { return (int)pnames().size(); }

// ================= log and verdicts =================
static uint64_t fnv(uint64_t h, const char *p, size_t n) { for (size_t i = 0; i < n; i++) { h ^= (unsigned char)p[i]; h *= 1099511628211ull; } return h; }
void logs(const std::string &s) {
	sh->loghash = fnv(sh->loghash ? sh->loghash : 1469598103934665603ull, s.data(), s.size());
	sh->loghash = fnv(sh->loghash, "\n", 1);
	if (sh->loglen + s.size() + 2 < sizeof sh->log) {
		memcpy(sh->log + sh->loglen, s.data(), s.size());
		sh->loglen += s.size();
		sh->log[sh->loglen++] = '\n';
		sh->log[sh->loglen] = 0;
	}
}
void logf_(const char *fmt, ...) {
	char b[4096];
	va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
	logs(b);
}
static uint64_t g_steps;
uint64_t steps() { return g_steps; }
[[noreturn]] static void done(int st) {
	sh->steps = g_steps;
	sh->status = st;
	_exit(0);
}
void violation(const char *cls, const char *fmt, ...) {
	va_list a; va_start(a, fmt);
	snprintf(sh->vclass, sizeof sh->vclass, "%s", cls);
	vsnprintf(sh->msg, sizeof sh->msg, fmt, a);
	va_end(a);
	done(ST_VIOLATION);
}
void discard(const char *why) { snprintf(sh->msg, sizeof sh->msg, "%s", why); done(ST_DISCARD); }
void finish_ok() { done(ST_OK); }
void harness_error(const char *fmt, ...) {
	va_list a; va_start(a, fmt); vsnprintf(sh->msg, sizeof sh->msg, fmt, a); va_end(a);
	done(ST_ERROR);
}

// ================= coverage, steps, preemption =================
static uint64_t g_next_event = ~0ull, g_budget = ~0ull, g_next_switch = ~0ull;
static void slow_event();
extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) {
	static uint32_t n;
	if (a == b || *a) return;
	for (uint32_t *p = a; p < b; p++) *p = ++n;
	extern uint32_t g_nguards;
	g_nguards = n;
}
uint32_t g_nguards;
extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t *g) {
	if (!sh) return;
	sh->edges[*g & 0xffff] = 1;
	if (++g_steps >= g_next_event) slow_event();
}
static void arm() { g_next_event = g_budget < g_next_switch ? g_budget : g_next_switch; }
void set_step_budget(uint64_t n) { g_budget = n == 0 ? ~0ull : g_steps + n; arm(); }

// ================= fibers =================
struct Fiber { ucontext_t uc; char *stack = nullptr; size_t size = 0; void *fake = nullptr; std::function<void()> body; bool done = false; };
static std::vector<Fiber> fibs;
static ucontext_t main_uc; static void *main_fake; static const void *main_bottom; static size_t main_size;
static int cur = -1;
static std::vector<std::pair<uint64_t, int>> g_switches; static size_t g_swpos; static int g_reslice;
static void sched_next() {
	if (g_swpos < g_switches.size()) g_next_switch = g_steps + g_switches[g_swpos].first;
	else if (g_reslice > 0) g_next_switch = g_steps + g_reslice;
	else g_next_switch = ~0ull;
	arm();
}
static void switch_to(int to) {
	if (to == cur) return;
	int from = cur;
	cur = to;
	ucontext_t *fu = from < 0 ? &main_uc : &fibs[from].uc;
	void **fk = from < 0 ? &main_fake : &fibs[from].fake;
	bool dying = from >= 0 && fibs[from].done;
	if (to < 0) __sanitizer_start_switch_fiber(dying ? nullptr : fk, main_bottom, main_size);
	else __sanitizer_start_switch_fiber(dying ? nullptr : fk, fibs[to].stack, fibs[to].size);
	swapcontext(fu, to < 0 ? &main_uc : &fibs[to].uc);
	__sanitizer_finish_switch_fiber(from < 0 ? main_fake : fibs[from].fake, nullptr, nullptr);
}
static int pick_runnable(int want) {
	int n = (int)fibs.size();
	for (int i = 0; i < n; i++) { int c = (want + i) % n; if (!fibs[c].done) return c; }
	return -1;
}
static void tramp() {
	const void *b; size_t sz;
	__sanitizer_finish_switch_fiber(nullptr, &b, &sz);
	if (!main_bottom) { main_bottom = b; main_size = sz; }
	int me = cur;
	fibs[me].body();
	fibs[me].done = true;
	int nx = pick_runnable(me + 1);
	switch_to(nx);
	abort();
}
static void do_switch() {
	int want;
	if (g_swpos < g_switches.size()) want = g_switches[g_swpos++].second;
	else want = cur + 1;
	int to = pick_runnable(((want % (int)fibs.size()) + (int)fibs.size()) % (int)fibs.size());
	sched_next();
	if (to >= 0 && to != cur) { fired(F_SWITCH); switch_to(to); }
}
static void slow_event() {
	if (g_steps >= g_budget) {
		g_budget = ~0ull; arm();
		if (w.on_limit) w.on_limit("steps");
		char stack[6000] = "";
		void *pc = __builtin_return_address(0);
		__sanitizer_symbolize_pc(pc, "%f %s:%l", stack, sizeof stack);
		violation("hang", "no end of run within the step budget (%llu edges); executing in %s", (unsigned long long)g_steps, stack);
	}
	if (g_steps >= g_next_switch && cur >= 0) do_switch();
	else if (g_steps >= g_next_switch) { g_next_switch = ~0ull; arm(); }
}
int fiber_current() { return cur; }
void fiber_yield_point() { if (cur >= 0 && fibs.size() > 1 && g_steps >= g_next_switch) do_switch(); }
void fiber_run(std::vector<std::function<void()>> bodies, const std::vector<std::pair<uint64_t, int>> &sw, int reslice) {
	fibs.clear(); fibs.resize(bodies.size());
	g_switches = sw; g_swpos = 0; g_reslice = reslice;
	for (size_t i = 0; i < bodies.size(); i++) {
		Fiber &f = fibs[i];
		f.body = bodies[i]; f.size = 4 << 20; f.stack = (char *)aligned_alloc(4096, f.size);
		getcontext(&f.uc);
		f.uc.uc_stack.ss_sp = f.stack; f.uc.uc_stack.ss_size = f.size; f.uc.uc_link = nullptr;
		makecontext(&f.uc, tramp, 0);
	}
	sched_next();
	switch_to(0);
	g_next_switch = ~0ull; arm();
	for (auto &f : fibs) free(f.stack);
	cur = -1;
}

// ================= allocation seam =================
struct ARec { size_t size; uint64_t seq; void *pc; };
static void *pcs_of(void *a) { return a; }
static std::map<void *, ARec> *allocs() { static auto *m = new std::map<void *, ARec>; return m; }
static uint64_t a_seq; static int64_t a_bytes; static int a_fill = -1;
static const int64_t MEM_CAP = 400ll << 20;
static void *track(void *p, size_t n, void *pc) {
	if (!p) return p;
	(*allocs())[p] = ARec{n, ++a_seq, pcs_of(pc)};
	a_bytes += (int64_t)n;
	if (a_bytes > MEM_CAP) violation("runaway-memory", "more than %lld bytes live after %llu allocations", (long long)MEM_CAP, (unsigned long long)a_seq);
	return p;
}
static bool untrack(void *p) { auto it = allocs()->find(p); if (it == allocs()->end()) return false; a_bytes -= (int64_t)it->second.size; allocs()->erase(it); return true; }
int64_t live_allocs() { return (int64_t)allocs()->size(); }
int64_t live_bytes() { return a_bytes; }
void alloc_mark() { allocs()->clear(); a_bytes = 0; }
std::string first_leak() {
	ARec best{0, ~0ull, nullptr};
	for (auto &e : *allocs()) if (e.second.seq < best.seq) best = e.second;
	if (!best.pc) return "none";
	char b[400] = "";
	__sanitizer_symbolize_pc(best.pc, "%f %S", b, sizeof b);
	char r[512];
	snprintf(r, sizeof r, "%zu bytes from %s", best.size, b);
	return r;
}
extern "C" {
static void limit(size_t n) { if (w.mem_limit && (int64_t)n + live_bytes() > w.mem_limit) { w.mem_limit = 0; if (w.on_limit) w.on_limit("memory"); } }
void *sim_malloc(size_t n) {
	limit(n);
	if (n > (1ull << 30)) { errno = ENOMEM; return nullptr; }
	void *p = malloc(n);
	if (p && a_fill >= 0) memset(p, a_fill, n < 65536 ? n : 65536);
	return track(p, n, __builtin_return_address(0));
}
void *sim_calloc(size_t a, size_t b) {
	limit(b ? a > (1ull << 40) / b ? 1ull << 40 : a * b : 0);
	if (b && a > (1ull << 30) / b) { errno = ENOMEM; return nullptr; }
	return track(calloc(a, b), a * b, __builtin_return_address(0));
}
void *sim_realloc(void *p, size_t n) {
	limit(n);
	if (n > (1ull << 30)) { errno = ENOMEM; return nullptr; }
	size_t old = 0;
	if (p) { auto it = allocs()->find(p); if (it != allocs()->end()) old = it->second.size; }
	// Always move, so a stale pointer is seen as stale.
	if (n == 0 || !p) { if (p) untrack(p); void *q = realloc(p, n); return n == 0 && p ? q : track(q, n, __builtin_return_address(0)); }
	if (!old) { untrack(p); return track(realloc(p, n), n, __builtin_return_address(0)); }
	void *q = malloc(n);
	if (!q) return q;
	if (a_fill >= 0) memset(q, a_fill, n < 65536 ? n : 65536);
	memcpy(q, p, old < n ? old : n);
	untrack(p);
	free(p);
	return track(q, n, __builtin_return_address(0));
}
void *sim_reallocarray(void *p, size_t a, size_t b) { if (b && a > (1ull << 30) / b) return nullptr; return sim_realloc(p, a * b); }
void sim_free(void *p) { if (p) untrack(p); free(p); }
char *sim_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)track(malloc(n), n, __builtin_return_address(0)); memcpy(p, s, n); return p; }
char *sim_strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *p = (char *)track(malloc(n + 1), n + 1, __builtin_return_address(0)); memcpy(p, s, n); p[n] = 0; return p; }
}

// ================= simulated disk and streams =================
struct Cookie { int open_idx; std::string path; int64_t pos; bool rd, wr, app; std::string *mem; int std; char *buf; };
static std::map<std::string, int64_t> g_global_count;
static DevFault *dev_fault(const char *kind, const std::string &path, int64_t nth_file, int64_t nth_all) {
	for (auto &f : w.faults) {
		if (f.kind != kind) continue;
		if (f.path == "*" ? nth_all == f.nth : (f.path == path && nth_file == f.nth)) return &f;
		// sticky faults keep firing
		if (f.used && f.err < 0 && (f.path == "*" || f.path == path)) return &f;
	}
	return nullptr;
}
static void devop() {
	w.dev_ops++;
	sh->simtime_us += 100;
	if (w.on_devop) w.on_devop(w.dev_ops);
	if (w.crash_at >= 0 && w.dev_ops >= w.crash_at && w.on_crash) { fired(F_CRASH); w.crash_at = -1; w.on_crash(); }
}
static size_t chunk_pos;
static int64_t total_bytes() { int64_t t = 0; for (auto &e : w.disk) if (e.second.exists) t += (int64_t)e.second.data.size(); return t; }
static ssize_t ck_read(void *c_, char *buf, size_t n) {
	Cookie *c = (Cookie *)c_;
	devop();
	if (c->std == 0 || c->std > 0) {
		if (c->std != 1) { errno = EBADF; return -1; }
		int64_t nth = ++g_global_count["stdin"];
		if (DevFault *f = dev_fault("read-err", "<stdin>", nth, -1)) { f->used = true; fired(F_READ_ERR); errno = EIO; return -1; }
		size_t left = w.sin.size() - w.sin_pos;
		if (!left) { if (w.stdin_reads_after_eof++ == 0) fired(F_EOF); return 0; }
		size_t m = n < left ? n : left;
		if (!w.chunks.empty()) { size_t ch = (size_t)w.chunks[chunk_pos++ % w.chunks.size()]; if (ch < m) { m = ch; fired(F_READ_SHORT); } }
		memcpy(buf, w.sin.data() + w.sin_pos, m);
		w.sin_pos += m;
		return (ssize_t)m;
	}
	SimFile &sf = w.disk[c->path];
	if (!c->rd) { errno = EBADF; return -1; }
	int64_t nth = ++sf.nreads, all = ++g_global_count["read"];
	if (DevFault *f = dev_fault("read-err", c->path, nth, all)) {
		f->used = true; fired(F_READ_ERR); logf_("  dev read %s -> EIO", c->path.c_str()); errno = EIO; return -1;
	}
	size_t left = c->pos < (int64_t)sf.data.size() ? sf.data.size() - (size_t)c->pos : 0;
	size_t m = n < left ? n : left;
	if (!w.chunks.empty() && m) { size_t ch = (size_t)w.chunks[chunk_pos++ % w.chunks.size()]; if (ch < m) { m = ch; fired(F_READ_SHORT); } }
	memcpy(buf, sf.data.data() + c->pos, m);
	c->pos += (int64_t)m;
	return (ssize_t)m;
}
static ssize_t ck_write(void *c_, const char *buf, size_t n) {
	Cookie *c = (Cookie *)c_;
	devop();
	std::string nm = c->std == 2 ? "<stdout>" : c->std == 3 ? "<stderr>" : c->path;
	if (c->std == 1 || (c->std < 0 && !c->wr)) { errno = EBADF; return 0; }
	SimFile &sf = w.disk[nm];
	int64_t nth = ++sf.nwrites, all = c->std < 0 ? ++g_global_count["write"] : -1;
	size_t m = n; bool bad = false;
	if (DevFault *f = dev_fault("write-err", nm, nth, all)) { f->used = true; fired(c->std < 0 ? F_WRITE_ERR : F_OUT_ERR); m = 0; bad = true; errno = EIO; }
	else if (DevFault *f = dev_fault("write-short", nm, nth, all)) { f->used = true; if ((size_t)f->arg < m) { m = (size_t)f->arg; bad = true; fired(c->std < 0 ? F_WRITE_SHORT : F_OUT_ERR); errno = EIO; } }
	if (w.capacity >= 0 && c->std < 0) {
		int64_t off = c->app ? (int64_t)sf.data.size() : c->pos;
		int64_t grow = off + (int64_t)m - (int64_t)sf.data.size();
		int64_t room = w.capacity - total_bytes();
		if (room < 0) room = 0;
		if (grow > room) { int64_t cut = grow - room; m = (int64_t)m > cut ? m - (size_t)cut : 0; bad = true; errno = ENOSPC; fired(F_ENOSPC); }
	}
	if (c->std == 2) { w.sout.append(buf, m); sf.data.append(buf, 0); }
	else if (c->std == 3) w.serr.append(buf, m);
	else {
		if (c->app) c->pos = (int64_t)sf.data.size();
		if ((int64_t)sf.data.size() < c->pos + (int64_t)m) sf.data.resize((size_t)(c->pos + (int64_t)m));
		memcpy(&sf.data[0] + c->pos, buf, m);
		c->pos += (int64_t)m;
		if (w.record_io) logf_("  dev write %s %zu/%zu", nm.c_str(), m, n);
	}
	if (bad && m == 0) return 0;
	return (ssize_t)m;
}
static int ck_seek(void *c_, off64_t *off, int wh) {
	Cookie *c = (Cookie *)c_;
	devop();
	if (c->std >= 0) { errno = ESPIPE; return -1; }
	SimFile &sf = w.disk[c->path];
	int64_t nth = ++sf.nseeks, all = ++g_global_count["seek"];
	if (DevFault *f = dev_fault("seek-fail", c->path, nth, all)) { f->used = true; fired(F_SEEK_FAIL); errno = EIO; return -1; }
	int64_t np = wh == SEEK_SET ? *off : wh == SEEK_CUR ? c->pos + *off : (int64_t)sf.data.size() + *off;
	if (np < 0) { errno = EINVAL; return -1; }
	c->pos = np; *off = np;
	return 0;
}
static int ck_close(void *c_) {
	Cookie *c = (Cookie *)c_;
	devop();
	int rc = 0;
	if (c->std < 0) {
		SimFile &sf = w.disk[c->path];
		int64_t nth = ++sf.ncloses, all = ++g_global_count["close"];
		if (DevFault *f = dev_fault("close-fail", c->path, nth, all)) { f->used = true; fired(F_CLOSE_FAIL); errno = EIO; rc = -1; }
	}
	delete c;
	return rc;
}
static FILE *mkstream(Cookie *c, const char *mode) {
	cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
	FILE *fp = fopencookie(c, mode, io);
	c->buf = nullptr;
	if (w.bufsize == 0) setvbuf(fp, nullptr, _IONBF, 0);
	else if (w.bufsize > 0) { c->buf = (char *)malloc((size_t)w.bufsize); setvbuf(fp, c->buf, _IOFBF, (size_t)w.bufsize); }
	return fp;
}
static FILE *do_open(const char *path, const char *mode) {
	devop();
	std::string p = path;
	SimFile *sf = w.disk.count(p) ? &w.disk[p] : nullptr;
	int64_t nth = 0;
	static std::map<std::string, int64_t> opens;
	nth = ++opens[p];
	int64_t all = ++g_global_count["open"];
	if (DevFault *f = dev_fault("open-fail", p, nth, all)) {
		f->used = true; fired(F_OPEN_FAIL); logf_("  open %s %s -> fault", path, mode); errno = f->err > 0 ? f->err : EACCES; return nullptr;
	}
	bool plus = strchr(mode, '+') != nullptr;
	char m = mode[0];
	if (m == 'r' && (!sf || !sf->exists)) { errno = ENOENT; logf_("  open %s %s -> ENOENT", path, mode); return nullptr; }
	if (m != 'r' && m != 'w' && m != 'a') { errno = EINVAL; return nullptr; }
	if (!sf) sf = &w.disk[p];
	sf->exists = true;
	if (m == 'w') sf->data.clear();
	Cookie *c = new Cookie();
	c->path = p; c->pos = 0; c->rd = m == 'r' || plus; c->wr = m != 'r' || plus; c->app = m == 'a'; c->mem = nullptr; c->std = -1;
	c->open_idx = (int)w.opens.size();
	std::string gm; gm += m; if (plus) gm += '+';
	FILE *fp = mkstream(c, gm.c_str());
	OpenRec r; r.id = c->open_idx; r.path = p; r.mode = gm; r.fp = fp;
	w.opens.push_back(r);
	w.live[fp] = r.id;
	w.dead.erase(fp);
	logf_("  open %s %s -> #%d", path, gm.c_str(), r.id);
	return fp;
}
static bool is_std(FILE *f) { return f == sim_stdin || f == sim_stdout || f == sim_stderr; }
static void chk(FILE *f, const char *fn) {
	if (is_std(f) || w.live.count(f)) return;
	violation("use-after-close", "%s on a stream that is %s", fn, w.dead.count(f) ? "already closed" : "not an open stream");
}
extern "C" {
FILE *sim_fopen(const char *p, const char *m) { return do_open(p, m); }
FILE *sim_freopen(const char *, const char *, FILE *) { violation("unmodelled", "freopen is not modelled"); }
int sim_fclose(FILE *f) {
	if (is_std(f)) { logs("  close std"); return fflush(f); }
	auto it = w.live.find(f);
	if (it == w.live.end()) violation("double-close", "fclose on a stream that is %s", w.dead.count(f) ? "already closed" : "not an open stream");
	OpenRec &r = w.opens[(size_t)it->second];
	r.closes++; r.open = false;
	w.live.erase(it); w.dead.insert(f);
	int rc = fclose(f);
	logf_("  close #%d %s -> %d", r.id, r.path.c_str(), rc);
	return rc;
}
size_t sim_fread(void *p, size_t a, size_t b, FILE *f) { chk(f, "fread"); return fread(p, a, b, f); }
size_t sim_fwrite(const void *p, size_t a, size_t b, FILE *f) { chk(f, "fwrite"); return fwrite(p, a, b, f); }
FILE *sim_fopen64(const char *p, const char *m) { return do_open(p, m); }
int sim_getc(FILE *f) { chk(f, "getc"); return fgetc(f); }
int sim_putc(int c, FILE *f) { chk(f, "putc"); return fputc(c, f); }
int sim_fgetc(FILE *f) { chk(f, "fgetc"); return fgetc(f); }
char *sim_fgets(char *s, int n, FILE *f) { chk(f, "fgets"); return fgets(s, n, f); }
int sim_ungetc(int c, FILE *f) { chk(f, "ungetc"); return ungetc(c, f); }
int sim_fseek(FILE *f, long o, int wh) { chk(f, "fseek"); return fseek(f, o, wh); }
int sim_fseeko(FILE *f, off_t o, int wh) { chk(f, "fseek"); return fseeko(f, o, wh); }
long sim_ftell(FILE *f) { chk(f, "ftell"); return ftell(f); }
off_t sim_ftello(FILE *f) { chk(f, "ftell"); return ftello(f); }
void sim_rewind(FILE *f) { chk(f, "rewind"); rewind(f); }
int sim_fflush(FILE *f) { if (!f) { for (auto &e : w.live) fflush(e.first); fflush(sim_stdout); fflush(sim_stderr); return 0; } chk(f, "fflush"); return fflush(f); }
int sim_feof(FILE *f) { chk(f, "feof"); return feof(f); }
int sim_ferror(FILE *f) { chk(f, "ferror"); return ferror(f); }
void sim_clearerr(FILE *f) { chk(f, "clearerr"); clearerr(f); }
int sim_fputc(int c, FILE *f) { chk(f, "fputc"); return fputc(c, f); }
int sim_fputs(const char *s, FILE *f) { chk(f, "fputs"); return fputs(s, f); }
int sim_vfprintf(FILE *f, const char *fmt, va_list a) { chk(f, "vfprintf"); return vfprintf(f, fmt, a); }
int sim_fprintf(FILE *f, const char *fmt, ...) { chk(f, "fprintf"); va_list a; va_start(a, fmt); int r = vfprintf(f, fmt, a); va_end(a); return r; }
int sim_setvbuf(FILE *f, char *b, int m, size_t n) { chk(f, "setvbuf"); return setvbuf(f, b, m, n); }
int sim_fileno(FILE *f) { return f == sim_stdin ? 0 : f == sim_stdout ? 1 : f == sim_stderr ? 2 : 3; }
int sim_isatty(int) { return 0; }
int sim_printf(const char *fmt, ...) { va_list a; va_start(a, fmt); int r = vfprintf(sim_stdout, fmt, a); va_end(a); return r; }
int sim_vprintf(const char *fmt, va_list a) { return vfprintf(sim_stdout, fmt, a); }
int sim_puts(const char *s) { return fputs(s, sim_stdout) < 0 ? -1 : fputc('\n', sim_stdout); }
int sim_putchar(int c) { return fputc(c, sim_stdout); }
int sim_getchar(void) { return fgetc(sim_stdin); }
void sim_perror(const char *s) { fprintf(sim_stderr, "%s: error\n", s); }
int sim_remove(const char *p) { auto it = w.disk.find(p); if (it == w.disk.end() || !it->second.exists) { errno = ENOENT; return -1; } it->second.exists = false; it->second.data.clear(); return 0; }
int sim_rename(const char *a, const char *b) { auto it = w.disk.find(a); if (it == w.disk.end() || !it->second.exists) { errno = ENOENT; return -1; } std::string d = it->second.data; w.disk.erase(it); w.disk[b].data = d; return 0; }
char *sim_getenv(const char *) { return nullptr; }
int sim_system(const char *) { return -1; }
// randomness: seeded by the plan, or an adversarial script of draws
void sim_srand(unsigned s) { if (w.rand_mode == 0) w.rng_state = s; }
int sim_rand(void) {
	w.rand_calls++;
	if (!w.rand_script.empty()) { fired(F_RAND_ADV); return (int)(w.rand_script[w.rand_pos++ % w.rand_script.size()] & 0x7fffffff); }
	w.rng_state += 0x9E3779B97F4A7C15ull;
	uint64_t z = w.rng_state;
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
	z ^= z >> 27;
	return (int)(z & 0x7fffffff);
}
long sim_random(void) { return sim_rand(); }
int sim_rand_r(unsigned *) { return sim_rand(); }
time_t sim_time(time_t *t) { w.clock += 1; if (t) *t = w.clock; return w.clock; }
clock_t sim_clock(void) { return (clock_t)w.clock; }
int sim_gettimeofday(struct timeval *tv, void *) { tv->tv_sec = w.clock++; tv->tv_usec = 0; return 0; }
int sim_clock_gettime(clockid_t, struct timespec *ts) { ts->tv_sec = w.clock++; ts->tv_nsec = 0; return 0; }
void sim_exit(int c) {
	w.exited = true; w.exit_code = c;
	if (w.on_exit) w.on_exit(c);
	harness_error("exit(%d) called with no handler", c);
}
// native modules: a registry of harness functions stands in for the dynamic loader
struct DlSym { std::string name; void *fn; };
static std::map<std::string, std::vector<DlSym>> dls;
static std::map<void *, std::string> dlh;
static std::string dlerr;
void sim_dl_register(const char *path, const char *sym, void *fn) { dls[path].push_back({sym, fn}); }
void *sim_dlopen(const char *p, int) {
	auto it = dls.find(p ? p : "");
	int64_t nth = ++g_global_count["dlopen"];
	if (it == dls.end() || dev_fault("dlopen-fail", p ? p : "", nth, nth)) {
		if (it != dls.end()) fired(F_DLFAIL);
		dlerr = std::string(p ? p : "") + ": cannot open shared object file"; return nullptr; }
	dlh[&it->second] = p;
	return &it->second;
}
void *sim_dlsym(void *h, const char *s) {
	auto *v = (std::vector<DlSym> *)h;
	for (auto &e : *v) if (e.name == s) return e.fn;
	dlerr = std::string("undefined symbol: ") + s;
	return nullptr;
}
char *sim_dlerror(void) { return (char *)dlerr.c_str(); }
int sim_dlclose(void *) { return 0; }
}

void world_stdio_open() {
	auto mk = [](int k, const char *m) { Cookie *c = new Cookie(); c->std = k; c->rd = c->wr = true; c->app = false; c->pos = 0; c->path = ""; return mkstream(c, m); };
	sim_stdin = mk(1, "r"); sim_stdout = mk(2, "w"); sim_stderr = mk(3, "w");
}
static uint64_t hash_str(const std::string &s) { return fnv(1469598103934665603ull, s.data(), s.size()); }
void world_init(const N &plan) {
	a_fill = (int)getnum(plan, "fill", 0xAA);
	w.bufsize = getnum(plan, "bufsize", -1);
	w.capacity = getnum(plan, "capacity", -1);
	w.crash_at = getnum(plan, "crash-at", -1);
	w.rng_state = (uint64_t)getnum(plan, "randseed", 1);
	w.clock = getnum(plan, "clock", 1700000000);
	if (N r = find(plan, "draws")) for (size_t i = 1; i < r->size(); i++) w.rand_script.push_back(r->k[i]->num());
	if (N r = find(plan, "chunks")) for (size_t i = 1; i < r->size(); i++) if (r->k[i]->num() > 0) w.chunks.push_back(r->k[i]->num());
	if (N r = find(plan, "stdin")) w.sin = r->k[1]->a;
	if (N d = find(plan, "disk")) for (size_t i = 1; i < d->size(); i++) w.disk[d->k[i]->k[1]->a].data = d->k[i]->k[2]->a;
	if (N d = find(plan, "faults")) for (size_t i = 1; i < d->size(); i++) {
		auto &f = d->k[i];
		if (!f->list || f->size() < 3) continue;
		DevFault df; df.kind = f->head(); df.path = f->k[1]->a; df.nth = f->k[2]->num(); df.arg = f->size() > 3 ? f->k[3]->num() : 0; df.err = f->size() > 4 ? (int)f->k[4]->num() : 0;
		w.faults.push_back(df);
	}
	(void)hash_str;
	world_stdio_open();
}

// ================= memory errors =================
static void on_asan(const char *rep) {
	// keep the headline and the first frames that are in the tested sources
	std::string r = rep, head, frames;
	size_t p = r.find("ERROR: AddressSanitizer: ");
	std::string kind = "memory-error";
	if (p != std::string::npos) { size_t e = r.find_first_of(" \n", p + 25); kind = r.substr(p + 25, e - p - 25); }
	size_t pos = p == std::string::npos ? 0 : p; int n = 0;
	while ((pos = r.find("    #", pos)) != std::string::npos && n < 14) {
		size_t e = r.find('\n', pos);
		std::string l = r.substr(pos, e - pos);
		size_t in = l.find(" in ");
		if (in != std::string::npos) l = l.substr(in + 4);
		frames += l + "\n"; n++;
		pos = e;
	}
	(void)head;
	snprintf(sh->vclass, sizeof sh->vclass, "memory-error");
	snprintf(sh->msg, sizeof sh->msg, "AddressSanitizer: %s\n%s", kind.c_str(), frames.c_str());
	sh->steps = g_steps;
	sh->status = ST_VIOLATION;
	_exit(0);
}
extern "C" const char *__asan_default_options() {
	return "detect_leaks=0:detect_stack_use_after_return=0:allocator_may_return_null=1:handle_abort=1:abort_on_error=0:quarantine_size_mb=16:max_malloc_fill_size=0:print_summary=0:"
	       "alloc_dealloc_mismatch=0:symbolize=1:fast_unwind_on_malloc=1:malloc_context_size=6:log_path=/dev/null:detect_odr_violation=0:use_sigaltstack=1:handle_sigill=1:external_symbolizer_path=/usr/bin/llvm-symbolizer-18";
}
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=0:log_path=/dev/null"; }
void rt_child_init() { __asan_set_error_report_callback(on_asan); }
