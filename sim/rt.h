// Simulator runtime: everything nondeterministic the system under test can reach goes through here.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

// ---------- PRNG (splitmix / xorshift), one integer decides everything ----------
struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed = 1) { s = seed * 0x9E3779B97F4A7C15ull + 0x1234567; next(); next(); }
	uint64_t next() {
		s += 0x9E3779B97F4A7C15ull;
		uint64_t z = s;
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}
	int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)(next() % (uint64_t)(hi - lo + 1)); }
	bool chance(int pct) { return (int)(next() % 100) < pct; }
	template <class T> const T &pick(const std::vector<T> &v) { return v[next() % v.size()]; }
};

// ---------- S-expression plan ----------
struct Node;
using N = std::shared_ptr<Node>;
struct Node {
	bool list = false, str = false;
	std::string a;          // atom or string
	std::vector<N> k;       // children
	size_t size() const { return k.size(); }
	const N &operator[](size_t i) const { return k[i]; }
	bool is(const char *h) const { return list && !k.empty() && !k[0]->list && !k[0]->str && k[0]->a == h; }
	const std::string &head() const { static std::string e; return list && !k.empty() && !k[0]->list ? k[0]->a : e; }
	int64_t num() const { return strtoll(a.c_str(), nullptr, 10); }
};
N A(const std::string &s);          // atom
N S(const std::string &s);          // string
N I(int64_t n);                     // number atom
N L(std::vector<N> v);              // list
template <class... T> N L(const char *h, T... t) { return L(std::vector<N>{A(h), t...}); }
std::string show(const N &n);
void show(const N &n, std::string &out, int indent);
N parse(const std::string &s);
N find(const N &plan, const char *head);      // first child list with this head, or null
std::vector<N> findall(const N &plan, const char *head);
int64_t getnum(const N &plan, const char *head, int64_t dflt);
std::string getstr(const N &plan, const char *head, const std::string &dflt);

// ---------- result shared with the parent ----------
enum { ST_OK = 0, ST_VIOLATION = 1, ST_DISCARD = 2, ST_ERROR = 3, ST_NONE = 9 };
struct Shared {
	volatile int status;
	uint64_t loghash;
	uint64_t steps;
	uint64_t faults[32];           // fired fault counts by kind
	uint64_t probes[64];
	uint64_t simtime_us;
	uint64_t nontrivial;           // signature of the explored state (measure), 0 = trivial
	char vclass[128];              // violation class
	char msg[16384];
	size_t loglen;
	char log[1 << 20];
	uint32_t nedges;
	unsigned char edges[1 << 16];
};
extern Shared *sh;

enum Fault { F_OPEN_FAIL, F_READ_ERR, F_READ_SHORT, F_WRITE_ERR, F_WRITE_SHORT, F_ENOSPC, F_SEEK_FAIL, F_CLOSE_FAIL,
	F_CRASH, F_HOST_ABORT, F_SWITCH, F_SRC_TRUNC, F_SRC_FLIP, F_SRC_DUP, F_RAND_ADV, F_CLOCK, F_MOD_FAIL, F_STACK, F_CALLBACK, F_NEST, F_EOF, F_ERRSTEP,
	F_MUTATE_ITER, F_USE_CLOSED, F_DELSTATE_EARLY, F_RESET, F_DLFAIL, F_OUT_ERR, F_N };
extern const char *fault_names[F_N];
inline void fired(Fault f) { sh->faults[f]++; }
// Named probes: "this rare condition was hit"
int probe_id(const char *name);
inline void probe(const char *name) { sh->probes[probe_id(name)]++; }
const char *probe_name(int i);
int probe_count();

// ---------- event log ----------
void logf_(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void logs(const std::string &s);

// ---------- verdicts; do not return ----------
[[noreturn]] void violation(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void discard(const char *why);
[[noreturn]] void finish_ok();
[[noreturn]] void harness_error(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

// ---------- simulated world ----------
struct DevFault { std::string kind, path; int64_t nth, arg; int err; bool used = false; };
struct SimFile { std::string data; bool exists = true; int64_t nreads = 0, nwrites = 0, nopens = 0, nseeks = 0, ncloses = 0; };
struct OpenRec { int id; std::string path, mode; int64_t closes = 0; bool open = true; FILE *fp = nullptr; };
struct World {
	std::map<std::string, SimFile> disk;
	std::vector<DevFault> faults;
	std::vector<int64_t> chunks;       // read chunk sizes, cycled
	int64_t bufsize = -1;              // stdio buffer: -1 default, 0 unbuffered, n
	int64_t capacity = -1;             // total bytes, -1 unlimited
	std::vector<OpenRec> opens;
	std::map<FILE *, int> live;        // FILE* -> index in opens
	std::set<FILE *> dead;
	bool record_io = true;
	int64_t dev_ops = 0, crash_at = -1;
	std::function<void()> on_crash;
	uint64_t rng_state = 1;
	std::vector<int64_t> rand_script;  // adversarial draws, cycled when non-empty
	size_t rand_pos = 0; int rand_mode = 0; uint64_t rand_calls = 0;
	int64_t clock = 1700000000;
	// stdin / stdout / stderr of the simulated process
	std::string sin; size_t sin_pos = 0; std::string sout, serr;
	int64_t stdin_reads_after_eof = 0;
	bool exited = false; int exit_code = 0;
	std::function<void(int)> on_exit;
	std::function<void(int64_t)> on_devop;
	std::function<void(const char *)> on_limit;   // step budget or memory limit used up; default: a violation for steps, nothing for memory
	int64_t mem_limit = 0;
};
extern World w;
extern "C" { extern FILE *sim_stdin, *sim_stdout, *sim_stderr; }
void world_init(const N &plan);      // knobs, disk, faults
void world_stdio_open();
int64_t live_allocs();
int64_t live_bytes();
std::string first_leak();
void alloc_mark();                   // forget everything allocated so far for leak purposes
void set_step_budget(uint64_t n);
uint64_t steps();
void sim_silence_close(bool on);

// fibers
void fiber_run(std::vector<std::function<void()>> bodies, const std::vector<std::pair<uint64_t, int>> &switches, int reslice);
int fiber_current();
void fiber_yield_point();            // explicit scheduling point (host calls)

void rt_child_init();                // install asan callbacks etc.
