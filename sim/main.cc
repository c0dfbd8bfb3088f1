// ysim gen <prop> <seed> [tier]        print the plan of a seed
// ysim run <prop> <planfile> [-v]      run a plan in this process tree; prints verdict
// ysim batch <prop> <tier> <base> <first> <count> <stride> <seconds>   runs many seeds, one forked process each; one JSON line per event
#include "engine.h"
#include <algorithm>
#include <csignal>
#include <fstream>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

static double now() { timeval t; gettimeofday(&t, nullptr); return (double)t.tv_sec + (double)t.tv_usec * 1e-6; }
static std::string js(const std::string &s) {
	std::string o = "\"";
	for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += (char)c; }
	return o + "\"";
}
static void reset_shared() {
	size_t n = sh->loglen;
	sh->status = ST_NONE; sh->loghash = 0; sh->steps = 0; memset(sh->faults, 0, sizeof sh->faults); memset(sh->probes, 0, sizeof sh->probes);
	sh->simtime_us = 0; sh->nontrivial = 0; sh->vclass[0] = 0; sh->msg[0] = 0; sh->loglen = 0; sh->log[0] = 0; (void)n;
	memset(sh->edges, 0, sizeof sh->edges);
}
static const char *STN[] = {"ok", "violation", "discard", "error"};
// runs fn in a forked child and settles the verdict
static std::string g_child_err;
static void run_child(const std::function<void()> &fn) {
	reset_shared();
	fflush(stdout);
	pid_t p = fork();
	if (p == 0) {
		struct rlimit rl = {60, 60};
		setrlimit(RLIMIT_CPU, &rl);
		rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
		rt_child_init();
		try { fn(); } catch (Abandon &a) { discard(a.why); }
		harness_error("engine returned without a verdict");
	}
	int st;
	waitpid(p, &st, 0);
	if (sh->status == ST_NONE) {
		if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL)) {
			sh->status = ST_ERROR; snprintf(sh->msg, sizeof sh->msg, "child used up its CPU limit or was killed");
		} else {
			sh->status = ST_VIOLATION; snprintf(sh->vclass, sizeof sh->vclass, "crash");
			snprintf(sh->msg, sizeof sh->msg, "simulated process died (%s %d)", WIFSIGNALED(st) ? "signal" : "exit", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
		}
	}
}
static uint64_t mix(uint64_t a, uint64_t b) { Rng r(a * 1000003ull + b); return r.next() >> 1; }
static uint64_t strhash(const char *s) { uint64_t h = 5381; while (*s) h = h * 33 + (unsigned char)*s++; return h; }

int main(int argc, char **argv) {
	int pers = personality(0xffffffff);
	if (pers >= 0 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("YSIM_REEXEC")) {
		if (personality((unsigned)pers | ADDR_NO_RANDOMIZE) >= 0) { setenv("YSIM_REEXEC", "1", 1); execv("/proc/self/exe", argv); }
	}
	sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (argc < 4) { fprintf(stderr, "usage: ysim gen|run|batch ...\n"); return 2; }
	std::string cmd = argv[1];
	const Engine *e = find_engine(argv[2]);
	if (!e) { fprintf(stderr, "no engine %s\n", argv[2]); return 2; }
	if (cmd == "gen") {
		uint64_t seed = strtoull(argv[3], nullptr, 10);
		int tier = argc > 4 ? atoi(argv[4]) : 0;
		Rng r(seed ^ strhash(e->id));
		printf("%s\n", show(e->gen(r, tier)).c_str());
		return 0;
	}
	if (cmd == "run") {
		std::ifstream f(argv[3]);
		std::stringstream ss; ss << f.rdbuf();
		std::string text = ss.str();
		bool v = argc > 4 && std::string(argv[4]) == "-v";
		run_child([&] { N plan = parse(text); if (!plan) harness_error("empty plan"); world_init(plan); e->run(plan); });
		if (v) printf("%s", sh->log);
		printf("{\"status\":\"%s\",\"class\":%s,\"msg\":%s,\"loghash\":\"%016llx\",\"steps\":%llu}\n", STN[sh->status], js(sh->vclass).c_str(), js(sh->msg).c_str(),
		       (unsigned long long)sh->loghash, (unsigned long long)sh->steps);
		return sh->status == ST_VIOLATION ? 1 : sh->status == ST_ERROR ? 2 : 0;
	}
	if (cmd == "batch" && argc >= 9) {
		int tier = atoi(argv[3]);
		uint64_t base = strtoull(argv[4], nullptr, 10), first = strtoull(argv[5], nullptr, 10), count = strtoull(argv[6], nullptr, 10), stride = strtoull(argv[7], nullptr, 10);
		double limit = atof(argv[8]);
		int maxv = argc > 9 ? atoi(argv[9]) : 40;
		uint64_t runs = 0, disc = 0, viol = 0, errs = 0, steps_ = 0, simus = 0, allhash = 0;
		std::vector<uint64_t> faults(F_N), fr(F_N);
		std::map<std::string, uint64_t> probes;
		std::set<uint64_t> sigs, edges;
		std::map<std::string, int> seenclass;
		std::vector<std::pair<uint64_t, uint64_t>> samples;
		double t0 = now();
		uint64_t i = first, done = 0;
		for (; done < count; done++, i += stride) {
			if (now() - t0 > limit) break;
			uint64_t seed = mix(base, i);
			run_child([&] {
				Rng r(seed ^ strhash(e->id));
				N plan = e->gen(r, tier);
				// The plan is re-read from its own text, so that a replay starts from exactly this state.
				plan = parse(show(plan));
				world_init(plan);
				e->run(plan);
			});
			runs++;
			steps_ += sh->steps; simus += sh->simtime_us;
			allhash ^= sh->loghash * (2 * i + 1);
			for (int f = 0; f < F_N; f++) { faults[f] += sh->faults[f]; fr[f] += sh->faults[f] ? 1 : 0; }
			for (size_t k = 0; k < sizeof sh->edges; k++) if (sh->edges[k]) edges.insert(k);
			if (sh->status == ST_DISCARD) { disc++; continue; }
			if (sh->nontrivial) sigs.insert(sh->nontrivial);
			if (samples.size() < 3 && sh->status == ST_OK && sh->nontrivial) samples.push_back({seed, sh->loghash});
			if (sh->status == ST_ERROR) {
				errs++;
				if (errs <= 3) { printf("{\"ev\":\"error\",\"seed\":%llu,\"msg\":%s}\n", (unsigned long long)seed, js(sh->msg).c_str()); fflush(stdout); }
			}
			if (sh->status == ST_VIOLATION) {
				viol++;
				std::string m = sh->msg; m = m.substr(0, 2000);
				std::string key = std::string(sh->vclass) + m.substr(0, 60);
				if (seenclass[key]++ < 4) {
					printf("{\"ev\":\"violation\",\"seed\":%llu,\"class\":%s,\"msg\":%s,\"loghash\":\"%016llx\"}\n", (unsigned long long)seed, js(sh->vclass).c_str(), js(m).c_str(), (unsigned long long)sh->loghash);
					fflush(stdout);
				}
				if ((int)viol >= maxv) { done++; break; }
			}
		}
		printf("{\"ev\":\"stats\",\"runs\":%llu,\"discarded\":%llu,\"violations\":%llu,\"errors\":%llu,\"steps\":%llu,\"sim_us\":%llu,\"sigs\":[", (unsigned long long)runs, (unsigned long long)disc, (unsigned long long)viol, (unsigned long long)errs, (unsigned long long)steps_, (unsigned long long)simus);
		bool c = false; for (auto s : sigs) { printf("%s%llu", c ? "," : "", (unsigned long long)(s >> 12)); c = true; }
		printf("],\"edges\":["); c = false; for (auto s : edges) { printf("%s%llu", c ? "," : "", (unsigned long long)s); c = true; }
		printf("],\"faults\":{"); c = false; for (int f = 0; f < F_N; f++) if (faults[f]) { printf("%s\"%s\":[%llu,%llu]", c ? "," : "", fault_names[f], (unsigned long long)faults[f], (unsigned long long)fr[f]); c = true; }
		printf("},\"samples\":["); c = false; for (auto &s : samples) { printf("%s[%llu,\"%016llx\"]", c ? "," : "", (unsigned long long)s.first, (unsigned long long)s.second); c = true; }
		extern uint32_t g_nguards;
		printf("],\"allhash\":\"%016llx\",\"nguards\":%u,\"secs\":%.2f}\n", (unsigned long long)allhash, g_nguards, now() - t0);
		return 0;
	}
	return 2;
}
