// C04, C05, C06: the io library above a simulated device. One history machine, three generators.
// A plan is a list of operations on handle slots; it is rendered to a script that reports every operation (before: hop, after: hres) to the harness,
// which steps its own model of handles, positions and file contents with the results the script saw.
#include "engine.h"
#include <algorithm>
static const char *SLOTS[] = {"h0", "h1", "hl[0]", "hl[1]", "ht['a']", "ht.b"};
static const int NSLOT = 6;
// ---------- rendering ----------
static std::string slot(const N &n) { return SLOTS[llabs(n->num()) % NSLOT]; }
static std::string op_src(const N &o, int i, int ind);
static int count_ops(const N &o) { if (!o->list || !o->size()) return 0; if (o->is("infn") || o->is("inloop")) { int n = 0; for (size_t i = 1; i < o->size(); i++) n += count_ops(o->k[i]); return n; } return 1; }
static std::string wrapped(const N &o, int &i, int ind) {
	std::string p((size_t)ind, '\t');
	if (o->is("infn") || o->is("inloop")) {
		std::string s = p + (o->is("infn") ? "hid((fn(q) {\n" : "for lv <- [1] {\n");
		if (o->is("infn")) s += p + "\tlet loc = " + SLOTS[0] + ";\n";
		for (size_t j = 1; j < o->size(); j++) s += wrapped(o->k[j], i, ind + 1);
		return s + p + (o->is("infn") ? "\treturn q;\n" + p + "})(1));\n" : "};\n");
	}
	std::string s = op_src(o, i, ind);
	i++;
	return s;
}
static std::string op_src(const N &o, int i, int ind) {
	std::string p((size_t)ind, '\t'), n = std::to_string(i), r = p + "hop(" + n + ");\n";
	auto &k = o->k;
	const std::string &h = o->head();
	auto q = [](const N &s) { return quote(s->a); };
	if (h == "open") return r + p + slot(k[1]) + " = io.open(" + q(k[2]) + (k[3]->a == "r" && k.size() > 4 ? "" : ", " + q(k[3])) + ");\n" + p + "hres(" + n + ", " + slot(k[1]) + ");\n";
	if (h == "std") return r + p + slot(k[1]) + " = io." + (k[2]->num() == 0 ? "stdin" : "stdout") + ";\n" + p + "hres(" + n + ", " + slot(k[1]) + ");\n";
	if (h == "copy") return r + p + slot(k[2]) + " = " + slot(k[1]) + ";\n" + p + "hres(" + n + ", 0);\n";
	if (h == "drop") return r + p + slot(k[1]) + " = undef;\n" + p + "hres(" + n + ", 0);\n";
	if (h == "lose") return r + p + "if io.open(" + q(k[1]) + ", 'w') {\n" + p + "\t0;\n" + p + "};\n" + p + "hres(" + n + ", 0);\n";
	if (h == "badopen") return r + p + "hres(" + n + ", io.open('./bad', " + q(k[1]) + "));\n";
	std::string call;
	if (h == "write") call = "->write(" + q(k[2]) + ")";
	else if (h == "readl") call = k.size() > 2 ? "->read()" : "->read('l')";
	else if (h == "reada") call = "->read('a')";
	else if (h == "flush") call = "->flush()";
	else if (h == "close") call = "->close()";
	else if (h == "seek") call = "->seek(" + q(k[2]) + ", " + k[3]->a + ")";
	else if (h == "badread") call = "->read(" + q(k[2]) + ")";
	else if (h == "badwrite") call = "->write(" + k[2]->a + ")";
	else if (h == "badseek") call = "->seek('nowhere', 0)";
	else return "";
	return r + p + "if " + slot(k[1]) + " {\n" + p + "\thres(" + n + ", " + slot(k[1]) + call + ");\n" + p + "};\n";
}
// ---------- the model ----------
// how a mode is spelt (binary, close-on-exec, extra flags) is no concern of ours
static std::string norm_mode(const std::string &m) { std::string r; for (char c : m) if (c == 'r' || c == 'w' || c == 'a' || c == '+') r += c; return r; }
struct Fh {
	std::string path, mode; int rec = -1, stdk = -1; bool open = true, lost = false, neg = false, posknown = true, seq = true, junk = false; char last = 'n'; bool eof = false;
	std::string unfl; int64_t pos = 0; std::string data; size_t acked = 0; int lost_at = 0; uint64_t fseen = 0;
	bool rd() const { return mode[0] == 'r' || mode.size() > 1; }
	bool wr() const { return mode[0] != 'r' || mode.size() > 1; }
	bool app() const { return mode[0] == 'a'; }
};
struct IoSim {
	std::vector<N> ops;
	std::vector<std::shared_ptr<Fh>> handles;
	std::shared_ptr<Fh> slots[NSLOT], stds[2];
	std::map<std::string, std::string> files; std::set<std::string> tainted;
	int cur = -1; bool inop = false; uint64_t f0 = 0; size_t opens0 = 0; int expect = 0;
	std::string prop;
	uint64_t nfaults() const { uint64_t n = 0; for (int f : {F_READ_ERR, F_WRITE_ERR, F_WRITE_SHORT, F_ENOSPC, F_SEEK_FAIL, F_CLOSE_FAIL, F_OPEN_FAIL, F_OUT_ERR}) n += sh->faults[f]; return n; }
	uint64_t s0 = 0; int64_t r0 = 0;
	static int64_t dev_reads() { int64_t n = 0; for (auto &e : w.disk) n += e.second.nreads; return n; }
	bool op_fault() const { return nfaults() != f0; }
	std::string at() const { return "op " + std::to_string(cur) + " " + (cur >= 0 && cur < (int)ops.size() ? show(ops[(size_t)cur]).substr(0, 120) : ""); }
	std::string &disk(const std::string &p) { return p == "<stdout>" ? w.sout : w.disk[p].data; }
	bool exists(const std::string &p) { auto it = w.disk.find(p); return it != w.disk.end() && it->second.exists; }
	std::shared_ptr<Fh> h(const N &o) { return slots[llabs(o->k[1]->num()) % NSLOT]; }
	// handles that are no longer in any slot are lost: their stream may be closed from now on
	void sweep() {
		for (auto &f : handles) {
			bool ref = f->stdk >= 0;
			for (auto &s : slots) ref |= s == f;
			if (!ref && !f->lost) { f->lost = true; f->lost_at = cur; }
			if (f->lost && f->open && f->rec >= 0 && !w.opens[(size_t)f->rec].open) { f->open = false; if (!f->wr()) continue; if (f->neg || nfaults() != f->fseen) tainted.insert(f->path); else files[f->path] = f->data; }
			if (!f->lost && !inop) f->fseen = nfaults();
		}
	}
	void before(int i) {
		if (i < 0 || i >= (int)ops.size()) harness_error("op index");
		sweep();
		cur = i; inop = true; f0 = nfaults(); s0 = sh->faults[F_SEEK_FAIL]; r0 = dev_reads(); opens0 = w.opens.size();
		const N &o = ops[(size_t)i];
		const std::string &hd = o->head();
		// histories whose outcome C itself leaves open are not judged
		if (hd == "open" || hd == "lose") {
			const std::string &p = hd == "open" ? o->k[2]->a : o->k[1]->a; std::string m = hd == "open" ? o->k[3]->a : "w";
			for (auto &f : handles) if (f->open && f->path == p && (f->wr() || m != "r")) discard("two handles, one of them a writer, on one path");
			return;
		}
		if (hd == "std" || hd == "copy" || hd == "drop" || hd == "badopen") { if (hd == "badopen") expect = 7; return; }
		auto f = h(o);
		if (!f) return;
		if (!f->open) { expect = hd == "badwrite" ? 7 : 7; if (hd == "badread" || hd == "badseek") expect = -1; fired(F_USE_CLOSED); return; }
		if (hd == "badread" || hd == "badseek") { expect = 7; return; }
		if (hd == "badwrite") { expect = 5; return; }
		if (hd == "readl" && f->last == 'w') discard("read after write without seek");
		if (hd == "write" && f->last == 'r' && !f->eof && f->rd()) discard("write after read without seek");
		if (hd == "flush" && f->last == 'r' && f->stdk < 0) discard("flush of an input stream");
		if (hd == "seek" && o->k[2]->a == "cur" && f->app()) discard("relative seek on an append stream");
		if (hd == "seek" && o->k[2]->a == "cur" && f->last == 'w') discard("relative seek after a write (glibc's custom streams lose count)");
		if ((hd == "readl") && f->app() && f->last == 'n') discard("initial read position of a+");
		if (f->stdk == 0 && (hd == "write" || hd == "seek")) discard("stdin");
		if (f->stdk == 1 && (hd == "readl" || hd == "reada" || hd == "seek")) discard("stdout");
		if (hd == "reada" && !f->rd()) discard("read of a write-only stream");
	}
	void same_disk(const std::string &p, const char *what, Fh *f) {
		const std::string &d = disk(p), &m = f ? f->data : files[p];
		if (d != m) violation("lost-write", "%s: %s reported success but the device of %s does not hold what was written: %s", at().c_str(), what, p.c_str(), first_diff(m, d).c_str());
	}
	// the file's content is unknown after a reported failure; but a write that came after it and was flushed is there
	void later_write(const char *what, Fh *f) {
		if (f->unfl.size() > 3 && f->unfl.find_first_not_of(f->unfl[0]) != std::string::npos && disk(f->path).find(f->unfl) == std::string::npos) violation("lost-write", "%s: %s reported success, but what the last write before it wrote is not in %s: %s", at().c_str(), what, f->path.c_str(), esc_dump(f->unfl.substr(0, 80)).c_str());
		if (!f->unfl.empty()) probe("flush_after_failure");
		f->unfl.clear();
	}
	void closed_ok(Fh *f) { if (!f->neg && !f->path.empty()) files[f->path] = f->data; }
	void after(int i, const V &v) {
		if (i != cur) harness_error("hres out of order");
		const N &o = ops[(size_t)i];
		const std::string &hd = o->head();
		if (expect) violation("no-error", "%s: should have failed, got %s", at().c_str(), dump(v).c_str());
		bool fl = op_fault();
		sweep();
		inop = false;
		if (hd == "open") {
			const std::string &p = o->k[2]->a, &m = o->k[3]->a;
			auto &s = slots[llabs(o->k[1]->num()) % NSLOT];
			// an old handle in the slot goes
			if (v.t == 'u') {
				if (w.opens.size() != opens0) violation("open-leak", "%s: the open gave undef but a stream was opened", at().c_str());
				if (!fl && (m[0] != 'r' || exists(p))) violation("open-refused", "%s: the open failed though the device did not", at().c_str());
				s = nullptr; sweep();
				return;
			}
			if (v.t != 'x') violation("open-result", "%s: got %s", at().c_str(), dump(v).c_str());
			if (w.opens.size() != opens0 + 1) violation("open-count", "%s: %zu streams opened", at().c_str(), w.opens.size() - opens0);
			OpenRec &r = w.opens.back();
			if (r.path != p || norm_mode(r.mode) != m) violation("open-mode", "%s: opened %s in mode %s", at().c_str(), r.path.c_str(), r.mode.c_str());
			auto f = std::make_shared<Fh>();
			f->path = p; f->mode = m; f->rec = r.id;
			if (tainted.count(p)) { if (m[0] == 'w') tainted.erase(p); else files[p] = disk(p); }   // after a reported loss the device content is the truth
			if (m[0] == 'w') files[p] = ""; else if (!files.count(p)) files[p] = "";
			f->data = files[p]; f->acked = f->data.size(); f->seq = m[0] != 'r';
			if (m[0] == 'w') f->acked = 0;
			f->pos = 0;
			tainted.erase(p);
			s = f; handles.push_back(f);
			sweep();
			return;
		}
		if (hd == "std") { int kx = (int)o->k[2]->num() & 1; slots[llabs(o->k[1]->num()) % NSLOT] = stds[kx]; sweep(); return; }
		if (hd == "copy") { slots[llabs(o->k[2]->num()) % NSLOT] = h(o); sweep(); return; }
		if (hd == "drop") { slots[llabs(o->k[1]->num()) % NSLOT] = nullptr; sweep(); return; }
		if (hd == "lose") { if (!fl) { files[o->k[1]->a] = ""; auto f = std::make_shared<Fh>(); if (w.opens.size() > opens0) { f->rec = w.opens.back().id; f->path = o->k[1]->a; f->mode = "w"; f->open = w.opens.back().open; f->lost = true; f->lost_at = cur; handles.push_back(f); } } else tainted.insert(o->k[1]->a); return; }
		auto f = h(o);
		if (!f) violation("phantom", "%s: ran on an undef handle", at().c_str());
		// a positioning call of glibc that has refilled the buffer when the device refuses to seek leaves bytes in it that are not the ones of this position
		if (f->junk && (hd == "readl" || hd == "reada")) discard("read after a failed seek that had read (glibc's buffer is not the file's)");
		if (sh->faults[F_SEEK_FAIL] != s0 && dev_reads() != r0) f->junk = true;
		auto isbool = [&] { if (v.t != 'b') violation("result-type", "%s: got %s", at().c_str(), dump(v).c_str()); };
		if (hd == "write") {
			const std::string &d = o->k[2]->a;
			if (v.t != 'i') violation("result-type", "%s: got %s", at().c_str(), dump(v).c_str());
			if (!f->wr()) { if (v.i > 0) violation("write-count", "%s: wrote %lld bytes to a read-only handle", at().c_str(), (long long)v.i); f->neg = f->neg; return; }
			if (v.i < 0 || v.i > (int64_t)d.size() || (!fl && !f->neg && v.i != (int64_t)d.size())) violation("write-count", "%s: %zu bytes written, %lld reported", at().c_str(), d.size(), (long long)v.i);
			f->unfl = f->neg && !fl && v.i == (int64_t)d.size() && f->posknown ? d : "";
			if (v.i < (int64_t)d.size()) { f->neg = true; }
			if (f->app() || f->seq) f->pos = (int64_t)f->data.size();
			if (!d.empty()) { if ((int64_t)f->data.size() < f->pos) f->data.resize((size_t)f->pos); f->data.replace((size_t)f->pos, std::min(d.size(), f->data.size() - (size_t)f->pos), d); f->pos += (int64_t)d.size(); f->last = 'w'; f->eof = false; }
			if (!f->posknown) f->neg = true;
			return;
		}
		if (hd == "flush") {
			isbool();
			if (!v.i) { if (!fl && !f->neg) violation("spurious-failure", "%s: reported failure though the device did not fail", at().c_str()); f->neg = true; f->unfl.clear(); return; }
			if (f->stdk == 0 || !f->wr()) return;
			if (f->neg) later_write("flush", f.get());
			if (!f->neg) { same_disk(f->path, "flush", f.get()); f->acked = f->data.size(); }
			return;
		}
		if (hd == "close") {
			isbool();
			f->open = false;
			if (f->rec >= 0) { OpenRec &r = w.opens[(size_t)f->rec]; if (r.closes != 1) violation("close-count", "%s: the stream was closed %lld times", at().c_str(), (long long)r.closes); }
			if (!v.i) { if (!fl && !f->neg) violation("spurious-failure", "%s: reported failure though the device did not fail", at().c_str()); f->neg = true; }
			if (f->stdk == 0) return;
			if (f->neg) { if (v.i) later_write("close", f.get()); tainted.insert(f->path); return; }
			if (f->wr()) same_disk(f->path, "close", f.get());
			closed_ok(f.get());
			return;
		}
		if (hd == "seek") {
			isbool();
			f->unfl.clear();
			if (f->stdk >= 0) return;
			int64_t off = o->k[3]->num(); const std::string &wh = o->k[2]->a;
			bool dirty = f->last == 'w';
			int64_t np = wh == "set" ? off : wh == "cur" ? f->pos + off : (int64_t)f->data.size() + off;
			f->last = 's'; f->seq = f->seq && f->app();
			if (!v.i) {
				bool legal = np < 0 || !f->posknown;
				if (!fl && !f->neg && !legal) violation("spurious-failure", "%s: reported failure though the device did not fail", at().c_str());
				if (fl || f->neg || !f->posknown) f->posknown = false;
				if (fl) f->neg = f->neg || dirty || f->wr();
				return;
			}
			if (wh == "cur" && !f->posknown) return;
			if (np < 0 && f->neg) { f->posknown = false; return; } // the model does not know how long the file is
			if (np < 0) violation("seek-result", "%s: a seek before the start reported success", at().c_str());
			f->posknown = true; f->pos = np; f->eof = false;
			return;
		}
		// reads
		f->unfl.clear();
		if (!f->rd()) { if (v.t == 's' && !v.s.empty()) violation("read-content", "%s: read %zu bytes from a write-only handle", at().c_str(), v.s.size()); return; }
		std::string whole = f->stdk == 0 ? w.sin : f->data;
		if (f->neg || (f->rec >= 0 && tainted.count(f->path))) whole = f->stdk == 0 ? w.sin : disk(f->path);
		if (v.t == 'u') {
			if (!fl && !f->neg) violation("spurious-failure", "%s: reported failure though the device did not fail", at().c_str());
			if (f->last == 'w') f->neg = true;
			f->posknown = false; f->last = 'r'; f->eof = false;
			probe("read_failure_reported");
			return;
		}
		if (v.t != 's') violation("result-type", "%s: got %s", at().c_str(), dump(v).c_str());
		bool line = hd == "readl";
		if (!line && f->stdk != 0) { f->pos = 0; f->posknown = true; }
		if (f->neg) { f->posknown = false; }
		if (f->posknown) {
			std::string want; size_t p = std::min((size_t)f->pos, whole.size());
			if (line) { size_t e = whole.find('\n', p); bool nl = e != std::string::npos; if (!nl) e = whole.size(); want = whole.substr(p, e - p); f->pos = (int64_t)(nl ? e + 1 : std::max(e, (size_t)f->pos)); f->eof = !nl; }
			else { want = whole.substr(p); f->pos = (int64_t)std::max(whole.size(), (size_t)f->pos); f->eof = true; }
			if (v.s != want) violation("read-content", "%s: %s", at().c_str(), first_diff(want, v.s).c_str());
		} else if (!line && f->stdk != 0 && !f->neg) {
			if (v.s != whole) violation("read-content", "%s: %s", at().c_str(), first_diff(whole, v.s).c_str());
		} else if (!f->neg && whole.find(v.s) == std::string::npos) violation("read-content", "%s: returned %zu bytes that are not in the file: %s", at().c_str(), v.s.size(), esc_dump(v.s.substr(0, 80)).c_str());
		f->last = 'r';
	}
	void crash() {
		logf_("process stops at %s", at().c_str());
		std::set<std::string> busy;
		N o = inop && cur >= 0 ? ops[(size_t)cur] : nullptr;
		if (o && (o->is("open"))) busy.insert(o->k[2]->a);
		if (o && o->is("lose")) busy.insert(o->k[1]->a);
		for (auto &f : handles) {
			if (!f->open || f->path.empty() || f->stdk >= 0) continue;
			busy.insert(f->path);
			if (f->neg || !f->wr() || !f->seq || tainted.count(f->path) || nfaults()) continue;
			std::string d = f->data;
			if (o && o->is("write") && h(o) == f) d += o->k[2]->a;
			const std::string &real = disk(f->path);
			if (real.size() > d.size() || d.compare(0, real.size(), real) != 0) violation("crash-content", "after a stop at %s: %s holds bytes that were never written: %s", at().c_str(), f->path.c_str(), first_diff(d, real).c_str());
			if (real.size() < f->acked) violation("crash-durability", "after a stop at %s: %s holds %zu bytes, %zu were flushed successfully", at().c_str(), f->path.c_str(), real.size(), f->acked);
			probe("stop_with_open_writer");
		}
		for (auto &e : files) if (!busy.count(e.first) && !tainted.count(e.first) && disk(e.first) != e.second) violation("crash-durability", "after a stop at %s: closed file %s changed: %s", at().c_str(), e.first.c_str(), first_diff(e.second, disk(e.first)).c_str());
		sh->nontrivial = sh->loghash | 1;
		finish_ok();
	}
};
static IoSim *io;
static V top_value(YASL_State *S) {
	V v;
	std::string d = dump_top(S);
	if (YASL_isundef(S)) return v;
	if (YASL_isbool(S)) return V::B(YASL_peekbool(S));
	if (YASL_isint(S)) return V::In(YASL_peekint(S));
	if (YASL_isstr(S)) return V::St(top_bytes(S));
	v.t = 'x';
	return v;
}
static int hf_hop(YASL_State *S) { Actor &a = host_enter(S, "hop"); int i = (int)YASL_popint(S); a.note("op " + std::to_string(i) + " " + show(io->ops[(size_t)i]).substr(0, 200)); io->before(i); YASL_pushundef(S); return 1; }
static int hf_hres(YASL_State *S) {
	Actor &a = host_enter(S, "hres");
	V v = top_value(S); YASL_pop(S);
	int i = (int)YASL_popint(S);
	a.note(" -> " + (v.t == 's' ? "str " + std::to_string(v.s.size()) + " " + esc_dump(v.s.substr(0, 60)) : v.t == 'x' ? "handle" : dump(v)));
	io->after(i, v);
	YASL_pushundef(S);
	return 1;
}
static int hf_hend(YASL_State *S) {
	host_enter(S, "hend");
	io->sweep();
	for (auto &f : io->handles) if (f->lost && f->open) violation("not-closed", "the last reference to %s went away at op %d, but its stream is still open", f->path.c_str(), f->lost_at);
	return 1;
}
static void flat(const N &o, std::vector<N> &out) { if (!o->list || !o->size()) return; if (o->is("infn") || o->is("inloop")) { for (size_t i = 1; i < o->size(); i++) flat(o->k[i], out); } else out.push_back(o); }
static bool valid(const N &o) {
	const std::string &h = o->head();
	size_t n = o->size();
	if (h == "infn" || h == "inloop") return true;
	if (h == "open") return n >= 4;
	if (h == "seek") return n >= 4;
	if (h == "std" || h == "copy" || h == "write" || h == "badread" || h == "badwrite") return n >= 3;
	return n >= 2 && (h == "drop" || h == "lose" || h == "badopen" || h == "readl" || h == "reada" || h == "flush" || h == "close" || h == "badseek");
}
static void run_io(const N &plan, const char *prop) {
	N ops = find(plan, "ops");
	if (!ops) discard("no ops");
	static IoSim s; io = &s;
	s.prop = prop;
	for (size_t i = 1; i < ops->size(); i++) flat(ops->k[i], s.ops);
	for (auto &o : s.ops) if (!valid(o)) discard("malformed op");
	for (auto &e : w.disk) s.files[e.first] = e.second.data;
	for (int kx = 0; kx < 2; kx++) { auto f = std::make_shared<Fh>(); f->stdk = kx; f->mode = kx ? "w" : "r"; if (kx) f->path = "<stdout>"; s.stds[kx] = f; s.handles.push_back(f); }
	std::string src = "let h0 = undef;\nlet h1 = undef;\nlet hl = [undef, undef];\nlet ht = {};\n";
	int idx = 0;
	for (size_t i = 1; i < ops->size(); i++) src += wrapped(ops->k[i], idx, 0);
	// overwrite what is left above the top of the value stack, then look at the handles nothing refers to any more
	src += "hsum(";
	for (int i = 0; i < 60; i++) src += i ? ", 1" : "1";
	src += ");\nhend(0);\n";
	logs(src);
	set_step_budget(60000000);
	Actor a; a.id = 1;
	a.abort_at = getnum(plan, "abort-at", -1); a.abort_status = (int)getnum(plan, "abort-status", 2);
	a.hvals = fresh_hvals();
	a.open_buf(src);
	a.libs(63, false);
	a.def("hop", hf_hop, 1); a.def("hres", hf_hres, 2); a.def("hend", hf_hend, 1);
	w.on_crash = [&] { s.crash(); };
	a.run();
	int want = s.expect, got = a.status;
	if (a.abort_at > 0 && a.hostcalls == a.abort_at) want = a.abort_status;
	if (want == -1) { if (got == 0) violation("no-error", "%s: should have failed", s.at().c_str()); }
	else if (got != want) violation("status", "%s: want status %d, got %d", s.at().c_str(), want, got);
	// handles nothing refers to any more
	if (s.inop && s.cur >= 0) {      // an operation cut short by an error
		N o = s.ops[(size_t)s.cur];
		if (o->is("open")) s.tainted.insert(o->k[2]->a); else if (o->is("lose")) s.tainted.insert(o->k[1]->a);
		else if (o->is("write") && s.h(o)) s.h(o)->neg = true;
		else if (o->is("close") && s.h(o) && s.h(o)->open) { s.h(o)->neg = s.h(o)->neg || s.nfaults(); }
	}
	s.inop = false;
	s.sweep();
	uint64_t nf = s.nfaults();
	a.close();
	if (nf == s.nfaults() && !s.nfaults()) {
		for (auto &f : s.handles) if (f->open && f->stdk < 0 && f->wr()) { if (f->neg) s.tainted.insert(f->path); else s.files[f->path] = f->data; }
		// an operation that was cut short by an error has no acknowledged effect to judge
		for (auto &e : s.files) if (!s.tainted.count(e.first) && s.disk(e.first) != e.second) violation("final-content", "after the state was deleted %s does not hold what was written: %s", e.first.c_str(), first_diff(e.second, s.disk(e.first)).c_str());
		fflush(sim_stdout);
		Fh *so = s.stds[1].get();
		if (!so->neg && w.sout != so->data) violation("final-content", "standard output: %s", first_diff(so->data, w.sout).c_str());
	} else {
		// handles closed explicitly and successfully must still hold: nothing may touch them later
		std::set<std::string> busy;
		for (auto &f : s.handles) if (f->open) busy.insert(f->path);
		for (auto &e : s.files) if (!busy.count(e.first) && !s.tainted.count(e.first) && s.disk(e.first) != e.second) violation("final-content", "%s was closed successfully but does not hold what was written: %s", e.first.c_str(), first_diff(e.second, s.disk(e.first)).c_str());
	}
	for (auto &r : w.opens) if (r.closes != 1) violation("not-closed", "stream #%d (%s, mode %s) was closed %lld times by the time the state was deleted", r.id, r.path.c_str(), r.mode.c_str(), (long long)r.closes);
	check_no_leak("end", false);
	if (s.cur > 0) sh->nontrivial = sh->loghash | 1;
	finish_ok();
}
// ---------- generators ----------
static const char *PATHS[] = {"./a", "./b", "./c.txt", "dir/d"};
static std::string bytes(Rng &r, int kind, int64_t maxlen) {
	static const int64_t around[] = {15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 8192};
	int64_t n = r.chance(10) ? 0 : r.chance(10) ? std::min<int64_t>(maxlen, around[r.next() % 22]) : r.chance(75) ? r.range(1, std::min<int64_t>(maxlen, 30)) : r.range(1, maxlen);
	std::string s;
	for (int64_t i = 0; i < n; i++) {
		int c = (int)r.range(0, 99);
		if (kind == 0) s += c < 12 ? '\n' : (char)r.range('a', 'z');
		else if (kind == 1) s += c < 8 ? '\n' : c < 16 ? '\0' : c < 22 ? (char)0xff : (char)r.range(0, 255);
		else if (kind == 2) s += c < 2 ? '\n' : (char)r.range(' ', '~');
		else s += c == 0 && r.chance(4) ? '\n' : c == 1 ? '\r' : (char)r.range(' ', '~');      // lines longer than any buffer
	}
	return s;
}
static void io_knobs(Rng &r, std::vector<N> &k) {
	gen_knobs(r, k);
	static const int64_t bs[] = {-1, -1, 0, 1, 2, 7, 16, 64, 1024};
	k.push_back(L("bufsize", I(bs[r.next() % 9])));
	if (r.chance(60)) { std::vector<N> c{A("chunks")}; int n = (int)r.range(1, 6); for (int i = 0; i < n; i++) c.push_back(I(r.chance(60) ? r.range(1, 4) : r.range(1, 300))); k.push_back(L(c)); }
}
struct Slot { int path = -1; std::string mode; int group = 0; char last = 'n'; bool eof = false; bool closed = false; };
static N gen_io(Rng &r, int tier, const std::string &prop) {
	std::vector<N> k{A("plan")};
	io_knobs(r, k);
	int kind = (int)r.range(0, 3); int64_t maxlen = r.chance(15) ? 12000 : r.chance(40) ? 300 : 60;
	int npath = (int)r.range(1, 4);
	std::vector<N> disk{A("disk")};
	std::set<int> there;
	for (int i = 0; i < npath; i++) if (r.chance(prop == "C05" ? 90 : 50)) { there.insert(i); std::string d = bytes(r, kind, maxlen); if (r.chance(60)) d += bytes(r, kind, maxlen); disk.push_back(L("f", S(PATHS[i]), S(d))); }
	k.push_back(L(disk));
	if (r.chance(prop == "C05" ? 30 : 10)) k.push_back(L("stdin", S(bytes(r, kind, maxlen) + bytes(r, kind, maxlen))));
	std::vector<N> ops{A("ops")};
	int n = (int)r.range(4, tier ? 60 : 30);
	Slot sl[NSLOT]; int grp = 0; bool stop = false;
	auto busy = [&](int p, bool wr) { for (auto &s : sl) if (s.path == p && !s.closed && (wr || s.mode != "r")) return true; return false; };
	auto alias = [&](int i, std::function<void(Slot &)> f) { int g = sl[i].group; for (auto &s : sl) if (s.path >= -1 && s.group == g && g) f(s); };
	std::vector<N> *out = &ops; std::vector<N> sub;
	auto nests = [&] { int live = 0; for (auto &s : sl) live += s.path >= 0 && !s.closed; return live; };
	std::set<int> lostpaths;
	for (int i = 0; i < n && !stop; i++) {
		if (out == &ops && r.chance(8)) { sub = {A(r.chance(70) ? "infn" : "inloop")}; out = &sub; }
		else if (out == &sub && r.chance(35)) { ops.push_back(L(sub)); out = &ops; }
		int h = (int)r.range(0, NSLOT - 1);
		if (nests() && r.chance(80)) for (int t = 0; t < 20 && (sl[h].path < 0 || sl[h].closed); t++) h = (int)r.range(0, NSLOT - 1);
		Slot &s = sl[h];
		bool usable = s.group && !s.closed;
		if (!usable) {
			if (s.closed && s.group && r.chance(prop == "C06" ? 12 : 2)) {   // use after close: the script ends here
				static const char *u[] = {"readl", "reada", "flush", "close", "write", "seek"};
				const char *x = u[r.next() % 6];
				std::vector<N> o{A(x), I(h)};
				if (!strcmp(x, "write")) o.push_back(S("zz"));
				if (!strcmp(x, "seek")) { o.push_back(S("set")); o.push_back(I(0)); }
				out->push_back(L(o));
				if (r.chance(80)) stop = true;
				continue;
			}
			if (r.chance(prop == "C06" ? 6 : 3)) { out->push_back(L("std", I(h), I(prop == "C05" ? 0 : r.range(0, 1)))); int kk = (int)out->back()->k[2]->num(); s = Slot(); s.path = -1; s.mode = kk ? "w" : "r"; s.group = -1 - kk; for (auto &o : sl) if (&o != &s && o.group == s.group) s = o; continue; }
			int p = (int)r.range(0, npath - 1);
			std::string m;
			if (prop == "C05") m = r.chance(75) ? "r" : r.chance(50) ? "r+" : "w+";
			else if (prop == "C04") { static const char *ms[] = {"w", "w", "w", "a", "a", "r+", "w+", "a+", "r"}; m = ms[r.next() % 9]; }
			else { static const char *ms[] = {"w", "w", "a", "r", "r", "r+", "w+"}; m = ms[r.next() % 7]; }
			if (busy(p, m != "r")) { if (r.chance(97)) continue; }
			if (prop == "C06" && r.chance(8) && !busy(p, true)) { out->push_back(L("lose", S(PATHS[p]))); there.insert(p); continue; }
			std::vector<N> o{A("open"), I(h), S(PATHS[p]), S(m)};
			if (m == "r" && r.chance(30)) o.push_back(I(1));
			out->push_back(L(o));
			if (m[0] == 'r' && !there.count(p)) { s = Slot(); continue; }
			there.insert(p);
			s = Slot(); s.path = p; s.mode = m; s.group = ++grp;
			continue;
		}
		bool rd = s.mode[0] == 'r' || s.mode.size() > 1, wr = s.mode[0] != 'r' || s.mode.size() > 1, std_ = s.group < 0;
		int c = (int)r.range(0, 99);
		if (c < 8 && !std_) { alias(h, [](Slot &x) { x.closed = true; }); out->push_back(L("close", I(h))); continue; }
		if (c < 10 && std_) { alias(h, [](Slot &x) { x.closed = true; }); out->push_back(L("close", I(h))); continue; }
		if (c < (prop == "C06" ? 24 : 11)) { int t = (int)r.range(0, NSLOT - 1); if (t == h) continue; out->push_back(L("copy", I(h), I(t))); sl[t] = s; continue; }
		if (c < (prop == "C06" ? 36 : 14)) { out->push_back(L("drop", I(h))); sl[h] = Slot(); continue; }
		if (prop == "C06" && c < 37 && r.chance(40)) { switch (r.range(0, 3)) { case 0: out->push_back(L("badread", I(h), S(r.chance(50) ? "q" : "ll"))); break; case 1: out->push_back(L("badwrite", I(h), A(r.chance(50) ? "12" : "[1]"))); break; case 2: out->push_back(L("badopen", S(r.chance(50) ? "rw" : "q"))); break; default: out->push_back(L("badseek", I(h))); } if (r.chance(90)) stop = true; continue; }
		if (c < 50 && !std_) {
			static const char *wh[] = {"set", "set", "cur", "end"};
			std::string x = wh[r.next() % 4];
			if (x == "cur" && (s.mode[0] == 'a' || s.last == 'w')) x = "set";
			out->push_back(L("seek", I(h), S(x), I(x == "end" ? -r.range(0, 8) : x == "cur" ? r.range(-2, 5) : r.chance(90) ? r.range(0, 40) : r.range(0, maxlen * 2))));
			alias(h, [](Slot &q) { q.last = 's'; q.eof = false; });
			continue;
		}
		if (wr && c < (prop == "C05" ? 60 : 80)) {
			if (s.last == 'r' && rd && !s.eof) { continue; }
			if (r.chance(prop == "C04" ? 22 : 12)) { if (s.last == 'r') continue; out->push_back(L("flush", I(h))); continue; }
			out->push_back(L("write", I(h), S(bytes(r, kind, maxlen))));
			alias(h, [](Slot &q) { q.last = 'w'; });
			continue;
		}
		if (rd) {
			bool all = r.chance(30);
			if (!all && s.last == 'w') continue;
			if (!all && s.mode[0] == 'a' && s.last == 'n') continue;
			std::vector<N> o{A(all ? "reada" : "readl"), I(h)};
			if (!all && r.chance(30)) o.push_back(I(1));
			out->push_back(L(o));
			alias(h, [&](Slot &q) { q.last = 'r'; q.eof = all; });
		}
	}
	if (out == &sub) ops.push_back(L(sub));
	k.push_back(L(ops));
	if (r.chance(prop == "C06" ? 45 : 65)) {
		std::vector<N> f{A("faults")};
		int nf = (int)r.range(1, 3);
		for (int i = 0; i < nf; i++) {
			std::string kd;
			if (prop == "C04") { static const char *x[] = {"write-err", "write-err", "write-short", "write-short", "close-fail", "seek-fail"}; kd = x[r.next() % 6]; }
			else if (prop == "C05") { static const char *x[] = {"read-err", "read-err", "read-err", "seek-fail", "open-fail"}; kd = x[r.next() % 5]; }
			else { static const char *x[] = {"open-fail", "open-fail", "close-fail", "write-err", "read-err", "seek-fail"}; kd = x[r.next() % 6]; }
			int64_t nth = r.range(1, 1ll << r.range(0, 5));
			std::string p = r.chance(50) ? "*" : prop == "C05" && r.chance(15) ? "<stdin>" : PATHS[r.range(0, npath - 1)];
			f.push_back(L(kd.c_str(), S(p), I(nth), I(r.range(0, 20)), I(r.chance(25) ? -1 : 0)));
		}
		k.push_back(L(f));
	}
	if (prop == "C04" && r.chance(12)) k.push_back(L("capacity", I(r.range(0, r.chance(50) ? 200 : maxlen * 2))));
	if (prop == "C04" && r.chance(30)) k.push_back(L("crash-at", I(r.range(1, 1ll << r.range(1, 7)))));
	if (r.chance(prop == "C06" ? 30 : 8)) { k.push_back(L("abort-at", I(r.range(1, 2 * n)))); k.push_back(L("abort-status", I(r.range(2, 11)))); }
	return L(k);
}
N gen_C04(Rng &r, int tier) { return gen_io(r, tier, "C04"); }
N gen_C05(Rng &r, int tier) { return gen_io(r, tier, "C05"); }
N gen_C06(Rng &r, int tier) { return gen_io(r, tier, "C06"); }
void run_C04(const N &plan) { run_io(plan, "C04"); }
void run_C05(const N &plan) { run_io(plan, "C05"); }
void run_C06(const N &plan) { run_io(plan, "C06"); }
