// C15: histories of embedding calls - before, during (inside host functions of every arity, nested) and after a run - against a stack model.
#include "engine.h"
#include <algorithm>
extern "C" { void sim_free(void *); void *YASL_popuserptr(struct YASL_State *S); }
namespace {
const int NG = 4;
struct Pend { std::vector<V> args, rets; };
struct AS {
	Actor a; Model m;
	std::vector<V> *st = nullptr;                    // the frame the host is in
	std::map<std::string, V> globals, mts;
	std::set<std::string> consts;                    // globals a session declared with const
	std::vector<std::string> want;
	N seqs; size_t nseq = 0;
	N steps; size_t istep = 0;                       // the script's own steps
	std::vector<Pend> pend;
	bool in_run = false, armed = false; int expect = 0; bool thrown = false;
	int64_t counter = 0, nops = 0; int depth = 0;
	std::vector<void *> lits;
};
AS *A_;
const char *tyname(const V &v) {
	switch (v.t) { case 'u': return "undef"; case 'b': return "bool"; case 'i': return "int"; case 'f': return "float"; case 's': return "str"; case 'l': return "list"; case 't': return "table"; case 'o': return OBJ_TAG; case 'p': return "userptr"; default: return "fn"; }
}
std::string dmp(const V &v) { return dump(v); }
bool reaches(const V &v, const MObj *o, int d = 0) {
	if (!v.o || d > 30) return d > 30;
	if (v.o.get() == o) return true;
	for (auto &x : v.o->items) if (reaches(x, o, d + 1)) return true;
	for (auto &p : v.o->kv) if (reaches(p.first, o, d + 1) || reaches(p.second, o, d + 1)) return true;
	return v.o->has_mt && v.o->mt && reaches([&] { V q; q.t = 't'; q.o = v.o->mt; return q; }(), o, d + 1);
}
V mkfn(const char *n) { V v; v.t = 'h'; v.o = std::make_shared<MObj>(); v.o->t = 'h'; v.o->name = n; return v; }
void live(const V &v, int d = 0) {                    // nothing the program can reach has been destroyed
	if (d > 4 || !v.o) return;
	if (v.t == 'o') { for (auto *o : A_->a.objs) if (o->id == v.o->id && o->destroyed) violation("destroyed-early", "userdata %lld was destroyed while the host could still reach it", (long long)o->id); return; }
	for (auto &x : v.o->items) live(x, d + 1);
	for (auto &p : v.o->kv) { live(p.first, d + 1); live(p.second, d + 1); }
}
void obj_gone(void *p) { Obj *o = (Obj *)p; if (++o->destroyed > 1) violation("double-destroy", "destructor of userdata %lld ran twice", (long long)o->id); }
void check_stack(const char *after) {
	AS &s = *A_; YASL_State *S = s.a.S; auto &st = *s.st;
	if (!st.empty()) {
		std::string got = dump_top(S), want = dmp(st.back());
		if (got != want) violation("top", "after %s: the top of the stack is %s, want %s", after, got.substr(0, 200).c_str(), want.substr(0, 200).c_str());
	}
	for (size_t n = 0; n < st.size(); n++) {
		const V &v = st[n]; unsigned i = (unsigned)n; char t = v.t;
		const char *ty = YASL_peekntypename(S, i);
		if (!ty || strcmp(ty, tyname(v))) violation("stack", "after %s: slot %zu of %zu holds %s, want %s", after, n, st.size(), ty ? ty : "NULL", tyname(v));
		if (YASL_isnundef(S, i) != (t == 'u') || YASL_isnbool(S, i) != (t == 'b') || YASL_isnint(S, i) != (t == 'i') || YASL_isnfloat(S, i) != (t == 'f') || YASL_isnstr(S, i) != (t == 's') || YASL_isnlist(S, i) != (t == 'l') || YASL_isntable(S, i) != (t == 't') || YASL_isnuserdata(S, OBJ_TAG, i) != (t == 'o'))
			violation("type-test", "after %s: the type tests disagree on slot %zu (%s)", after, n, tyname(v));
		if (YASL_peeknint(S, i) != (t == 'i' ? v.i : 0)) violation("stack", "after %s: int in slot %zu is %lld", after, n, (long long)YASL_peeknint(S, i));
		if (YASL_peeknbool(S, i) != (t == 'b' && v.i)) violation("stack", "after %s: bool in slot %zu", after, n);
		double d = YASL_peeknfloat(S, i), e = t == 'f' ? v.d : 0.0;
		if (!(d == e) && !(d != d && e != e)) violation("stack", "after %s: float in slot %zu is %g, want %g", after, n, d, e);
		live(v);
	}
	for (auto &g : s.globals) live(g.second);
	if (st.empty()) return;
	const V &v = st.back(); char t = v.t;
	if (YASL_isundef(S) != (t == 'u') || YASL_isbool(S) != (t == 'b') || YASL_isint(S) != (t == 'i') || YASL_isfloat(S) != (t == 'f') || YASL_isstr(S) != (t == 's') || YASL_islist(S) != (t == 'l') || YASL_istable(S) != (t == 't') || YASL_isuserdata(S, OBJ_TAG) != (t == 'o') || strcmp(YASL_peektypename(S), tyname(v)))
		violation("type-test", "after %s: the type tests disagree on the top (%s)", after, tyname(v));
	if (YASL_peekint(S) != (t == 'i' ? v.i : 0) || YASL_peekbool(S) != (t == 'b' && v.i)) violation("top", "after %s: peek at the top", after);
	char *c = YASL_peekcstr(S);
	if ((c != nullptr) != (t == 's')) violation("top", "after %s: peekcstr", after);
	if (c) { if (memcmp(c, v.s.c_str(), v.s.size() + 1)) violation("top", "after %s: peekcstr gives other bytes", after); sim_free(c); }
}
V val_of(const N &n) {
	AS &s = *A_; V v;
	const std::string &h = n->head();
	if (h == "i") return V::In(n->k[1]->num());
	if (h == "f") return V::F(strtod(n->k[1]->a.c_str(), nullptr));
	if (h == "b") return V::B(n->k[1]->num());
	if (h == "s" || h == "z" || h == "lit") { std::string x = n->k[1]->a; if (h != "s") x = x.substr(0, x.find('\0')); return V::St(x); }
	if (h == "l") return s.m.listv();
	if (h == "t") return s.m.tablev();
	if (h == "fn") { static const char *C[] = {"c_sum", "c_va", "c_two"}; return mkfn(C[(size_t)n->k[1]->num() % 3]); }
	if (h == "p") { v.t = 'p'; v.i = n->k[1]->num(); return v; }
	return v;
}
}
static int c_sum(YASL_State *S) { yasl_int b = YASL_peeknint(S, 1), a = YASL_peeknint(S, 0); YASL_pushint(S, a + b); return 1; }
static int c_va(YASL_State *S) { yasl_int n = YASL_peekvargscount(S); YASL_pushint(S, n); return 1; }
static int c_two(YASL_State *S) { YASL_duptop(S); return 2; }
namespace {
// What calling f with args returns; false: not something valid here.
bool fcall(const V &f, std::vector<V> args, std::vector<V> &ret, bool &throws, std::string *host) {
	AS &s = *A_;
	if (f.t != 'h') return false;
	const std::string &n = f.o->name;
	auto fit = [&](size_t k) { args.resize(k); };
	throws = false; host->clear();
	if (n == "c_sum") { fit(2); ret = {V::In((args[0].t == 'i' ? args[0].i : 0) + (args[1].t == 'i' ? args[1].i : 0))}; return true; }
	if (n == "c_va") { ret = {V::In((int64_t)args.size())}; return true; }
	if (n == "c_two") { fit(1); ret = {args[0], args[0]}; return true; }
	if (n == "f_id") { fit(1); ret = {args[0]}; return true; }
	if (n == "f_add") { fit(2); if (args[0].t != 'i' || args[1].t != 'i') return false; ret = {V::In(args[0].i + args[1].i)}; return true; }
	if (n == "f_push") { fit(2); if (args[0].t != 'l' || reaches(args[1], args[0].o.get()) || args[0].o->items.size() > 200) return false; args[0].o->items.push_back(args[1]); ret = {args[0]}; return true; }
	if (n == "f_swap") { fit(2); ret = {args[1], args[0]}; return true; }
	if (n == "f_none") { ret = {V()}; return true; }
	if (n == "f_three") { fit(1); ret = {args[0], V::In(2), V::St("three")}; return true; }
	if (n == "f_cnt") { ret = {V::In(++s.counter)}; return true; }
	if (n == "f_err") { if (!s.in_run) return false; throws = true; s.expect = YASL_ASSERT_ERROR; return true; }
	if (n == "f_cb") { if (s.depth > 3) return false; fit(1); *host = "hv"; ret = {args[0]}; return true; }
	if (n == "f_cb2") { if (s.depth > 3) return false; fit(2); *host = "h2"; return true; }
	return false;
}
void ops(const N &seq);
bool op(const N &o) {
	AS &s = *A_; YASL_State *S = s.a.S; auto &st = *s.st;
	const std::string &h = o->head();
	auto top = [&]() -> V & { return st.back(); };
	size_t n = st.size();
	if (n > 60 && (h == "push" || h == "dup" || h == "lget" || h == "gget" || h == "getmt")) return false;
	if (h == "push") {
		const N &v = o->k[1]; const std::string &k = v->head();
		if (k == "o") { Obj *ob = s.a.mkobj(); V x; x.t = 'o'; x.o = std::make_shared<MObj>(); x.o->t = 'o'; x.o->id = ob->id; YASL_pushuserdata(S, ob, OBJ_TAG, obj_gone); st.push_back(x); return true; }
		V x = val_of(v);
		if (x.t == 's') {
			char *buf = (char *)malloc(x.s.size() + 1); memcpy(buf, x.s.c_str(), x.s.size() + 1);
			if (k == "s") YASL_pushlstr(S, buf, x.s.size()); else if (k == "z") YASL_pushzstr(S, buf); else YASL_pushlit(S, buf);
			if (k == "lit") s.lits.push_back(buf); else { memset(buf, '#', x.s.size() + 1); free(buf); }
		} else if (x.t == 'h') { if (x.o->name == "c_sum") YASL_pushcfunction(S, c_sum, 2); else if (x.o->name == "c_va") YASL_pushcfunction(S, c_va, -1); else YASL_pushcfunction(S, c_two, 1); }
		else if (x.t == 'p') YASL_pushuserptr(S, (void *)(intptr_t)(16 + x.i));
		else push_value(s.a, x);
		st.push_back(x);
		return true;
	}
	if (h == "gget" || h == "gset" || h == "decl") {
		std::string nm = o->k[1]->a; char *buf = strdup(nm.c_str());
		int r, w = YASL_SUCCESS;
		if (h == "decl") { r = YASL_declglobal(S, buf); s.a.declared.insert(nm); }
		else if (h == "gget") { r = YASL_loadglobal(S, buf); auto it = s.globals.find(nm); if (it == s.globals.end()) w = YASL_ERROR; else st.push_back(it->second); }
		else { if (!n) { free(buf); return false; } r = YASL_setglobal(S, buf); if (s.a.declared.count(nm) && !s.consts.count(nm)) { s.globals[nm] = top(); st.pop_back(); } else w = YASL_ERROR; }
		memset(buf, '#', strlen(buf)); free(buf);
		if (r != w) violation("status", "%s of global %s returned %d, want %d", h.c_str(), nm.c_str(), r, w);
		return true;
	}
	if (h == "getmt") {
		std::string nm = o->k[1]->a; auto it = s.mts.find(nm);
		int r = YASL_loadmt(S, nm.c_str()), w = it == s.mts.end() ? YASL_ERROR : YASL_SUCCESS;
		if (r != w) violation("status", "loadmt %s returned %d, want %d", nm.c_str(), r, w);
		if (!w) st.push_back(it->second);
		return true;
	}
	if (h == "throw") {
		if (!s.in_run) return false;
		s.expect = 2 + (int)(o->k[1]->num() % 10); s.thrown = true; fired(F_HOST_ABORT);
		if (o->k[2]->num()) YASL_print_err(S, "thrown");
		YASL_throw_err(S, s.expect);
	}
	if (!n) return false;
	if (h == "pop") { YASL_pop(S); st.pop_back(); return true; }
	if (h == "dup") { if (YASL_duptop(S) != YASL_SUCCESS) violation("status", "duptop failed"); st.push_back(top()); return true; }
	if (h == "popint") { int64_t w = top().t == 'i' ? top().i : 0; if (YASL_popint(S) != w) violation("pop", "popint"); st.pop_back(); return true; }
	if (h == "popfloat") { double w = top().t == 'f' ? top().d : 0, g = YASL_popfloat(S); if (g != w && !(g != g && w != w)) violation("pop", "popfloat"); st.pop_back(); return true; }
	if (h == "popbool") { bool w = top().t == 'b' && top().i; if (YASL_popbool(S) != w) violation("pop", "popbool"); st.pop_back(); return true; }
	if (h == "popcstr") { bool is = top().t == 's'; std::string w = top().s; char *c = YASL_popcstr(S); if ((c != nullptr) != is || (c && memcmp(c, w.c_str(), w.size() + 1))) violation("pop", "popcstr"); sim_free(c); st.pop_back(); return true; }
	if (h == "popud") {
		if (top().t == 'o') { Obj *ob = (Obj *)YASL_popuserdata(S); if (!ob || ob->id != top().o->id) violation("pop", "popuserdata gave another object"); }
		else if (top().t == 'p') { if (YASL_popuserptr(S) != (void *)(intptr_t)(16 + top().i)) violation("pop", "popuserptr"); }
		else if (top().t == 'l' || top().t == 't') return false;
		else if (YASL_popuserdata(S)) violation("pop", "popuserdata of a %s is not NULL", tyname(top()));
		st.pop_back(); return true;
	}
	if (h == "peekud") {
		for (size_t i = 0; i < n; i++) {
			if (st[i].t == 'l' || st[i].t == 't') continue;
			Obj *ob = (Obj *)YASL_peeknuserdata(S, (unsigned)i);
			if (st[i].t == 'o' ? (!ob || ob->id != st[i].o->id) : ob != nullptr) violation("stack", "peeknuserdata of slot %zu (%s)", i, tyname(st[i]));
		}
		return true;
	}
	if (h == "len") {
		V &t = top(); V r;
		if (t.t == 'l' || t.t == 't' || t.t == 'o') {
			V *f = t.o->has_mt && t.o->mt ? s.m.rawget(*t.o->mt, V::St("__len")) : nullptr;
			if (f) {
				std::vector<V> ret; bool th; std::string host;
				if (f->t == 'h' && (f->o->name == "f_err" || f->o->name == "f_cb" || f->o->name == "f_cb2" || f->o->name == "f_push")) return false;
				if (!fcall(*f, {t}, ret, th, &host) || th || ret.size() < 1) return false;
				r = ret[0]; probe("len_overload");
			} else if (t.o->has_mt || t.t == 'o') {        // nothing says how long it is
				if (!s.in_run || o->k[1]->num() % 8) return false;
				s.expect = YASL_TYPE_ERROR; s.thrown = true; YASL_len(S); violation("no-error", "len of a %s without a length raised no error", tyname(t));
			}
			else r = V::In((int64_t)(t.t == 'l' ? t.o->items.size() : t.o->kv.size()));
		} else if (t.t == 's') r = V::In((int64_t)t.s.size());
		else { if (!s.in_run || o->k[1]->num() % 8) return false; s.expect = YASL_TYPE_ERROR; s.thrown = true; YASL_len(S); violation("no-error", "len of a %s raised no error", tyname(t)); }
		YASL_len(S); st.back() = r; return true;
	}
	if (h == "lget") {
		int64_t i = o->k[1]->num();
		if (top().t != 'l') { if (YASL_listget(S, i) == YASL_SUCCESS) violation("status", "listget on a %s succeeded", tyname(top())); return true; }
		int64_t c = (int64_t)top().o->items.size();
		if (c) i = i % c; else { if (!s.in_run || i % 6) return false; s.expect = YASL_VALUE_ERROR; s.thrown = true; YASL_listget(S, i); violation("no-error", "listget past the end raised no error"); }
		V x = top().o->items[(size_t)(i < 0 ? i + c : i)];
		if (YASL_listget(S, i) != YASL_SUCCESS) violation("status", "listget failed");
		st.push_back(x); return true;
	}
	if (h == "lpush") {
		if (n < 2) return false;
		V x = top(), &l = st[n - 2];
		if (l.t == 'l' && (reaches(x, l.o.get()) || l.o->items.size() > 300)) return false;
		int r = YASL_listpush(S), w = l.t == 'l' ? YASL_SUCCESS : YASL_TYPE_ERROR;
		if (r != w) violation("status", "listpush on a %s returned %d", tyname(l), r);
		st.pop_back(); if (!w) st.back().o->items.push_back(x);
		return true;
	}
	if (h == "tset") {
		if (n < 3) return false;
		V v = top(), k = st[n - 2], &t = st[n - 3];
		if (k.t == 'u' || k.t == 'p' || k.t == 'h' || (k.t == 'f' && k.d != k.d)) return false;
		if (t.t == 't' && reaches(v, t.o.get())) return false;
		bool hash = k.t != 'l' && k.t != 't' && k.t != 'o';
		int w = t.t == 't' && hash ? YASL_SUCCESS : YASL_TYPE_ERROR, r = YASL_tableset(S);
		if (r != w) violation("status", "tableset of key %s on a %s returned %d", tyname(k), tyname(t), r);
		if (!w) { auto &kv = t.o->kv; if (v.t == 'u') kv.erase(std::remove_if(kv.begin(), kv.end(), [&](auto &p) { return Model::same(p.first, k, true); }), kv.end()); else s.m.rawset(*t.o, k, v); }
		st.pop_back(); st.pop_back(); return true;
	}
	if (h == "walk") {
		YASL_pushundef(S);
		if (top().t != 't') { if (YASL_tablenext(S)) violation("walk", "tablenext on a %s", tyname(top())); return true; }
		std::vector<std::string> g, w; int64_t stop = o->k[1]->num();
		while (YASL_tablenext(S)) {
			std::string v = dump_top(S, 1); YASL_pop(S); g.push_back(dump_top(S, 1) + ":" + v);
			if (g.size() > 2000) violation("walk", "a walk did not end");
			if (stop > 0 && --stop == 0) { YASL_pop(S); return true; }
		}
		for (auto &p : top().o->kv) w.push_back(dmp(p.first) + ":" + dmp(p.second));
		std::sort(g.begin(), g.end()); std::sort(w.begin(), w.end());
		if (g != w) violation("walk", "a walk saw %zu entries, the table has %zu (or others)", g.size(), w.size());
		return true;
	}
	if (h == "regmt") {
		if (top().t != 't') return false;
		std::string nm = o->k[1]->a; char *buf = strdup(nm.c_str());
		if (YASL_registermt(S, buf) != YASL_SUCCESS) violation("status", "registermt failed");
		memset(buf, '#', strlen(buf)); free(buf);
		s.mts[nm] = top(); st.pop_back(); return true;
	}
	if (h == "setmt") {
		V x = top();
		if (x.t != 't' && x.t != 'u') { int r = YASL_setmt(S); if (r != YASL_TYPE_ERROR) violation("status", "setmt with a %s returned %d", tyname(x), r); return true; }
		if (n < 2) return false;
		V &t = st[n - 2];
		if (t.t == 'l' || ((t.t == 't' || t.t == 'o') && x.o && reaches(x, t.o.get()))) return false;
		int w = t.t == 't' || t.t == 'o' ? YASL_SUCCESS : YASL_TYPE_ERROR, r = YASL_setmt(S);
		if (r != w) violation("status", "setmt on a %s returned %d, want %d", tyname(t), r, w);
		st.pop_back();
		if (!w) { t.o->has_mt = true; t.o->mt = x.t == 't' ? x.o : nullptr; }
		return true;
	}
	if (h == "call") {
		size_t k = (size_t)o->k[1]->num();
		if (n < k + 1) return false;
		V f = st[n - k - 1]; std::vector<V> args(st.end() - (long)k, st.end()), ret; bool th; std::string host;
		if (!fcall(f, args, ret, th, &host)) return false;
		st.resize(n - k - 1);
		if (th) { s.thrown = true; YASL_functioncall(S, (int)k); violation("no-error", "a failing function returned"); }
		if (!host.empty()) { args.resize(host == "hv" ? 1 : 2); s.pend.push_back({args, {}}); s.armed = true; probe("nested_callback"); }
		int r = YASL_functioncall(S, (int)k);
		if (!host.empty()) { ret = s.pend.back().rets; s.pend.pop_back(); if (host == "h2") ret.resize(1); }
		if (r != (int)ret.size()) violation("returns", "functioncall reports %d values, want %zu", r, ret.size());
		for (auto &x : ret) st.push_back(x);
		fired(F_CALLBACK);
		return true;
	}
	return false;
}
void ops(const N &seq) {
	AS &s = *A_;
	for (size_t i = 1; i < seq->size(); i++) {
		std::string d = seq->k[i]->head() == "push" ? "push " + seq->k[i]->k[1]->head() : seq->k[i]->head();
		if (!op(seq->k[i])) continue;
		s.nops++;
		logf_("%*s%s -> %zu", s.depth * 2, "", d.c_str(), s.st->size());
		check_stack(d.c_str());
	}
}
V scriptval(const N &n) { AS &s = *A_; if (n->head() == "g") { auto it = s.globals.find(n->k[1]->a); return it == s.globals.end() ? V() : it->second; } if (n->head() == "ls") return s.m.listv({V::In(1), V::St("x")}); return val_of(n); }
std::string scripttext(const N &n) {
	if (n->head() == "g") return n->k[1]->a;
	if (n->head() == "ls") return "[1, 'x']";
	if (n->head() == "l") return "[]";
	if (n->head() == "t") return "{}";
	if (n->head() == "u") return "undef";
	if (n->head() == "b") return n->k[1]->num() ? "true" : "false";
	if (n->head() == "s") return quote(n->k[1]->a);
	return n->k[1]->a;
}
// runs the model over the script's own steps up to the next host call
void settle() {
	AS &s = *A_;
	while (s.istep < s.steps->size() && s.steps->k[s.istep]->head() != "sc") {
		const N &x = s.steps->k[s.istep++];
		if (x->head() == "sset") s.globals[x->k[1]->a] = scriptval(x->k[2]);
		if (x->head() == "sget") { auto it = s.globals.find(x->k[1]->a); s.want.push_back("emit " + dmp(it == s.globals.end() ? V() : it->second)); }
	}
}
int enter_seq(YASL_State *S, int nargs) {
	AS &s = *A_; (void)host_enter(S, "h");
	std::vector<V> args; bool nested = s.armed; s.armed = false;
	N step;
	if (nested) args = s.pend.back().args;
	else {
		settle();
		if (s.istep >= s.steps->size()) violation("trace", "a host function was called that the program does not call");
		step = s.steps->k[s.istep++];
		for (size_t i = 3; i < step->size(); i++) args.push_back(scriptval(step->k[i]));
	}
	std::vector<V> frame;
	if (nargs >= 0) { args.resize((size_t)nargs); frame = args; }
	else {
		size_t fixed = (size_t)~nargs; int64_t extra = std::max<int64_t>(0, (int64_t)args.size() - (int64_t)fixed);
		if (args.size() < fixed) args.resize(fixed);
		frame.assign(args.begin(), args.begin() + (long)fixed); frame.push_back(V::In(extra)); frame.insert(frame.end(), args.begin() + (long)fixed, args.end());
		if (YASL_peekvargscount(S) != extra) violation("varargs", "peekvargscount is %lld, want %lld", (long long)YASL_peekvargscount(S), (long long)extra);
	}
	auto *old = s.st; s.st = &frame; s.depth++;
	check_stack("entering a host function");
	size_t q = s.nseq++; int64_t r = 0;
	if (q + 1 < s.seqs->size()) { ops(s.seqs->k[q + 1]); r = getnum(s.seqs->k[q + 1], "ret", 0); }
	r = std::min<int64_t>(r, (int64_t)frame.size());
	std::vector<V> ret(frame.end() - (long)r, frame.end());
	s.st = old; s.depth--;
	if (nested) s.pend.back().rets = ret;
	else {
		int64_t k = step->k[2]->num();
		for (int64_t i = 0; i < k; i++) s.want.push_back("emit " + dmp(i < (int64_t)ret.size() ? ret[(size_t)i] : V()));
	}
	return (int)r;
}
}
static int h_0(YASL_State *S) { return enter_seq(S, 0); }
static int h_1(YASL_State *S) { return enter_seq(S, 1); }
static int h_2(YASL_State *S) { return enter_seq(S, 2); }
static int h_3(YASL_State *S) { return enter_seq(S, 3); }
static int h_v(YASL_State *S) { return enter_seq(S, -1); }
static int h_1v(YASL_State *S) { return enter_seq(S, -2); }
static int h_2v(YASL_State *S) { return enter_seq(S, -3); }
static int h_out(YASL_State *S) { Actor &a = host_enter(S, "hout"); a.note("emit " + dump_top(S)); YASL_pushundef(S); return 1; }

static N gval(Rng &r, bool script) {
	switch (r.range(0, script ? 9 : 13)) {
	case 0: return L("u");
	case 1: return L("b", I(r.range(0, 1)));
	case 2: case 3: return L("i", I(r.chance(80) ? r.range(0, 20) : r.range(0, 1000000)));
	case 4: { static const char *f[] = {"0.5", "1.0", "2.25", "100.0"}; return L("f", A(f[r.range(0, 3)])); }
	case 5: { static const char *z[] = {"", "a", "key", "hello", "#x"}; return S(""), L("s", S(script || r.chance(60) ? z[r.range(0, 4)] : std::string("nul\0in", 6))); }
	case 6: return L("l");
	case 7: return L("t");
	case 8: case 9: return script ? L(r.chance(70) ? "g" : "g", A("g" + std::to_string(r.range(0, NG - 1)))) : r.chance(50) ? L("z", S(r.chance(50) ? "zed" : "__len")) : L("lit", S(r.chance(50) ? "literal" : "__len"));
	case 10: case 11: return L("o");
	case 12: return L("fn", I(r.range(0, 2)));
	default: return L("p", I(r.range(0, 9)));
	}
}
static N gops(Rng &r, int n, bool pre, const char *head) {
	std::vector<N> k{A(head)};
	static const char *F[] = {"f_id", "f_add", "f_push", "f_swap", "f_none", "f_three", "f_cnt", "f_err", "f_cb", "f_cb2"};
	for (int i = 0; i < n; i++) {
		switch (r.range(0, 26)) {
		case 0: case 1: case 2: case 3: case 4: case 5: k.push_back(L("push", gval(r, false))); break;
		case 6: k.push_back(L("pop")); break;
		case 7: k.push_back(L("dup")); break;
		case 8: { static const char *p[] = {"popint", "popfloat", "popbool", "popcstr", "popud", "peekud"}; k.push_back(L(p[r.range(0, 5)])); break; }
		case 9: k.push_back(L("len", I(r.range(0, 7)))); break;
		case 10: k.push_back(L("lget", I(r.range(-5, 12)))); break;
		case 11: k.push_back(L("push", L("l"))); for (int64_t j = r.range(0, 5); j > 0; j--) { k.push_back(L("push", gval(r, false))); k.push_back(L("lpush")); } break;
		case 12: k.push_back(L("lpush")); break;
		case 13: case 14: k.push_back(L("push", L("t"))); for (int64_t j = r.range(0, 4); j > 0; j--) { k.push_back(L("push", gval(r, false))); k.push_back(L("push", gval(r, false))); k.push_back(L("tset")); } break;
		case 15: k.push_back(L("tset")); break;
		case 16: k.push_back(L("walk", I(r.chance(60) ? 0 : r.range(1, 4)))); break;
		case 17: k.push_back(L("gset", A(r.chance(85) ? "g" + std::to_string(r.range(0, NG - 1)) : r.chance(70) ? "konst" : "nope"))); break;
		case 18: k.push_back(L("gget", A(r.chance(85) ? "g" + std::to_string(r.range(0, NG - 1)) : r.chance(70) ? "konst" : "nope"))); break;
		case 19: k.push_back(L("decl", A(r.chance(60) ? "late" : "g0"))); if (r.chance(50)) k.push_back(L("gset", A("late"))); else k.push_back(L("gget", A("late"))); break;
		case 20: k.push_back(L("regmt", A(r.chance(50) ? "mt1" : "mt2"))); break;
		case 21: k.push_back(L("getmt", A(r.chance(50) ? "mt1" : "mt2"))); if (r.chance(60)) k.push_back(L("setmt")); break;
		case 22: k.push_back(L("push", L("t"))); k.push_back(L("push", L("z", S("__len")))); if (!pre && r.chance(50)) k.push_back(L("gget", A(F[r.range(0, 6)]))); else k.push_back(L("push", L("fn", I(r.range(0, 2))))); k.push_back(L("tset")); k.push_back(r.chance(70) ? L("setmt") : L("regmt", A("mt1"))); if (r.chance(60)) k.push_back(L("len", I(1))); break;
		case 23: k.push_back(L("push", r.chance(50) ? L("t") : L("o"))); for (int64_t j = r.range(1, 3); j > 0; j--) { if (r.chance(50)) k.push_back(L("getmt", A(r.chance(50) ? "mt1" : "mt2"))); else if (r.chance(50)) k.push_back(L("push", L("u"))); else { k.push_back(L("push", L("t"))); k.push_back(L("push", L("z", S("__len")))); k.push_back(L("push", L("fn", I(r.range(0, 2))))); k.push_back(L("tset")); } k.push_back(L("setmt")); if (r.chance(50)) { k.push_back(L("dup")); k.push_back(L("len", I(r.range(0, 15)))); } } break;
		default: {
			if (pre || r.chance(30)) k.push_back(L("push", L("fn", I(r.range(0, 2))))); else k.push_back(L("gget", A(F[r.range(0, r.chance(15) ? 9 : 9)])));
			int64_t m = r.range(0, 3);
			for (int64_t j = 0; j < m; j++) k.push_back(r.chance(60) ? L("push", L("i", I(r.range(0, 9)))) : r.chance(50) ? L("gget", A("g" + std::to_string(r.range(0, NG - 1)))) : L("push", gval(r, false)));
			k.push_back(L("call", I(m))); }
		}
	}
	if (!strcmp(head, "seq")) { k.push_back(L("ret", I(r.range(0, 4)))); if (r.chance(6)) k.push_back(L("throw", I(r.range(0, 9)), I(r.range(0, 1)))); }
	return L(k);
}
N gen_C15(Rng &r, int tier) {
	std::vector<N> k{A("plan")};
	int big = tier ? 40 : 22;
	k.push_back(gops(r, (int)(r.chance(40) ? 0 : r.range(1, big)), true, "pre"));
	std::vector<N> steps{A("steps")}, seqs{A("seqs")};
	for (int64_t i = r.range(1, 7); i > 0; i--) {
		if (r.chance(25)) { steps.push_back(r.chance(50) ? L("sget", A("g" + std::to_string(r.range(0, NG - 1)))) : L("sset", A("g" + std::to_string(r.range(0, NG - 1))), gval(r, true))); continue; }
		static const char *H[] = {"h0", "h1", "h2", "h3", "hv", "h1v", "h2v"};
		std::vector<N> c{A("sc"), A(H[r.range(0, 6)]), I(r.range(0, 3))};
		for (int64_t j = r.range(0, 4); j > 0; j--) c.push_back(gval(r, true));
		steps.push_back(L(c));
	}
	for (int64_t i = r.range(2, 12); i > 0; i--) seqs.push_back(gops(r, (int)r.range(1, big), false, "seq"));
	k.push_back(L(steps)); k.push_back(L(seqs));
	k.push_back(gops(r, (int)(r.chance(40) ? 0 : r.range(1, big)), false, "post"));
	if (r.chance(30)) { N v = gval(r, true); if (!v->is("g")) k.push_back(L("konst", v)); }
	k.push_back(L("hold", I(r.chance(30) ? r.range(1, 3) : 0)));
	gen_knobs(r, k);
	return L(k);
}
void run_C15(const N &plan) {
	AS *s = new AS; A_ = s; Actor &a = s->a;
	N steps = find(plan, "steps");
	if (!steps) discard("steps");
	std::string src = "f_id = (fn(x) {\n\treturn x;\n});\nf_add = (fn(a, b) {\n\treturn a + b;\n});\nf_push = (fn(l, x) {\n\tl->push(x);\n\treturn l;\n});\nf_swap = (fn(a, b) {\n\treturn b, a;\n});\nf_none = (fn() {\n\tlet z = 1;\n});\nf_three = (fn(a) {\n\treturn a, 2, 'three';\n});\nlet_cnt = (fn() {\n\tlet c = 0;\n\treturn (fn() {\n\t\tc += 1;\n\t\treturn c;\n\t});\n});\nf_cnt = let_cnt();\nf_err = (fn() {\n\tassert false;\n});\nf_cb = (fn(x) {\n\treturn hv(x)\n});\nf_cb2 = (fn(a, b) {\n\tlet q = h2(a, b);\n\treturn q;\n});\nmain = (fn() {\n";
	std::vector<N> flat;
	int tmp = 0;
	for (size_t i = 1; i < steps->size(); i++) {
		const N &x = steps->k[i]; flat.push_back(x);
		if (x->head() == "sset") src += "\t" + x->k[1]->a + " = " + scripttext(x->k[2]) + ";\n";
		else if (x->head() == "sget") src += "\thout(" + x->k[1]->a + ");\n";
		else {
			std::string c = x->k[1]->a + "("; for (size_t j = 3; j < x->size(); j++) c += (j > 3 ? ", " : "") + scripttext(x->k[j]); c += ")";
			int64_t nr = x->k[2]->num();
			if (nr == 0) src += "\t" + c + ";\n";
			else { std::string l; for (int64_t j = 0; j < nr; j++) l += (j ? ", let v" : "let v") + std::to_string(tmp + j); src += "\t" + l + " = " + c + ";\n"; for (int64_t j = 0; j < nr; j++) src += "\thout(v" + std::to_string(tmp++) + ");\n"; }
		}
	}
	src += "\treturn 0;\n});\nmain();\n";
	logs(src);
	s->steps = L(flat);
	s->seqs = find(plan, "seqs"); if (!s->seqs) s->seqs = L("seqs");
	set_step_budget(20000000);
	std::vector<V> outer; s->st = &outer;
	if (N c = find(plan, "konst")) {                // a session that came before
		if (c->k[1]->is("g")) discard("konst");
		a.open_buf("const konst = " + scripttext(c->k[1]) + ";\n");
		a.libs();
		if (int st = YASL_execute_REPL(a.S)) violation("status", "declaring a constant failed with %d", st);
		YASL_resetstate_bb(a.S, src.c_str(), src.size());
		V v = val_of(c->k[1]); s->globals["konst"] = v; s->consts.insert("konst"); a.declared.insert("konst");
	} else {
		a.open_buf(src);
		a.libs();
	}
	struct { const char *n; int (*f)(YASL_State *); int k; } H[] = {{"h0", h_0, 0}, {"h1", h_1, 1}, {"h2", h_2, 2}, {"h3", h_3, 3}, {"hv", h_v, -1}, {"h1v", h_1v, -2}, {"h2v", h_2v, -3}, {"hout", h_out, 1}};
	for (auto &h : H) a.def(h.n, h.f, h.k);
	for (int i = 0; i < NG; i++) { std::string g = "g" + std::to_string(i); a.decl(g); s->globals[g] = V(); }
	static const char *F[] = {"f_id", "f_add", "f_push", "f_swap", "f_none", "f_three", "f_cnt", "f_err", "f_cb", "f_cb2", "let_cnt", "main"};
	for (auto f : F) { a.decl(f); }
	for (auto f : F) s->globals[f] = V();
	if (N pre = find(plan, "pre")) ops(pre);
	// a run starts on an empty stack
	while (!outer.empty()) { YASL_pop(a.S); outer.pop_back(); }
	int64_t hold = getnum(plan, "hold", 0);
	for (int64_t i = 0; i < hold; i++) { YASL_pushint(a.S, 7000 + i); outer.push_back(V::In(7000 + i)); }
	for (auto f : F) s->globals[f] = mkfn(f);
	std::vector<V> nowhere; s->st = &nowhere;
	s->in_run = true;
	a.run();
	s->in_run = false; s->st = &outer; s->pend.clear(); s->depth = 0;
	logf_("status %d %s", a.status, a.errtext().substr(0, 80).c_str());
	if (s->thrown ? a.status != s->expect : a.status != 0) violation("status", "the run ended with status %d (%s), want %d", a.status, a.errtext().c_str(), s->thrown ? s->expect : 0);
	if (!s->thrown) settle();
	compare_traces("the program", s->want, a.trace);
	check_stack("the run");
	if (N post = find(plan, "post")) ops(post);
	for (auto &g : s->globals) {
		if (YASL_loadglobal(a.S, g.first.c_str()) != YASL_SUCCESS) violation("global", "%s is gone", g.first.c_str());
		std::string d = dump_top(a.S);
		if (g.second.t != 'h' && d != dmp(g.second)) violation("global", "%s is %s, want %s", g.first.c_str(), d.substr(0, 100).c_str(), dmp(g.second).substr(0, 100).c_str());
		YASL_pop(a.S);
	}
	if (a.capture() != "") violation("output", "output out of nowhere");
	a.close();
	for (auto *o : a.objs) if (o->destroyed != 1) violation("leak-object", "userdata %lld was destroyed %d times", (long long)o->id, o->destroyed);
	check_no_leak("after the state was deleted", false);
	sh->nontrivial = sh->loghash | 1;
	finish_ok();
}
