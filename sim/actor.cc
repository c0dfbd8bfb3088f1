#include "actor.h"
#include <algorithm>
const char *OBJ_TAG = "simobj";
static std::map<YASL_State *, Actor *> actors;
Actor *actor_of(YASL_State *S) { auto it = actors.find(S); if (it == actors.end()) harness_error("host function called on an unknown state"); return it->second; }

extern "C" void sim_free(void *);
std::string top_bytes(YASL_State *S);
static std::string top_str(YASL_State *S) { return top_bytes(S); }
std::string top_bytes(YASL_State *S) {
	YASL_duptop(S);
	YASL_len(S);
	int64_t n = YASL_popint(S);
	char *c = YASL_peekcstr(S);
	if (!c) return "";
	std::string s(c, (size_t)n);
	sim_free(c);
	return s;
}
static bool top_isuserdata(YASL_State *S) { return YASL_isuserdata(S, OBJ_TAG); }
static Obj *top_obj(YASL_State *S) { YASL_duptop(S); return (Obj *)YASL_popuserdata(S); }
std::string dump_top(YASL_State *S, int depth) {
	char b[64];
	if (depth > 5) return "...";
	if (YASL_isundef(S)) return "undef";
	if (YASL_isbool(S)) return YASL_peekbool(S) ? "true" : "false";
	if (YASL_isint(S)) return std::to_string(YASL_peekint(S));
	if (YASL_isfloat(S)) { snprintf(b, sizeof b, "%.17gf", YASL_peekfloat(S)); return b; }
	if (YASL_isstr(S)) return esc_dump(top_str(S));
	if (YASL_islist(S)) {
		YASL_duptop(S); YASL_len(S); int64_t n = YASL_popint(S);
		std::string o = "[";
		for (int64_t i = 0; i < n; i++) { if (i) o += ","; YASL_listget(S, i); o += dump_top(S, depth + 1); YASL_pop(S); if (o.size() > 100000) break; }
		return o + "]";
	}
	if (YASL_istable(S)) {
		std::vector<std::string> e;
		YASL_pushundef(S);
		while (YASL_tablenext(S)) {
			std::string v = dump_top(S, depth + 1); YASL_pop(S);
			std::string k = dump_top(S, depth + 1);
			e.push_back(k + ":" + v);
			if (e.size() > 100000) violation("table-walk", "a walk over a table did not end after %zu entries", e.size());
		}
		std::sort(e.begin(), e.end());
		std::string o = "{"; for (size_t i = 0; i < e.size(); i++) { if (i) o += ","; o += e[i]; } return o + "}";
	}
	if (top_isuserdata(S)) {
		Obj *o = top_obj(S);
		if (o->destroyed) violation("destroyed-but-reachable", "userdata %lld is reachable after its destructor ran", (long long)o->id);
		return "obj#" + std::to_string(o->id);
	}
	const char *t = YASL_peektypename(S);
	std::string ty = t ? t : "?";
	if (ty == "fn") return "fn";
	return "userdata";
}
static void obj_del(void *p) {
	Obj *o = (Obj *)p;
	if (++o->destroyed > 1) violation("double-destroy", "destructor of userdata %lld ran twice", (long long)o->id);
}
Obj *Actor::mkobj() { Obj *o = new Obj{(int64_t)objs.size() + 1, 0, this}; objs.push_back(o); return o; }
int Actor::destroyed_count() { int n = 0; for (auto *o : objs) n += o->destroyed; return n; }
void push_value(Actor &a, const V &v) {
	YASL_State *S = a.S;
	switch (v.t) {
	case 'u': YASL_pushundef(S); break;
	case 'b': YASL_pushbool(S, v.i); break;
	case 'i': YASL_pushint(S, v.i); break;
	case 'f': YASL_pushfloat(S, v.d); break;
	case 's': YASL_pushlstr(S, v.s.data(), v.s.size()); break;
	case 'l': YASL_pushlist(S); for (auto &x : v.o->items) { push_value(a, x); YASL_listpush(S); } break;
	case 't': YASL_pushtable(S); for (auto &p : v.o->kv) { push_value(a, p.first); push_value(a, p.second); YASL_tableset(S); } break;
	default: YASL_pushundef(S);
	}
}
// ---- host functions ----
static Actor &enter(YASL_State *S, const char *name) {
	Actor &a = *actor_of(S);
	a.hostcalls++;
	if (a.on_host) a.on_host(a);
	fiber_yield_point();
	if (a.abort_at == a.hostcalls) {
		a.note(std::string("abort ") + name);
		fired(F_HOST_ABORT);
		if (a.abort_print) YASL_print_err(S, "host abort");
		YASL_throw_err(S, a.abort_status);
	}
	return a;
}
Actor &host_enter(YASL_State *S, const char *name) { return enter(S, name); }
static int hf_emit(YASL_State *S) { Actor &a = enter(S, "hemit"); a.note("emit " + dump_top(S)); YASL_pop(S); YASL_pushundef(S); return 1; }
static int hf_bag(YASL_State *S) {
	Actor &a = enter(S, "hbag");
	YASL_duptop(S); YASL_len(S); int64_t n = YASL_popint(S);
	std::vector<std::string> e;
	for (int64_t i = 0; i < n; i++) { YASL_listget(S, i); e.push_back(dump_top(S, 1)); YASL_pop(S); }
	std::sort(e.begin(), e.end());
	std::string o; for (auto &x : e) o += x + ",";
	a.note("bag " + o);
	YASL_pushundef(S);
	return 1;
}
static int hf_val(YASL_State *S) { Actor &a = enter(S, "hval"); int64_t n = YASL_popint(S); V v = a.hvals.empty() ? V() : a.hvals[(size_t)llabs(n) % a.hvals.size()]; push_value(a, v); return 1; }
static int hf_id(YASL_State *S) { enter(S, "hid"); return 1; }
static int hf_obj(YASL_State *S) { Actor &a = enter(S, "hobj"); YASL_pop(S); Obj *o = a.mkobj(); a.note("obj " + std::to_string(o->id)); YASL_pushuserdata(S, o, OBJ_TAG, obj_del); return 1; }
static int hf_throw(YASL_State *S) { Actor &a = enter(S, "hthrow"); int64_t n = YASL_peekint(S); a.note("throw"); fired(F_HOST_ABORT); if (n & 1) YASL_print_err(S, "thrown"); YASL_throw_err(S, 2 + (int)(llabs(n) % 10)); return 0; }
static int hf_lpush(YASL_State *S) {
	Actor &a = enter(S, "hlpush");
	if (YASL_listpush(S) != YASL_SUCCESS) { a.note("lpush refused"); YASL_pushundef(S); return 1; }
	YASL_duptop(S); YASL_len(S); a.note("lpush " + std::to_string(YASL_popint(S)));
	YASL_pushundef(S);
	return 1;
}
static int hf_tset(YASL_State *S) {
	Actor &a = enter(S, "htset");
	a.note(YASL_tableset(S) == YASL_SUCCESS ? "tset ok" : "tset refused");
	YASL_pushundef(S);
	return 1;
}
static int hf_lget(YASL_State *S) {
	Actor &a = enter(S, "hlget");
	int64_t n = YASL_popint(S);
	if (YASL_listget(S, n) != YASL_SUCCESS) { a.note("lget refused"); YASL_pushundef(S); }
	return 1;
}
static int hf_titer(YASL_State *S) {
	Actor &a = enter(S, "htiter");
	std::vector<std::string> e;
	YASL_pushundef(S);
	while (YASL_tablenext(S)) {
		std::string v = dump_top(S, 1); YASL_pop(S);
		e.push_back(dump_top(S, 1) + ":" + v);
		if (e.size() > 100000) violation("table-walk", "a walk over a table did not end");
	}
	std::sort(e.begin(), e.end());
	std::string o; for (auto &x : e) o += x + ",";
	a.note("titer " + o);
	YASL_pushint(S, (int64_t)e.size());
	return 1;
}
static int hf_len(YASL_State *S) { enter(S, "hlen"); YASL_len(S); return 1; }
static int hf_setg(YASL_State *S) {
	Actor &a = enter(S, "hsetg");
	// (name, value): value on top
	char *n = nullptr;
	YASL_State *s = S;
	// value is top; set it under a temporary global, then read the name
	YASL_setglobal(s, "__tmp");
	n = YASL_popcstr(s);
	std::string name = n ? n : ""; sim_free(n);
	YASL_loadglobal(s, "__tmp");
	if (YASL_setglobal(s, name.c_str()) != YASL_SUCCESS) { a.note("setg refused"); YASL_pop(s); }
	YASL_pushundef(s); YASL_setglobal(s, "__tmp");
	YASL_pushundef(S);
	return 1;
}
static int hf_getg(YASL_State *S) { enter(S, "hgetg"); char *n = YASL_popcstr(S); std::string name = n ? n : ""; sim_free(n); if (YASL_loadglobal(S, name.c_str()) != YASL_SUCCESS) YASL_pushundef(S); return 1; }
static int hf_sum(YASL_State *S) {
	Actor &a = enter(S, "hsum");
	int64_t n = YASL_peekvargscount(S);
	std::vector<std::string> e;
	for (int64_t i = 0; i < n; i++) { e.push_back(dump_top(S)); YASL_pop(S); }
	std::reverse(e.begin(), e.end());
	std::string o; for (auto &x : e) o += x + ",";
	a.note("sum " + o);
	YASL_pushint(S, n);
	return 1;
}
static int hf_nest(YASL_State *S) { Actor &a = enter(S, "hnest"); int64_t n = YASL_popint(S); a.note("nest " + std::to_string(n)); fired(F_NEST); if (a.on_nest) a.on_nest(a, n); YASL_pushundef(S); return 1; }
static int hf_call(YASL_State *S) {
	Actor &a = enter(S, "hcall");
	a.note("call>");
	fired(F_CALLBACK);
	int n = YASL_functioncall(S, 1);
	if (n < 0) violation("return-count", "a call from the host returned %d values", n);
	if (n == 0) YASL_pushundef(S);
	for (; n > 1; n--) YASL_pop(S);      // the first one
	a.note("call< " + dump_top(S));
	return 1;
}
void Actor::def(const char *name, int (*f)(YASL_State *), int nargs) { YASL_pushcfunction(S, f, nargs); YASLX_initglobal(S, name); declared.insert(name); }
void Actor::decl(const std::string &name) { YASL_pushundef(S); YASLX_initglobal(S, name.c_str()); declared.insert(name); }
void Actor::set(const std::string &name, const V &v) { push_value(*this, v); if (!declared.count(name)) { YASL_declglobal(S, name.c_str()); declared.insert(name); } if (YASL_setglobal(S, name.c_str()) != YASL_SUCCESS) violation("setglobal", "setting the declared global %s failed", name.c_str()); }
bool Actor::get(const std::string &name, std::string &d) { if (YASL_loadglobal(S, name.c_str()) != YASL_SUCCESS) return false; d = dump_top(S); YASL_pop(S); return true; }
bool Actor::open_file(const std::string &path) { S = YASL_newstate(path.c_str()); if (S) actors[S] = this; return S != nullptr; }
void Actor::open_buf(const std::string &src) { S = YASL_newstate_bb(src.data(), src.size()); actors[S] = this; }
void Actor::libs(int mask, bool tostr) {
	if (mask == 63) YASLX_decllibs(S);
	else {
		if (mask & 1) YASL_decllib_collections(S);
		if (mask & 2) YASL_decllib_io(S);
		if (mask & 4) YASL_decllib_math(S);
		if (mask & 8) YASL_decllib_require(S);
		if (mask & 16) YASL_decllib_require_c(S);
		if (mask & 32) YASL_decllib_mt(S);
	}
	if (tostr) { YASL_setprintout_tostr(S); YASL_setprinterr_tostr(S); }
	def("hemit", hf_emit, 1); def("hbag", hf_bag, 1); def("hval", hf_val, 1); def("hid", hf_id, 1); def("hobj", hf_obj, 1); def("hthrow", hf_throw, 1);
	def("hlpush", hf_lpush, 2); def("htset", hf_tset, 3); def("hlget", hf_lget, 2); def("htiter", hf_titer, 1); def("hlen", hf_len, 1);
	def("hsetg", hf_setg, 2); def("hgetg", hf_getg, 1); def("hsum", hf_sum, -1); def("hnest", hf_nest, 1); def("hcall", hf_call, 2);
	for (auto g : {"g0", "g1", "g2", "__tmp"}) decl(g);
}
std::string Actor::errtext() {
	YASL_loadprinterr(S);
	char *c = YASL_popcstr(S);
	std::string r = c ? c : "";
	sim_free(c);
	return r;
}
std::string Actor::capture() {
	YASL_loadprintout(S);
	std::string s = YASL_isstr(S) ? top_str(S) : "";
	YASL_pop(S);
	return s;
}
void Actor::close() { if (!S) return; actors.erase(S); YASL_delstate(S); S = nullptr; }
void Actor::check_objs(const char *when) {
	for (auto *o : objs) if (o->destroyed != 1) violation("not-destroyed", "%s: the destructor of userdata %lld ran %d times", when, (long long)o->id, o->destroyed);
}
void check_no_leak(const char *when, bool cyclic) {
	if (cyclic || !live_allocs()) return;
	violation("leak", "%s: %lld allocations (%lld bytes) still live after the state was deleted; oldest: %s", when, (long long)live_allocs(), (long long)live_bytes(), first_leak().c_str());
}
std::string first_diff(const std::string &w_, const std::string &g) {
	size_t i = 0; while (i < w_.size() && i < g.size() && w_[i] == g[i]) i++;
	size_t b = i > 40 ? i - 40 : 0;
	return "at byte " + std::to_string(i) + ": want ..." + esc_dump(w_.substr(b, 100)) + " got ..." + esc_dump(g.substr(b, 100));
}
void compare_traces(const char *who, const std::vector<std::string> &want, const std::vector<std::string> &got) {
	size_t n = std::min(want.size(), got.size());
	for (size_t i = 0; i < n; i++) if (want[i] != got[i]) {
		size_t k = 0; while (k < want[i].size() && k < got[i].size() && want[i][k] == got[i][k]) k++;
		std::string at; if (k > 500) at = " (they differ from byte " + std::to_string(k) + ": want ..." + want[i].substr(k - 40, 120) + "... got ..." + got[i].substr(k - 40, 120) + "...)";
		violation("trace", "%s: host-visible event %zu: want %s, got %s%s", who, i, want[i].substr(0, 300).c_str(), got[i].substr(0, 300).c_str(), at.c_str());
	}
	if (want.size() != got.size()) violation("trace-length", "%s: want %zu host-visible events, got %zu; first %s: %s", who, want.size(), got.size(), want.size() > got.size() ? "missing" : "extra", (want.size() > got.size() ? want[n] : got[n]).substr(0, 700).c_str());
}
