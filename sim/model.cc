#include "model.h"
#include <algorithm>
#include <cmath>

std::string esc_dump(const std::string &s) {
	std::string o = "'";
	for (unsigned char c : s) { if (c < 32 || c >= 127 || c == '\'' || c == '\\') { char b[8]; snprintf(b, 8, "\\x%02x", c); o += b; } else o += (char)c; }
	return o + "'";
}
std::string fmt_float(double d) {
	// the language prints the shortest of a few fixed forms; generators keep to values with few digits, for which this is exact
	if (std::isnan(d)) return "nan";
	if (std::isinf(d)) return d > 0 ? "inf" : "-inf";
	char b[64];
	for (int p = 1; p < 18; p++) { snprintf(b, sizeof b, "%.*f", p, d); if (strtod(b, nullptr) == d) break; }
	std::string s = b;
	while (s.size() > 2 && s.back() == '0' && s[s.size() - 2] != '.') s.pop_back();
	return s;
}
std::string dump(const V &v, int depth) {
	char b[64];
	static int budget;
	if (depth == 0) budget = 4000;
	if (--budget < 0) throw Abandon{"dump too large"};
	if (depth > 5) return "...";
	switch (v.t) {
	case 'u': return "undef";
	case 'b': return v.i ? "true" : "false";
	case 'i': return std::to_string(v.i);
	case 'f': snprintf(b, sizeof b, "%.17gf", v.d); return b;
	case 's': return esc_dump(v.s);
	case 'l': { std::string o = "["; for (size_t i = 0; i < v.o->items.size(); i++) { if (i) o += ","; o += dump(v.o->items[i], depth + 1); if (o.size() > 60000) throw Abandon{"dump too long"}; } return o + "]"; }
	case 't': {
		std::vector<std::string> e;
		for (auto &p : v.o->kv) e.push_back(dump(p.first, depth + 1) + ":" + dump(p.second, depth + 1));
		std::sort(e.begin(), e.end());
		std::string o = "{"; for (size_t i = 0; i < e.size(); i++) { if (i) o += ","; o += e[i]; } return o + "}";
	}
	case 'o': return "obj#" + std::to_string(v.o->id);
	case 'e': case 'p': return "userdata";
	case 'c': case 'h': return "fn";
	}
	return "?";
}

// ---------------- values ----------------
MP Model::mklist(std::vector<V> v) { auto o = std::make_shared<MObj>(); o->t = 'l'; o->items = std::move(v); return o; }
V Model::listv(std::vector<V> v) { V r; r.t = 'l'; r.o = mklist(std::move(v)); return r; }
V Model::tablev() { V r; r.t = 't'; r.o = std::make_shared<MObj>(); r.o->t = 't'; return r; }
static bool isnum(const V &v) { return v.t == 'i' || v.t == 'f'; }
static double asd(const V &v) { return v.t == 'i' ? (double)v.i : v.d; }
bool Model::same(const V &a, const V &b, bool typed) {
	if (isnum(a) && isnum(b)) {
		if (typed && a.t != b.t) return false;
		if (a.t == 'i' && b.t == 'i') return a.i == b.i;
		return asd(a) == asd(b);
	}
	if (a.t != b.t) return false;
	switch (a.t) {
	case 'u': return true;
	case 'b': return a.i == b.i;
	case 's': return a.s == b.s;
	default: return a.o == b.o;
	}
}
bool Model::eq(const V &a, const V &b) {
	burn();
	if (a.t == b.t && (a.t == 'l' || a.t == 't') && a.o->has_mt) {
		V *f = a.o->mt ? rawget(*a.o->mt, V::St("__eq")) : nullptr;
		if (!f) throw Abandon{"eq without __eq"};
		V r = call(V(*f), {a, b});
		if (r.t != 'b') throw Abandon{"__eq result"};
		return r.i;
	}
	if (a.t == 'l' && b.t == 'l') {
		if (a.o->has_mt) throw Abandon{"eq on metatabled list"};
		if (++depth > 60) throw Abandon{"depth"};
		bool r = a.o->items.size() == b.o->items.size();
		for (size_t i = 0; r && i < a.o->items.size(); i++) { if (i >= b.o->items.size()) { r = false; break; } V x = a.o->items[i], y = b.o->items[i]; r = eq(x, y); }
		depth--;
		return r;
	}
	if (a.t == 't' && b.t == 't') {
		if (a.o->has_mt) throw Abandon{"eq on metatabled table"};
		if (++depth > 60) throw Abandon{"depth"};
		bool r = a.o->kv.size() == b.o->kv.size();
		for (size_t i = 0; r && i < a.o->kv.size(); i++) {
			V *o = rawget(*b.o, a.o->kv[i].first);
			// which pair is compared first depends on hash order: an error in one of several comparisons is order dependent
			V x = a.o->kv[i].second; r = o && eq(x, V(*o));
		}
		depth--;
		return r;
	}
	if (a.t == 'e' && b.t == 'e') {
		if (a.o->items.size() != b.o->items.size()) return false;
		for (auto &x : a.o->items) { bool f = false; for (auto &y : b.o->items) if (same(x, y, true)) f = true; if (!f) return false; }
		return true;
	}
	if ((a.t == 'o' || a.t == 'e') && (b.t == 'o' || b.t == 'e')) throw ScriptErr{5};
	return same(a, b, false);
}
bool Model::truthy(const V &v) {
	switch (v.t) {
	case 'u': return false;
	case 'b': return v.i;
	case 's': return !v.s.empty();
	case 'f': return !std::isnan(v.d);
	default: return true;
	}
}
V *Model::rawget(MObj &t, const V &k) { for (auto &p : t.kv) if (same(p.first, k, true)) return &p.second; return nullptr; }
static bool hashable(const V &k) { return k.t == 'u' || k.t == 'b' || k.t == 'i' || k.t == 'f' || k.t == 's'; }
// variable names a function body mentions (its captures, seen generously)
static void names_of(const N &n, std::set<std::string> &out) {
	if (!n->list) return;
	if ((n->is("v") || n->is("=") || n->is("op=")) && n->size() > 1) out.insert(n->k[1]->a);
	for (auto &c : n->k) names_of(c, out);
}
static const std::set<std::string> &captures(const N &fn) {
	static std::map<Node *, std::pair<N, std::set<std::string>>> cache;
	auto it = cache.find(fn.get());
	if (it == cache.end()) { it = cache.emplace(fn.get(), std::make_pair(fn, std::set<std::string>())).first; names_of(fn, it->second.second); }
	return it->second.second;
}
// is `what` (an object or a variable's cell) reachable from root?
static bool contains(MObj *root, void *what, int d, std::set<void *> &seen) {
	if (root == what) return true;
	if (d > 40 || !seen.insert(root).second) return false;
	for (auto &v : root->items) if (v.o && contains(v.o.get(), what, d + 1, seen)) return true;
	for (auto &p : root->kv) { if (p.second.o && contains(p.second.o.get(), what, d + 1, seen)) return true; }
	if (root->mt && contains(root->mt.get(), what, d + 1, seen)) return true;
	if (root->env && root->fn) for (auto &nm : captures(root->fn)) {
		for (MEnv *e = root->env.get(); e; e = e->up.get()) {
			auto b = e->vars.find(nm);
			if (b == e->vars.end()) continue;
			if (b->second.get() == what) return true;
			if (b->second->o && seen.insert(b->second.get()).second && contains(b->second->o.get(), what, d + 1, seen)) return true;
			break;
		}
	}
	return false;
}
void Model::note_store(const V &c, const V &v) {
	if (!v.o) return;
	std::set<void *> seen;
	if (contains(v.o.get(), c.o.get(), 0, seen)) cyclic = true;
}
void Model::note_cell(V *cell, const V &v) {
	if (!v.o) return;
	std::set<void *> seen;
	if (contains(v.o.get(), cell, 0, seen)) cyclic = true;
}
bool Model::rawset(MObj &t, const V &k, const V &v) {
	if (!hashable(k)) return false;
	if (k.t == 'u') throw Abandon{"undef key"};
	if (k.t == 'f' && std::isnan(k.d)) throw Abandon{"nan key"};
	t.ver++;
	if (V *p = rawget(t, k)) { *p = v; return true; }
	t.kv.push_back({k, v});
	return true;
}

std::string Model::str(const V &v, std::vector<MObj *> seen) {
	burn();
	switch (v.t) {
	case 'u': return "undef";
	case 'b': return v.i ? "true" : "false";
	case 'i': return std::to_string(v.i);
	case 'f': return fmt_float(v.d);
	case 's': return v.s;
	case 'l': case 't': {
		// a user metatable may supply tostr
		if (v.o->has_mt) {
			if (V *f = v.o->mt ? rawget(*v.o->mt, V::St("tostr")) : nullptr) {
				V r = call(*f, {v});
				if (r.t != 's') throw ScriptErr{5};
				return r.s;
			}
			throw ScriptErr{5};
		}
		if (seen.size() > 12) throw Abandon{"depth"};
		seen.push_back(v.o.get());
		auto elem = [&](const V &e, bool nested) -> std::string {
			if (e.t == 'l' || e.t == 't') {
				for (auto *p : seen) if (p == e.o.get()) return e.t == 'l' ? "[...]" : "{...}";
				if (nested && e.o->has_mt) {
					// nested containers are printed by the built-in printer, whatever their metatable
					V c = e; c.o = std::make_shared<MObj>(*e.o); (void)c;
					throw Abandon{"nested metatabled container"};
				}
				return str(e, seen);
			}
			return str(e, seen);
		};
		std::string o;
		if (v.t == 'l') {
			o = "[";
			for (size_t i = 0; i < v.o->items.size(); i++) { if (i) o += ", "; o += elem(v.o->items[i], true); }
			return o + "]";
		}
		if (v.o->kv.size() > 1) throw Abandon{"table print order"};
		o = "{";
		for (auto &p : v.o->kv) o += str(p.first, seen) + ": " + elem(p.second, true);
		return o + "}";
	}
	case 'e': {
		if (v.o->items.size() > 1) throw Abandon{"set print order"};
		return v.o->items.empty() ? "set()" : "set(" + str(v.o->items[0]) + ")";
	}
	case 'o': throw ScriptErr{5};
	}
	throw Abandon{"print of function"};
}

// ---------------- operators ----------------
V Model::bin(const std::string &op, const V &a, const V &b) {
	burn();
	if (op == "~") { std::string rb = str(b); std::string ra = str(a); if (ra.size() + rb.size() > 4000) throw Abandon{"long"}; return V::St(ra + rb); }
	if (op == "==") return V::B(eq(a, b));
	if (op == "!=") return V::B(!eq(a, b));
	if (op == "<" || op == ">" || op == "<=" || op == ">=") {
		if (a.t == 's' && b.t == 's') { int c = a.s.compare(b.s); return V::B(op == "<" ? c < 0 : op == ">" ? c > 0 : op == "<=" ? c <= 0 : c >= 0); }
		if (isnum(a) && isnum(b)) { double x = asd(a), y = asd(b); return V::B(op == "<" ? x < y : op == ">" ? x > y : op == "<=" ? x <= y : x >= y); }
		if (a.t == 'e' && b.t == 'e') {
			auto sub = [&](const V &x, const V &y) { for (auto &p : x.o->items) { bool f = false; for (auto &q : y.o->items) if (same(p, q, true)) f = true; if (!f) return false; } return true; };
			size_t la = a.o->items.size(), lb = b.o->items.size();
			if (op == "<") return V::B(sub(a, b) && la < lb);
			if (op == "<=") return V::B(sub(a, b) && la <= lb);
			if (op == ">") return V::B(sub(b, a) && la > lb);
			return V::B(sub(b, a) && la >= lb);
		}
		if ((a.t == 't' || a.t == 'l') && a.o->has_mt) throw Abandon{"overload"};
		throw ScriptErr{5};
	}
	if (op == "//" || op == "%") {
		if (b.t == 'i' && b.i == 0) throw ScriptErr{6};
		if (a.t == 'i' && b.t == 'i') {
			if (b.i == -1) return V::In(op == "//" ? (int64_t)-(uint64_t)a.i : 0);
			return V::In(op == "//" ? a.i / b.i : a.i % b.i);
		}
		if (a.o && a.o->has_mt) throw Abandon{"overload"};
		throw ScriptErr{5};
	}
	if (op == "+" || op == "-" || op == "*") {
		if (a.t == 'i' && b.t == 'i') {
			if (llabs(a.i) > (1ll << 31) || llabs(b.i) > (1ll << 31)) throw Abandon{"big int"};
			return V::In(op == "+" ? a.i + b.i : op == "-" ? a.i - b.i : a.i * b.i);
		}
		if (isnum(a) && isnum(b)) { double x = asd(a), y = asd(b); double r = op == "+" ? x + y : op == "-" ? x - y : x * y; if (std::fabs(r) > 1e6) throw Abandon{"big float"}; return V::F(r); }
		if (op == "+" && a.t == 'l' && !a.o->has_mt) {
			if (b.t != 'l') throw ScriptErr{5};
			std::vector<V> r = a.o->items; r.insert(r.end(), b.o->items.begin(), b.o->items.end());
			if (r.size() > 400) throw Abandon{"long"};
			return listv(r);
		}
		if (a.o && a.o->has_mt && op == "+") {
			if (V *f = a.o->mt ? rawget(*a.o->mt, V::St("__add")) : nullptr) return call(*f, {a, b});
			throw ScriptErr{5};
		}
		throw ScriptErr{5};
	}
	if (op == "&" || op == "|" || op == "^" || op == "&^") {
		if (a.t == 'i' && b.t == 'i') return V::In(op == "&" ? a.i & b.i : op == "|" ? a.i | b.i : op == "^" ? a.i ^ b.i : a.i & ~b.i);
		if (a.t == 'e') {
			if (b.t != 'e') throw ScriptErr{5};
			V r; r.t = 'e'; r.o = std::make_shared<MObj>(); r.o->t = 'e';
			auto in = [&](const V &x, const V &s) { for (auto &q : s.o->items) if (same(q, x, true)) return true; return false; };
			for (auto &x : a.o->items) { bool ib = in(x, b); if (op == "&" ? ib : op == "|" ? true : !ib) r.o->items.push_back(x); }
			if (op == "|" || op == "^") for (auto &x : b.o->items) if (!in(x, a)) r.o->items.push_back(x);
			return r;
		}
		if (a.t == 't' && op == "|" && !a.o->has_mt) {
			if (b.t != 't') throw ScriptErr{5};
			V r = tablev(); r.o->kv = a.o->kv;
			for (auto &p : b.o->kv) rawset(*r.o, p.first, p.second);
			return r;
		}
		if (a.o && a.o->has_mt) throw Abandon{"overload"};
		throw ScriptErr{5};
	}
	if (op == "<<" || op == ">>") {
		if (a.t == 'i' && b.t == 'i') {
			if (b.i < 0 || b.i > 63) throw Abandon{"shift"};
			return V::In(op == "<<" ? (int64_t)((uint64_t)a.i << b.i) : a.i >> b.i);
		}
		if (a.o && a.o->has_mt) throw Abandon{"overload"};
		throw ScriptErr{5};
	}
	throw Abandon{"op"};
}
V Model::idx(const V &o, const V &k) {
	burn();
	switch (o.t) {
	case 'l':
		if (o.o->has_mt) {
			if (V *p = o.o->mt && hashable(k) ? rawget(*o.o->mt, k) : nullptr) return *p;
			throw Abandon{"metatabled list index"};
		}
		if (k.t != 'i') throw ScriptErr{5};
		{ int64_t n = (int64_t)o.o->items.size(), i = k.i; if (i < -n || i >= n) throw ScriptErr{7}; return o.o->items[(size_t)(i < 0 ? i + n : i)]; }
	case 't':
		if (o.o->has_mt) {
			if (o.o->mt && hashable(k)) if (V *p = rawget(*o.o->mt, k)) return *p;
			if (V *f = o.o->mt ? rawget(*o.o->mt, V::St("__get")) : nullptr) return call(*f, {o, k});
			if (hashable(k)) if (V *p = rawget(*o.o, k)) return *p;
			throw ScriptErr{7};
		}
		if (!hashable(k)) return V::undef();
		if (k.t == 'u') throw Abandon{"key"};
		{ V *p = rawget(*o.o, k); return p ? *p : V::undef(); }
	case 'e': {
		if (k.t == 'u') throw Abandon{"set key"};
		if (!hashable(k)) return V::B(false);
		for (auto &x : o.o->items) if (same(x, k, true)) return V::B(true);
		return V::B(false);
	}
	case 's':
		if (k.t != 'i') throw Abandon{"str index"};
		{ int64_t n = (int64_t)o.s.size(), i = k.i; if (i < -n || i >= n) throw ScriptErr{7}; return V::St(o.s.substr((size_t)(i < 0 ? i + n : i), 1)); }
	default: throw ScriptErr{7};
	}
}
void Model::setidx(V &o, const V &k, const V &v) {
	burn();
	if (o.t == 'l' && !o.o->has_mt) {
		if (k.t != 'i') throw ScriptErr{5};
		int64_t n = (int64_t)o.o->items.size(), i = k.i;
		if (i < -n || i >= n) throw ScriptErr{7};
		o.o->items[(size_t)(i < 0 ? i + n : i)] = v;
		note_store(o, v);
		return;
	}
	if (o.t == 't') {
		if (o.o->has_mt) {
			if (V *f = o.o->mt ? rawget(*o.o->mt, V::St("__set")) : nullptr) { call(*f, {o, k, v}); return; }
			throw ScriptErr{5};
		}
		if (v.t == 'u') {
			if (!hashable(k)) return;
			if (k.t == 'u') throw Abandon{"key"};
			o.o->ver++;
			for (size_t i = 0; i < o.o->kv.size(); i++) if (same(o.o->kv[i].first, k, true)) { o.o->kv.erase(o.o->kv.begin() + (long)i); break; }
			return;
		}
		if (!rawset(*o.o, k, v)) throw ScriptErr{5};
		note_store(o, v);
		return;
	}
	throw ScriptErr{5};
}
V Model::call(const V &f, std::vector<V> args) {
	burn();
	if (f.t == 'h') { V v = host(f.o->name, args); rets = {v}; return v; }
	if (f.t != 'c') {
		if (f.o && f.o->has_mt) throw Abandon{"__call"};
		throw ScriptErr{5};
	}
	if (++depth > 30) throw Abandon{"depth"};
	auto env = std::make_shared<MEnv>();
	env->up = f.o->env;
	const N &fn = f.o->fn;      // (lam (params) body...)
	const N &ps = fn->k[1];
	for (size_t i = 0; i < ps->size(); i++) env->vars[ps->k[i]->a] = std::make_shared<V>(i < args.size() ? args[i] : V());
	V ret;
	int l = loops;
	Fl fl = block(fn, 2, env, ret, false);
	loops = l;
	depth--;
	if (fl == RET) rets = retv; else rets = {V()};      // falling off the end returns one undef
	return rets.empty() ? V() : rets[0];
}
void Model::evs(const N &e, EP env, std::vector<V> &out, bool tail) {
	if (e->is("tern") && tail) { evs(truthy(ev(e->k[1], env)) ? e->k[2] : e->k[3], env, out, true); return; }
	V v = ev(e, env);
	if (e->is("call") || e->is("h") || e->is("m")) { std::vector<V> r = rets; out.insert(out.end(), r.begin(), r.end()); }
	else out.push_back(v);
}
static int64_t cmp_sort(const V &a, const V &b) {
	if (a.t == 's') return a.s.compare(b.s);
	if (a.t == 'i' && b.t == 'i') return a.i < b.i ? -1 : a.i > b.i;
	long double x = a.t == 'i' ? (long double)a.i : (long double)a.d, y = b.t == 'i' ? (long double)b.i : (long double)b.d;
	return x < y ? -1 : x > y;
}
V Model::method(const V &obj, const std::string &m, std::vector<V> a) {
	burn();
	if ((obj.t == 'l' || obj.t == 't') && obj.o->has_mt) {
		V *f = obj.o->mt ? rawget(*obj.o->mt, V::St(m)) : nullptr;
		if (f) { a.insert(a.begin(), obj); return call(*f, a); }
		if (obj.t == 't') if (V *p = rawget(*obj.o, V::St(m))) { a.insert(a.begin(), obj); return call(*p, a); }
		throw ScriptErr{7};
	}
	auto arg = [&](size_t i) { return i < a.size() ? a[i] : V(); };
	if (obj.t == 'l') {
		auto &it = obj.o->items;
		if (m == "push") { it.push_back(arg(0)); if (it.size() > 600) throw Abandon{"long"}; note_store(obj, arg(0)); return obj; }
		if (m == "pop") { if (it.empty()) throw ScriptErr{7}; V v = it.back(); it.pop_back(); return v; }
		if (m == "insert") {
			if (arg(0).t != 'i') throw ScriptErr{5};
			int64_t i = arg(0).i, n = (int64_t)it.size();
			if (i > n || i < -n) throw ScriptErr{7};
			if (i < 0) i += n;
			it.insert(it.begin() + i, arg(1));
			note_store(obj, arg(1));
			return obj;
		}
		if (m == "reverse") { std::reverse(it.begin(), it.end()); return V(); }
		if (m == "clear") { it.clear(); return V(); }
		if (m == "search") { V r; for (size_t i = 0; i < it.size(); i++) if (!it[i].o && same(it[i], arg(0), false)) r = V::In((int64_t)i); return r; }
		if (m == "count") { int64_t n = 0; for (auto &x : it) n += !x.o && same(x, arg(0), false); return V::In(n); }
		if (m == "copy") return listv(it);
		if (m == "tostr") return V::St(str(obj));
		if (m == "join") { if (arg(0).t != 's') throw ScriptErr{5}; std::string r; for (size_t i = 0; i < it.size(); i++) { if (i) r += arg(0).s; r += str(it[i]); if (r.size() > 8000) throw Abandon{"long"}; } return V::St(r); }
		if (m == "sort") {
			burn((int)(it.size() * it.size() / 40));
			char ty = 0;
			for (auto &x : it) { char c = x.t == 's' ? 's' : isnum(x) ? 'n' : 'x'; if (c == 'x' || (ty && ty != c)) throw ScriptErr{7}; ty = c; }
			std::stable_sort(it.begin(), it.end(), [](const V &x, const V &y) { return cmp_sort(x, y) < 0; });
			return V();
		}
		throw Abandon{"list method"};
	}
	if (obj.t == 't') {
		auto &kv = obj.o->kv;
		if (m == "keys" || m == "values") { std::vector<V> r; for (auto &p : kv) r.push_back(m == "keys" ? p.first : p.second); V l = listv(r); l.o->name = "unordered"; return l; }
		if (m == "remove") {
			if (arg(0).t == 'u') throw Abandon{"key"};
			if (!hashable(arg(0))) return obj;
			obj.o->ver++;
			for (size_t i = 0; i < kv.size(); i++) if (same(kv[i].first, arg(0), true)) { kv.erase(kv.begin() + (long)i); break; } return obj; }
		if (m == "copy") { V r = tablev(); r.o->kv = kv; return r; }
		if (m == "clear") { kv.clear(); obj.o->ver++; return V(); }
		if (m == "tostr") return V::St(str(obj));
		if (V *p = rawget(*obj.o, V::St(m))) (void)p;
		throw Abandon{"table method"};
	}
	if (obj.t == 'e') {
		auto &it = obj.o->items;
		auto pos = [&](const V &x) { for (size_t i = 0; i < it.size(); i++) if (same(it[i], x, true)) return (int64_t)i; return (int64_t)-1; };
		if (m == "add") { if (!hashable(arg(0)) || arg(0).t == 'u') throw ScriptErr{5}; if (pos(arg(0)) < 0) it.push_back(arg(0)); return obj; }
		if (m == "remove") { if (arg(0).t == 'u') throw Abandon{"set key"}; int64_t p = pos(arg(0)); if (p >= 0) it.erase(it.begin() + p); return arg(0); }
		if (m == "copy") { V r; r.t = 'e'; r.o = std::make_shared<MObj>(*obj.o); return r; }
		if (m == "clear") { it.clear(); return obj; }
		if (m == "tolist") { V l = listv(it); l.o->name = "unordered"; return l; }
		throw Abandon{"set method"};
	}
	if (obj.t == 's') {
		if (m == "toupper" || m == "tolower") { std::string r = obj.s; for (auto &c : r) c = (char)(m == "toupper" ? toupper(c) : tolower(c)); return V::St(r); }
		if (m == "tostr") return obj;
		if (m == "tobool") return V::B(!obj.s.empty());
		auto ws = [](char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\v' || c == '\r'; };
		const std::string &t = obj.s;
		if (m == "isal" || m == "isnum" || m == "isalnum" || m == "isspace") {
			for (char c : t) { bool al = (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'), nu = c >= '0' && c <= '9'; if (!(m == "isal" ? al : m == "isnum" ? nu : m == "isalnum" ? al || nu : ws(c))) return V::B(false); }
			return V::B(true);
		}
		if (m == "toint") {
			if (t.empty() || t.size() > 15) throw Abandon{"toint"};
			for (char c : t) if (c < '0' || c > '9') throw Abandon{"toint"};
			return V::In(strtoll(t.c_str(), nullptr, 10));
		}
		auto needstr = [&](size_t i) { if (arg(i).t != 's') throw ScriptErr{5}; return arg(i).s; };
		if (m == "startswith") { std::string n = needstr(0); return V::B(t.compare(0, n.size(), n) == 0); }
		if (m == "endswith") { std::string n = needstr(0); return V::B(t.size() >= n.size() && t.compare(t.size() - n.size(), n.size(), n) == 0); }
		if (m == "search") { std::string n = needstr(0); size_t i = t.find(n); return i == std::string::npos ? V() : V::In((int64_t)i); }
		if (m == "count") { std::string n = needstr(0); if (n.empty()) throw ScriptErr{7}; int64_t c = 0; for (size_t i = 0; (i = t.find(n, i)) != std::string::npos; i += n.size()) c++; return V::In(c); }
		if (m == "replace") {
			int64_t max = INT64_MAX;
			if (arg(2).t != 'u') { if (arg(2).t != 'i') throw ScriptErr{5}; max = arg(2).i; }
			std::string by = needstr(1), n = needstr(0), o;
			if (n.empty()) throw ScriptErr{7};
			for (size_t i = 0; i < t.size();) { if (max > 0 && t.compare(i, n.size(), n) == 0) { o += by; i += n.size(); max--; } else o += t[i++]; }
			return V::St(o);
		}
		if (m == "split") {
			std::vector<V> o;
			if (arg(0).t == 'u') { for (size_t i = 0; i < t.size();) { while (i < t.size() && ws(t[i])) i++; if (i >= t.size()) break; size_t j = i; while (j < t.size() && !ws(t[j])) j++; o.push_back(V::St(t.substr(i, j - i))); i = j; } return listv(o); }
			std::string n = needstr(0); if (n.empty()) throw ScriptErr{7};
			size_t i = 0, j; while ((j = t.find(n, i)) != std::string::npos) { o.push_back(V::St(t.substr(i, j - i))); i = j + n.size(); }
			o.push_back(V::St(t.substr(i))); return listv(o);
		}
		if (m == "trim" || m == "ltrim" || m == "rtrim") {
			size_t i = 0, j = t.size();
			if (arg(0).t == 'u') { if (m != "rtrim") while (i < j && ws(t[i])) i++; if (m != "ltrim") while (j > i && ws(t[j - 1])) j--; return V::St(t.substr(i, j - i)); }
			std::string n = needstr(0); if (n.empty()) throw ScriptErr{7};
			if (m != "rtrim") while (j - i >= n.size() && t.compare(i, n.size(), n) == 0) i += n.size();
			if (m != "ltrim") while (j - i >= n.size() && t.compare(j - n.size(), n.size(), n) == 0) j -= n.size();
			return V::St(t.substr(i, j - i));
		}
		if (m == "rep") {
			if (arg(0).t != 'i') throw ScriptErr{5};
			if (arg(0).i < 0) throw ScriptErr{7};
			if (arg(0).i * (int64_t)t.size() > 2000 || arg(0).i > 100000) throw Abandon{"rep"};
			std::string o; for (int64_t i = 0; i < arg(0).i; i++) o += t; return V::St(o);
		}
		throw Abandon{"str method"};
	}
	if (m == "tostr" && (obj.t == 'i' || obj.t == 'b' || obj.t == 'f' || obj.t == 'u')) return V::St(str(obj));
	if (m == "nosuch") throw ScriptErr{7};
	throw Abandon{"method"};
}
static void walk(const V &v, std::set<int64_t> &ids, std::set<void *> &seen) {
	if (v.t == 'o') { ids.insert(v.o->id); return; }
	if (!v.o || !seen.insert(v.o.get()).second) return;
	for (auto &x : v.o->items) walk(x, ids, seen);
	for (auto &p : v.o->kv) walk(p.second, ids, seen);
	if (v.o->mt) { V m; m.t = 't'; m.o = v.o->mt; walk(m, ids, seen); }
}
std::set<int64_t> Model::reachable(const std::vector<V> &args) {
	std::set<int64_t> ids; std::set<void *> seen;
	for (auto &b : top->vars) walk(*b.second, ids, seen);
	for (auto &g : globals) walk(g.second, ids, seen);
	for (auto &v : args) walk(v, ids, seen);
	return ids;
}
static void need(bool c) { if (!c) throw Abandon{"host misuse"}; }
V Model::host(const std::string &name, std::vector<V> &a) {
	burn();
	hostcalls++; outat.push_back(out.size());
	if (track_reach) reach.push_back(reachable(a));
	auto arg = [&](size_t i) { return i < a.size() ? a[i] : V(); };
	if (abort_at == hostcalls) { trace.push_back("abort " + name); throw ScriptErr{abort_status}; }
	if (name == "hemit") { trace.push_back("emit " + dump(arg(0))); return V(); }
	if (name == "hbag") {     // order-insensitive list dump
		need(arg(0).t == 'l');
		std::vector<std::string> e; for (auto &x : arg(0).o->items) e.push_back(dump(x, 1));
		std::sort(e.begin(), e.end());
		std::string o; for (auto &x : e) o += x + ","; trace.push_back("bag " + o); return V();
	}
	if (name == "hval") { need(arg(0).t == 'i'); V v = hvals.empty() ? V() : hvals[(size_t)(llabs(arg(0).i)) % hvals.size()]; if (v.t == 'l') v = listv(v.o->items); if (v.t == 't') { V t = tablev(); t.o->kv = v.o->kv; v = t; } return v; }
	if (name == "hid") return arg(0);
	if (name == "hobj") { need(arg(0).t == 'i'); V v; v.t = 'o'; v.o = std::make_shared<MObj>(); v.o->t = 'o'; v.o->id = (int64_t)objs.size() + 1; objs.insert(v.o->id); trace.push_back("obj " + std::to_string(v.o->id)); return v; }
	if (name == "hthrow") { need(arg(0).t == 'i'); trace.push_back("throw"); int s = 2 + (int)(llabs(arg(0).i) % 10); throw ScriptErr{s}; }
	if (name == "hlpush") { if (arg(0).t != 'l') { trace.push_back("lpush refused"); return V(); } arg(0).o->items.push_back(arg(1)); if (arg(0).o->items.size() > 600) throw Abandon{"long"}; note_store(arg(0), arg(1)); trace.push_back("lpush " + std::to_string(arg(0).o->items.size())); return V(); }
	if (name == "htset") {
		if (arg(0).t != 't' || !hashable(arg(1))) { trace.push_back("tset refused"); return V(); }
		if (arg(2).t == 'u') { setidx(a[0], arg(1), V()); trace.push_back("tset ok"); return V(); }
		rawset(*arg(0).o, arg(1), arg(2)); note_store(arg(0), arg(2)); trace.push_back("tset ok"); return V(); }
	if (name == "hlget") {
		need(arg(1).t == 'i');
		if (arg(0).t != 'l') { trace.push_back("lget refused"); return V(); }
		int64_t n = (int64_t)arg(0).o->items.size(), i = arg(1).i; if (i < -n || i >= n) throw ScriptErr{7}; return arg(0).o->items[(size_t)(i < 0 ? i + n : i)]; }
	if (name == "htiter") {   // walks a table through the host iterator
		need(arg(0).t == 't');
		std::vector<std::string> e; for (auto &p : arg(0).o->kv) e.push_back(dump(p.first, 1) + ":" + dump(p.second, 1));
		std::sort(e.begin(), e.end());
		std::string o; for (auto &x : e) o += x + ","; trace.push_back("titer " + o); return V::In((int64_t)e.size());
	}
	if (name == "hlen") {
		V v = arg(0);
		if (v.o && v.o->has_mt) throw Abandon{"overload"};
		if (v.t == 's') return V::In((int64_t)v.s.size());
		if (v.t == 'l' || v.t == 'e') return V::In((int64_t)v.o->items.size());
		if (v.t == 't') return V::In((int64_t)v.o->kv.size());
		throw ScriptErr{5};
	}
	if (name == "hsetg") { need(arg(0).t == 's'); globals[arg(0).s] = arg(1); return V(); }
	if (name == "hgetg") { need(arg(0).t == 's'); auto it = globals.find(arg(0).s); return it == globals.end() ? V() : it->second; }
	if (name == "hsum") {     // variadic
		std::string o; for (auto &x : a) o += dump(x) + ","; trace.push_back("sum " + o); return V::In((int64_t)a.size()); }
	if (name == "hcall") {    // calls a script function back from the host
		std::vector<V> r(a.begin() + (a.empty() ? 0 : 1), a.end());
		trace.push_back("call>");
		V v = call(arg(0), r);
		trace.push_back("call< " + dump(v));
		return v;
	}
	if (name == "hnest") { trace.push_back("nest " + std::to_string(arg(0).i)); if (on_nest) on_nest(arg(0).i); return V(); }
	if (name == "hdone") { trace.push_back("done " + dump(arg(0))); return V(); }
	if (name == "hwalk") {    // (fn, table): calls fn with each key
		need(arg(1).t == 't');
		V t = arg(1), f = arg(0), key;
		globals["__wt"] = t; globals["__wf"] = f;
		std::vector<std::string> seen; int64_t v0 = t.o->ver, n = 0;
		while (walk_next(t, "hstep ", "", seen, t.o->ver != v0, key)) {
			trace.push_back("hstep " + dump(key)); n++;
			call(globals["__wf"], {key});
		}
		trace.push_back("hwalked " + std::to_string(n));
		return V::In(n);
	}
	throw Abandon{"host fn"};
}
// Which key does a walk over `table` visit next? Any order will do, but only keys that are there, and all of them exactly once while nothing changes the table.
bool Model::walk_next(const V &table, const std::string &tag, const char *hostfn, std::vector<std::string> &seen, bool changed, V &key) {
	auto &kv = table.o->kv;
	burn();
	if (!oracle) {
		for (auto &p : kv) { std::string d = dump(p.first); if (std::find(seen.begin(), seen.end(), d) == seen.end()) { seen.push_back(d); key = p.first; return true; } }
		return false;
	}
	std::string e = trace.size() < oracle->size() ? (*oracle)[trace.size()] : "";
	if (*hostfn && abort_at == hostcalls + 1 && e == std::string("abort ") + hostfn) { key = V(); return true; }
	if (e.compare(0, tag.size(), tag)) {
		if (!changed && seen.size() != kv.size()) throw WalkErr{"a walk over an unchanged table with " + std::to_string(kv.size()) + " keys ended after " + std::to_string(seen.size()) + " (before event " + std::to_string(trace.size()) + ": " + e.substr(0, 200) + ")"};
		return false;
	}
	std::string d = e.substr(tag.size());
	for (auto &p : kv) if (dump(p.first) == d) {
		if (!changed && std::find(seen.begin(), seen.end(), d) != seen.end()) throw WalkErr{"a walk over an unchanged table visited " + d + " twice"};
		seen.push_back(d); key = p.first; return true;
	}
	throw WalkErr{"a walk visited the key " + d.substr(0, 200) + " which is not in the table (event " + std::to_string(trace.size()) + ")"};
}
V Model::ev(const N &e, EP env) {
	burn();
	if (!e->list) {
		if (e->str) return V::St(e->a);
		throw Abandon{"atom"};
	}
	const std::string &h = e->head();
	auto &k = e->k;
	if (h == "i") return V::In(k[1]->num());
	if (h == "f") return V::F(strtod(k[1]->a.c_str(), nullptr));
	if (h == "b") return V::B(k[1]->num() != 0);
	if (h == "u") return V();
	if (h == "v") {
		for (MEnv *p = env.get(); p; p = p->up.get()) { auto it = p->vars.find(k[1]->a); if (it != p->vars.end()) return *it->second; }
		auto it = globals.find(k[1]->a);
		if (it != globals.end()) return it->second;
		throw Abandon{"unbound"};
	}
	if (h == "and") { V a = ev(k[1], env); return truthy(a) ? ev(k[2], env) : a; }
	if (h == "or") { V a = ev(k[1], env); return truthy(a) ? a : ev(k[2], env); }
	if (h == "nn") { V a = ev(k[1], env); return a.t != 'u' ? a : ev(k[2], env); }
	if (h == "not") return V::B(!truthy(ev(k[1], env)));
	if (h == "neg") { V a = ev(k[1], env); if (a.t == 'i') return V::In(-a.i); if (a.t == 'f') return V::F(-a.d); if (a.o && a.o->has_mt) throw Abandon{"overload"}; throw ScriptErr{5}; }
	if (h == "len") {
		V v = ev(k[1], env);
		if (v.o && v.o->has_mt) { if (V *f = v.o->mt ? rawget(*v.o->mt, V::St("__len")) : nullptr) return call(*f, {v}); throw ScriptErr{5}; }
		if (v.t == 's') return V::In((int64_t)v.s.size());
		if (v.t == 'l' || v.t == 'e') return V::In((int64_t)v.o->items.size());
		if (v.t == 't') return V::In((int64_t)v.o->kv.size());
		throw ScriptErr{5};
	}
	if (h == "tern") return truthy(ev(k[1], env)) ? ev(k[2], env) : ev(k[3], env);
	if (h == "bin") { V a = ev(k[2], env); V b = ev(k[3], env); return bin(k[1]->a, a, b); }
	if (h == "ls") { std::vector<V> r; for (size_t i = 1; i < k.size(); i++) r.push_back(ev(k[i], env)); return listv(r); }
	if (h == "tb") {
		V t = tablev();
		std::vector<std::pair<V, V>> kv;
		for (size_t i = 1; i + 1 < k.size(); i += 2) { V a = ev(k[i], env); V b = ev(k[i + 1], env); kv.push_back({a, b}); }
		std::vector<V> seen;
		for (auto &p : kv) { if (hashable(p.first)) for (auto &q : seen) if (same(q, p.first, true)) throw Abandon{"dup key literal"}; seen.push_back(p.first); }
		for (auto &p : kv) { if (p.second.t == 'u') continue; if (!hashable(p.first)) throw ScriptErr{5}; }
		for (auto &p : kv) if (p.second.t != 'u') rawset(*t.o, p.first, p.second);
		return t;
	}
	if (h == "clist") { std::vector<V> r; for (size_t i = 1; i < k.size(); i++) if (i + 1 < k.size()) r.push_back(ev(k[i], env)); else evs(k[i], env, r); return listv(r); }
	if (h == "ctab") {
		std::vector<V> r; for (size_t i = 1; i < k.size(); i++) if (i + 1 < k.size()) r.push_back(ev(k[i], env)); else evs(k[i], env, r);
		if (r.size() % 2) r.push_back(V());
		V t = tablev();
		for (size_t i = 0; i < r.size(); i += 2) for (size_t j = 0; j < i; j += 2) if (same(r[i], r[j], true)) throw Abandon{"dup key"};
		for (size_t i = 0; i < r.size(); i += 2) if (!hashable(r[i])) throw ScriptErr{5};
		for (size_t i = 0; i < r.size(); i += 2) if (r[i + 1].t != 'u') rawset(*t.o, r[i], r[i + 1]);
		return t;
	}
	if (h == "set") {
		V s; s.t = 'e'; s.o = std::make_shared<MObj>(); s.o->t = 'e';
		std::vector<V> a;
		for (size_t i = 1; i < k.size(); i++) if (i + 1 < k.size()) a.push_back(ev(k[i], env)); else evs(k[i], env, a);
		if (a.size() == 1 && a[0].t == 'l') { std::vector<V> c = a[0].o->items; a = c; }
		for (auto &v : a) if (!hashable(v) || v.t == 'u') throw ScriptErr{5};
		for (auto &v : a) { bool f = false; for (auto &x : s.o->items) if (same(x, v, true)) f = true; if (!f) s.o->items.push_back(v); }
		return s;
	}
	if (h == "ix") { V o = ev(k[1], env); V i = ev(k[2], env); return idx(o, i); }
	if (h == "sl") {
		V o = ev(k[1], env); V a = ev(k[2], env); V b = ev(k[3], env);
		if (o.t != 'l' && o.t != 's') throw ScriptErr{5};
		if ((a.t != 'i' && a.t != 'u') || (b.t != 'i' && b.t != 'u')) throw ScriptErr{5};
		int64_t n = o.t == 's' ? (int64_t)o.s.size() : (int64_t)o.o->items.size(), s = a.t == 'u' ? 0 : a.i, t = b.t == 'u' ? n : b.i;
		if (t < 0) t += n;
		if (t > n) t = n;
		if (s < 0) s += n;
		if (s < 0) s = 0;
		if (o.t == 's') return V::St(s < t ? o.s.substr((size_t)s, (size_t)(t - s)) : "");
		std::vector<V> r; for (int64_t i = s; i < t; i++) r.push_back(o.o->items[(size_t)i]);
		return listv(r);
	}
	if (h == "lam") { V f; f.t = 'c'; f.o = std::make_shared<MObj>(); f.o->t = 'c'; f.o->fn = e; f.o->env = env; return f; }
	if (h == "call") {
		V f = ev(k[1], env);
		if (f.t != 'c' && f.t != 'h') { if (f.o && f.o->has_mt) throw Abandon{"__call"}; throw ScriptErr{5}; }
		std::vector<V> a; for (size_t i = 2; i < k.size(); i++) if (i + 1 < k.size()) a.push_back(ev(k[i], env)); else evs(k[i], env, a);
		return call(f, a);
	}
	if (h == "h") {
		std::vector<V> a; for (size_t i = 2; i < k.size(); i++) if (i + 1 < k.size()) a.push_back(ev(k[i], env)); else evs(k[i], env, a);
		V v = host(k[1]->a, a); rets = {v}; return v;
	}
	if (h == "m") {
		V o = ev(k[2], env);
		{
			static const std::map<char, std::set<std::string>> names = {
				{'l', {"push", "pop", "insert", "reverse", "clear", "search", "count", "copy", "tostr", "join", "sort"}},
				{'t', {"keys", "values", "remove", "copy", "clear", "tostr"}},
				{'e', {"add", "remove", "copy", "clear", "tolist", "tostr"}},
				{'s', {"tostr", "toupper", "tolower", "count", "search", "tobool", "isal", "isnum", "isalnum", "isspace", "toint", "startswith", "endswith", "replace", "split", "trim", "ltrim", "rtrim", "rep"}}, {'i', {"tostr"}}, {'b', {"tostr"}}, {'f', {"tostr"}}, {'u', {"tostr"}}};
			bool mt = o.o && o.o->has_mt;
			auto it = names.find(o.t);
			if (!mt && (it == names.end() || !it->second.count(k[1]->a))) { if (o.t == 'i' || o.t == 'b' || o.t == 'f' || o.t == 'u') throw ScriptErr{7}; throw Abandon{"missing method"}; }
		}
		// a missing method is reported before the arguments are evaluated
		if (o.o && o.o->has_mt && o.t == 't') {
			bool has = (o.o->mt && rawget(*o.o->mt, V::St(k[1]->a))) || rawget(*o.o, V::St(k[1]->a));
			if (!has) { if (o.o->mt && rawget(*o.o->mt, V::St("__get"))) throw Abandon{"__get method"}; throw ScriptErr{7}; }
		}
		std::vector<V> a; for (size_t i = 3; i < k.size(); i++) if (i + 1 < k.size()) a.push_back(ev(k[i], env)); else evs(k[i], env, a);
		bool own = o.o && o.o->has_mt && (o.t == 'l' || o.t == 't');
		V v = method(o, k[1]->a, a);
		if (!own) { static const std::set<std::string> none = {"reverse", "clear", "sort"}; if (none.count(k[1]->a) && o.t != 'e') rets.clear(); else rets = {v}; }
		return v;
	}
	if (h == "mtset") {   // mt.set(value, table)
		V o = ev(k[1], env); V m = ev(k[2], env);
		if (m.t != 't' || m.o->has_mt) { if (m.t == 't') throw Abandon{"metatabled metatable"}; throw ScriptErr{5}; }
		if (o.t == 'e' || o.t == 'o') throw Abandon{"mt of userdata"};
		if (o.t != 't' && o.t != 'l') throw ScriptErr{5};
		note_store(o, m);
		o.o->has_mt = true; o.o->mt = m.t == 't' ? m.o : nullptr;
		return o;
	}
	if (h == "interp") { std::string r; for (size_t i = 1; i < k.size(); i++) { V v = ev(k[i], env); r += str(v); if (r.size() > 4000) throw Abandon{"long"}; } return V::St(r); }
	if (h == "comp") {    // (comp expr var coll [cond])
		V c = ev(k[3], env);
		std::vector<V> r;
		if (c.t != 'l') { if (c.t == 't' || c.t == 's') throw Abandon{"comp coll"}; throw ScriptErr{5}; }
		if (++loops > maxloops) maxloops = loops;
		// one variable for the whole walk: closures made by different iterations share it
		auto en = std::make_shared<MEnv>(); en->up = env; auto var = en->vars[k[2]->a] = std::make_shared<V>();
		for (size_t i = 0; i < c.o->items.size(); i++) {
			*var = c.o->items[i]; note_cell(var.get(), *var);
			if (k.size() > 4 && !truthy(ev(k[4], en))) continue;
			r.push_back(ev(k[1], en));
		}
		loops--;
		return listv(r);
	}
	if (h == "req") {
		const std::string &nm = k[1]->a;
		N mod;
		if (find_module) mod = find_module(nm); else { auto it = modules.find(nm); if (it != modules.end()) mod = it->second; }
		if (!mod) throw ScriptErr{2};
		if (++nesting > 8) throw Abandon{"module nesting"};
		Model sub;
		sub.modules = modules; sub.find_module = find_module; sub.find_native = find_native; sub.fuel = fuel; sub.nesting = nesting; sub.depth = depth;
		V ex;
		int s = sub.run(mod, true, &ex);
		fuel = sub.fuel;
		nesting--;
		loads += 1 + sub.loads;
		out += sub.out;
		if (sub.cyclic) cyclic = true;
		trace.insert(trace.end(), sub.trace.begin(), sub.trace.end());
		if (s != 1) throw ScriptErr{2};
		return ex;
	}
	if (h == "reqc") { if (!find_native) throw Abandon{"native"}; return find_native(k[1]->a); }
	throw Abandon{"expr"};
}
Model::Fl Model::block(const N &b, size_t from, EP env, V &ret, bool newscope) {
	EP e = env;
	if (newscope) { e = std::make_shared<MEnv>(); e->up = env; }
	for (size_t i = from; i < b->size(); i++) { Fl f = st(b->k[i], e, ret); if (f != NORM) return f; }
	return NORM;
}
static std::shared_ptr<V> cell(const EP &env, const std::string &n) {
	for (MEnv *p = env.get(); p; p = p->up.get()) { auto it = p->vars.find(n); if (it != p->vars.end()) return it->second; }
	return nullptr;
}
struct Exported { V v; };
// ---------------- match ----------------
// patterns: (pany) (pundef) (ptype int) (plit literal) (pbind let|const name) (pls p...) (pvls p...) (ptb k p...) (pvtb k p...) (palt p q)
static V pat_lit(const N &e) { const std::string &h = e->head(); if (!e->list) return V::St(e->a); if (h == "i") return V::In(e->k[1]->num()); if (h == "f") return V::F(strtod(e->k[1]->a.c_str(), nullptr)); if (h == "b") return V::B(e->k[1]->num() != 0); throw Abandon{"pattern literal"}; }
bool Model::matches(const N &p, const V &v, std::vector<std::pair<std::string, V>> &bind) {
	burn();
	const std::string &h = p->head(); auto &k = p->k;
	if (h == "pany") return true;
	if (h == "pundef") return v.t == 'u';
	if (h == "ptype") { const std::string &t = k[1]->a; char c = t == "bool" ? 'b' : t == "int" ? 'i' : t == "float" ? 'f' : t == "str" ? 's' : t == "list" ? 'l' : 't'; return v.t == c; }
	if (h == "plit") { V l = pat_lit(k[1]); if (l.t == 'b') return v.t == 'b' && v.i == l.i; return same(l, v, false); }
	if (h == "pbind") { bind.push_back({k[2]->a, v}); return true; }
	if (h == "pls" || h == "pvls") {
		if (v.t != 'l') return false;
		size_t n = k.size() - 1;
		if (h == "pls" ? v.o->items.size() != n : v.o->items.size() < n) return false;
		for (size_t i = 0; i < n; i++) if (!matches(k[i + 1], v.o->items[i], bind)) return false;
		return true;
	}
	if (h == "ptb" || h == "pvtb") {
		if (v.t != 't') return false;
		size_t n = (k.size() - 1) / 2;
		if (h == "ptb" && v.o->kv.size() != n) return false;
		for (size_t i = 0; i < n; i++) { V *x = rawget(*v.o, pat_lit(k[1 + 2 * i])); if (!x || !matches(k[2 + 2 * i], *x, bind)) return false; }
		return true;
	}
	if (h == "palt") { size_t n = bind.size(); if (matches(k[1], v, bind)) return true; bind.resize(n); return matches(k[2], v, bind); }
	throw Abandon{"pattern"};
}
Model::Fl Model::st(const N &s, EP env, V &ret) {
	burn();
	const std::string &h = s->head();
	auto &k = s->k;
	if (h == "do") return block(s, 1, env, ret);
	if (h == "let" || h == "const") { V v = ev(k[2], env); auto c = env->vars[k[1]->a] = std::make_shared<V>(v); note_cell(c.get(), v); return NORM; }
	if (h == "=") { V v = ev(k[2], env); auto c = cell(env, k[1]->a); if (!c) { auto g = globals.find(k[1]->a); if (g == globals.end()) throw Abandon{"unbound"}; g->second = v; return NORM; } *c = v; note_cell(c.get(), v); return NORM; }
	if (h == "op=") { auto c = cell(env, k[1]->a); if (!c) throw Abandon{"unbound"}; V a = *c; V b = ev(k[3], env); *c = bin(k[2]->a, a, b); note_cell(c.get(), *c); return NORM; }
	if (h == "ix=") { V o = ev(k[1], env); V i = ev(k[2], env); V v = ev(k[3], env); setidx(o, i, v); return NORM; }
	if (h == "x") { ev(k[1], env); return NORM; }
	if (h == "echo") { V v = ev(k[1], env); std::string t = str(v); for (char c : t) if (c) out += c; out += '\n'; if (out.size() > 200000) throw Abandon{"long"}; return NORM; }
	if (h == "if") {
		if (truthy(ev(k[1], env))) return st(k[2], env, ret);
		if (k.size() > 3) return st(k[3], env, ret);
		return NORM;
	}
	if (h == "match") {  // (match e (case pattern guard|- body)...)
		V v = ev(k[1], env);
		for (size_t i = 2; i < k.size(); i++) {
			const N &c = k[i];
			std::vector<std::pair<std::string, V>> bind;
			if (!matches(c->k[1], v, bind)) continue;
			auto en = std::make_shared<MEnv>(); en->up = env;
			for (auto &b : bind) { auto cl = en->vars[b.first] = std::make_shared<V>(b.second); note_cell(cl.get(), b.second); }
			if (c->k[2]->list && !truthy(ev(c->k[2], en))) continue;
			return block(c->k[3], 1, en, ret);
		}
		return NORM;
	}
	if (h == "while") {
		while (truthy(ev(k[1], env))) { Fl f = st(k[2], env, ret); if (f == BRK) break; if (f == RET) return f; burn(); }
		return NORM;
	}
	if (h == "fori") {   // (fori x init limit step body)
		auto en = std::make_shared<MEnv>(); en->up = env;
		auto c = en->vars[k[1]->a] = std::make_shared<V>(ev(k[2], env));
		while (truthy(bin("<", *c, ev(k[3], en)))) { Fl f = st(k[5], en, ret); if (f == BRK) break; if (f == RET) return f; *c = bin("+", *c, ev(k[4], en)); burn(); }
		return NORM;
	}
	if (h == "forx") {   // (forx x init cond body post), post an expression
		auto en = std::make_shared<MEnv>(); en->up = env;
		auto c = en->vars[k[1]->a] = std::make_shared<V>(ev(k[2], env)); note_cell(c.get(), *c);
		while (truthy(ev(k[3], en))) { Fl f = st(k[4], en, ret); if (f == BRK) break; if (f == RET) return f; ev(k[5], en); burn(); }
		return NORM;
	}
	if (h == "for") {    // (for x coll body)
		V c = ev(k[2], env);
		if (++loops > maxloops) maxloops = loops;
		auto en = std::make_shared<MEnv>(); en->up = env; auto var = en->vars[k[1]->a] = std::make_shared<V>();
		auto bind = [&](const V &v) { *var = v; note_cell(var.get(), v); };
		if (c.t == 'l') {
			for (size_t i = 0; i < c.o->items.size(); i++) {
				bind(c.o->items[i]);
				Fl f = st(k[3], en, ret); if (f == BRK) break; if (f == RET) { loops--; return f; } burn();
			}
		} else if (c.t == 't') {
			if (c.o->kv.size() > 1 && k.size() <= 4) throw Abandon{"order"};
			std::vector<V> ks; for (auto &p : c.o->kv) ks.push_back(p.first);
			for (auto &kk : ks) {
				bind(kk);
				Fl f = st(k[3], en, ret); if (f == BRK) break; if (f == RET) { loops--; return f; } burn();
			}
		} else if (c.t == 's') {
			for (size_t i = 0; i < c.s.size(); i++) {
				bind(V::St(c.s.substr(i, 1)));
				Fl f = st(k[3], en, ret); if (f == BRK) break; if (f == RET) { loops--; return f; } burn();
			}
		} else throw ScriptErr{5};
		loops--;
		return NORM;
	}
	if (h == "walk") {   // (walk id x table body): a loop whose body starts with hstep(id, x)
		V c = ev(k[3], env);
		if (c.t != 't') throw Abandon{"walk"};
		if (++loops > maxloops) maxloops = loops;
		auto en = std::make_shared<MEnv>(); en->up = env; auto var = en->vars[k[2]->a] = std::make_shared<V>();
		std::vector<std::string> seen; int64_t v0 = c.o->ver; V key;
		while (walk_next(c, "step " + k[1]->a + " ", "hstep", seen, c.o->ver != v0, key)) {
			*var = key;
			hostcalls++; outat.push_back(out.size());
			if (track_reach) reach.push_back(reachable({}));
			if (abort_at == hostcalls) { trace.push_back("abort hstep"); throw ScriptErr{abort_status}; }
			trace.push_back("step " + k[1]->a + " " + dump(key));
			Fl f = st(k[4], en, ret); if (f == BRK) break; if (f == RET) { loops--; return f; } burn();
		}
		loops--;
		std::vector<V> a{V::In(k[1]->num())};
		host("hdone", a);
		return NORM;
	}
	if (h == "brk") return BRK;
	if (h == "cont") return CONT;
	if (h == "ret") {
		std::vector<V> r;
		for (size_t i = 1; i < k.size(); i++) if (i + 1 < k.size()) r.push_back(ev(k[i], env)); else evs(k[i], env, r, k.size() == 2);
		retv = r; ret = r.empty() ? V() : r[0]; return RET;
	}
	if (h == "lets" || h == "asgs") {    // (lets (a b) e...): the last call fills up what is missing
		std::vector<V> r; size_t n = k[1]->size();
		if (k.size() < 3 || k.size() - 2 > n) throw Abandon{"pack"};
		for (size_t i = 2; i < k.size(); i++) if (i + 1 < k.size()) r.push_back(ev(k[i], env)); else evs(k[i], env, r);
		r.resize(n);
		for (size_t i = 0; i < n; i++) {
			std::shared_ptr<V> c;
			if (h == "lets") c = env->vars[k[1]->k[i]->a] = std::make_shared<V>(); else c = cell(env, k[1]->k[i]->a);
			if (!c) throw Abandon{"unbound"};
			*c = r[i]; note_cell(c.get(), r[i]);
		}
		return NORM;
	}
	if (h == "fn") {     // (fn name (params) body...)
		auto c = std::make_shared<V>(); env->vars[k[1]->a] = c;
		std::vector<N> l{A("lam")}; l.insert(l.end(), k.begin() + 2, k.end());
		V f; f.t = 'c'; f.o = std::make_shared<MObj>(); f.o->t = 'c'; f.o->fn = L(l); f.o->env = env;
		*c = f;
		note_cell(c.get(), f);
		return NORM;
	}
	if (h == "assert") { V v = ev(k[1], env); if (!truthy(v)) { str(v); throw ScriptErr{10}; } return NORM; }
	if (h == "iow") { V v = ev(k[1], env); if (v.t != 's') throw ScriptErr{5}; if (on_write) on_write(v.s); return NORM; }   // io.stdout
	if (h == "raw") return NORM;       // source text with no effect the model has to know
	if (h == "export") throw Exported{ev(k[1], env)};
	throw Abandon{"stmt"};
}
int Model::run(const N &prog, bool, V *ex) {
	top = std::make_shared<MEnv>();
	V ret;
	try {
		block(prog, 1, top, ret, false);
		status = 0;
	} catch (ScriptErr &e) { status = e.status; }
	catch (Exported &e) { if (ex) *ex = e.v; status = 1; }
	return status;
}

int Model::run_entry(const N &p, bool repl) {
	if (!top) top = std::make_shared<MEnv>();
	depth = loops = 0; nesting = 0;
	EP env = top;
	if (!repl) { env = std::make_shared<MEnv>(); env->up = top; }
	V ret;
	try {
		for (size_t i = 1; i < p->size(); i++) {
			if (repl && i + 1 == p->size() && p->k[i]->is("x")) { V v = ev(p->k[i]->k[1], env); std::string t = str(v); for (char c : t) if (c) out += c; out += '\n'; break; }
			if (st(p->k[i], env, ret) != NORM) break;
		}
		status = 0;
	} catch (ScriptErr &e) { status = e.status; }
	return status;
}

// ---------------- renderer ----------------
static std::string q(const std::string &s) {
	std::string o = "'";
	for (unsigned char c : s) {
		char b[8];
		if (c == '\'' || c == '\\') { o += '\\'; o += (char)c; }
		else if (c == '\n') o += "\\n";
		else if ((c > 127 && (c & 1)) || c == '\r') o += (char)c;
		else if (c < 32 || c >= 127) { snprintf(b, 8, "\\x%02x", c); o += b; }
		else o += (char)c;
	}
	return o + "'";
}
static std::string rb(const N &b, size_t from, int ind);
static std::string re(const N &e) {
	if (!e->list) return q(e->a);
	const std::string &h = e->head();
	auto &k = e->k;
	auto list = [&](size_t from) { std::string o; for (size_t i = from; i < k.size(); i++) { if (i > from) o += ", "; o += re(k[i]); } return o; };
	if (h == "i") { std::string s = k[1]->a; return s[0] == '-' ? "(-" + s.substr(1) + ")" : s; }
	if (h == "f") { std::string s = k[1]->a; return s[0] == '-' ? "(-" + s.substr(1) + ")" : s; }
	if (h == "b") return k[1]->num() ? "true" : "false";
	if (h == "u") return "undef";
	if (h == "v") return k[1]->a;
	if (h == "and") return "(" + re(k[1]) + " && " + re(k[2]) + ")";
	if (h == "or") return "(" + re(k[1]) + " || " + re(k[2]) + ")";
	if (h == "nn") return "(" + re(k[1]) + " ?? " + re(k[2]) + ")";
	if (h == "not") return "(!" + re(k[1]) + ")";
	if (h == "neg") return "(-" + re(k[1]) + ")";
	if (h == "len") return "(len " + re(k[1]) + ")";
	if (h == "tern") return "(" + re(k[1]) + " ? " + re(k[2]) + " : " + re(k[3]) + ")";
	if (h == "bin") return "(" + re(k[2]) + " " + k[1]->a + " " + re(k[3]) + ")";
	if (h == "ls") return "[" + list(1) + "]";
	if (h == "tb") { std::string o = "{"; for (size_t i = 1; i + 1 < k.size(); i += 2) { if (i > 1) o += ", "; o += re(k[i]) + ": " + re(k[i + 1]); } return o + "}"; }
	if (h == "set") return "collections.set(" + list(1) + ")";
	if (h == "clist") return "collections.list(" + list(1) + ")";
	if (h == "ctab") return "collections.table(" + list(1) + ")";
	if (h == "ix") return re(k[1]) + "[" + re(k[2]) + "]";
	if (h == "sl") return re(k[1]) + "[" + (k[2]->is("u") ? "" : re(k[2])) + ":" + (k[3]->is("u") ? "" : re(k[3])) + "]";
	if (h == "lam") { std::string o = "(fn("; for (size_t i = 0; i < k[1]->size(); i++) { if (i) o += ", "; o += k[1]->k[i]->a; } return o + ") {\n" + rb(e, 2, 1) + "})"; }
	if (h == "call") return re(k[1]) + "(" + list(2) + ")";
	if (h == "h") return k[1]->a + "(" + list(2) + ")";
	if (h == "m") return re(k[2]) + "->" + k[1]->a + "(" + list(3) + ")";
	if (h == "mtset") return "mt.set(" + list(1) + ")";
	if (h == "interp") {
		std::string o = "\"";
		for (size_t i = 1; i < k.size(); i++) { if (!k[i]->list) { for (char c : k[i]->a) { char b[8]; if (c == '\n') { o += "\\n"; continue; } if ((unsigned char)c < 32 || (unsigned char)c >= 127) { snprintf(b, 8, "\\x%02x", (unsigned char)c); o += b; continue; } if (c == '"' || c == '\\' || c == '#') o += '\\'; o += c; } } else o += "#{" + re(k[i]) + "}"; }
		return o + "\"";
	}
	if (h == "comp") return "[" + re(k[1]) + " for " + k[2]->a + " <- " + re(k[3]) + (k.size() > 4 ? " if " + re(k[4]) : "") + "]";
	if (h == "reqc") return "__require_c__(" + q(k[1]->a) + ")";
	if (h == "req") return "require(" + q(k[1]->a) + ")";
	return "/*?" + h + "*/undef";
}
static std::string rp(const N &p) {
	const std::string &h = p->head(); auto &k = p->k;
	auto lit = [](const N &e) { std::string s = re(e); return e->list && s[0] == '(' ? s.substr(1, s.size() - 2) : s; };
	if (h == "pany") return "*";
	if (h == "pundef") return "undef";
	if (h == "ptype") return k[1]->a;
	if (h == "plit") return lit(k[1]);
	if (h == "pbind") return k[1]->a + " " + k[2]->a;
	if (h == "palt") return "(" + rp(k[1]) + " | " + rp(k[2]) + ")";
	bool tb = h == "ptb" || h == "pvtb", var = h == "pvls" || h == "pvtb";
	std::string o = tb ? "{" : "[";
	for (size_t i = 1; i < k.size(); i += tb ? 2 : 1) { if (i > 1) o += ", "; o += tb ? lit(k[i]) + ": " + rp(k[i + 1]) : rp(k[i]); }
	if (var) o += k.size() > 1 ? ", ..." : "...";
	return o + (tb ? "}" : "]");
}
static std::string rs(const N &s, int ind) {
	std::string p((size_t)ind, '\t');
	const std::string &h = s->head();
	auto &k = s->k;
	auto blk = [&](const N &b) { return "{\n" + rb(b, 1, ind + 1) + p + "}"; };
	if (h == "raw") return p + k[1]->a + "\n";
	if (h == "do") return p + blk(s) + ";\n";
	if (h == "let" || h == "const") return p + h + " " + k[1]->a + " = " + re(k[2]) + ";\n";
	if (h == "=") return p + k[1]->a + " = " + re(k[2]) + ";\n";
	if (h == "op=") return p + k[1]->a + " " + k[2]->a + "= " + re(k[3]) + ";\n";
	if (h == "ix=") return p + re(k[1]) + "[" + re(k[2]) + "] = " + re(k[3]) + ";\n";
	if (h == "x") return p + re(k[1]) + ";\n";
	if (h == "echo") return p + "echo " + re(k[1]) + ";\n";
	if (h == "if") return p + "if " + re(k[1]) + " " + blk(k[2]) + (k.size() > 3 ? " else " + blk(k[3]) : "") + ";\n";
	if (h == "match") { std::string o = p + "match " + re(k[1]) + " {\n"; for (size_t i = 2; i < k.size(); i++) { o += p + "\t" + rp(k[i]->k[1]) + (k[i]->k[2]->list ? " if " + re(k[i]->k[2]) : "") + " {\n" + rb(k[i]->k[3], 1, ind + 2) + p + "\t};\n"; } return o + p + "};\n"; }
	if (h == "while") return p + "while " + re(k[1]) + " " + blk(k[2]) + ";\n";
	if (h == "forx") return p + "for let " + k[1]->a + " = " + re(k[2]) + "; " + re(k[3]) + "; " + re(k[5]) + " " + blk(k[4]) + ";\n";
	if (h == "fori") return p + "for let " + k[1]->a + " = " + re(k[2]) + "; " + k[1]->a + " < " + re(k[3]) + "; " + k[1]->a + " += " + re(k[4]) + " " + blk(k[5]) + ";\n";
	if (h == "for") return p + "for " + k[1]->a + " <- " + re(k[2]) + " " + blk(k[3]) + ";\n";
	if (h == "walk") return p + "for " + k[2]->a + " <- " + re(k[3]) + " {\n" + p + "\thstep(" + k[1]->a + ", " + k[2]->a + ");\n" + rb(k[4], 1, ind + 1) + p + "};\n" + p + "hdone(" + k[1]->a + ");\n";
	if (h == "brk") return p + "break;\n";
	if (h == "cont") return p + "continue;\n";
	if (h == "ret") { std::string o; for (size_t i = 1; i < k.size(); i++) o += (i > 1 ? ", " : " ") + re(k[i]); return p + "return" + o + ";\n"; }
	if (h == "lets" || h == "asgs") { std::string o; for (size_t i = 0; i < k[1]->size(); i++) o += std::string(i ? ", " : "") + (h == "lets" ? "let " : "") + k[1]->k[i]->a; o += " = "; for (size_t i = 2; i < k.size(); i++) o += (i > 2 ? ", " : "") + re(k[i]); return p + o + ";\n"; }
	if (h == "fn") { std::string o = p + "fn " + k[1]->a + "("; for (size_t i = 0; i < k[2]->size(); i++) { if (i) o += ", "; o += k[2]->k[i]->a; } return o + ") {\n" + rb(s, 3, ind + 1) + p + "};\n"; }
	if (h == "assert") return p + "assert " + re(k[1]) + ";\n";
	if (h == "iow") return p + "io.stdout->write(" + re(k[1]) + ");\n";
	if (h == "export") return p + "export " + re(k[1]) + ";\n";
	return p + "# ?" + h + "\n";
}
static std::string rb(const N &b, size_t from, int ind) { std::string o; for (size_t i = from; i < b->size(); i++) o += rs(b->k[i], ind); return o; }
std::string quote(const std::string &s) { return q(s); }
std::string render(const N &prog) { return rb(prog, 1, 0); }
