// Dynamic values: slots x1..x4 hold Variants; containers are named by the order in which they are reached.
#include "drv.h"
#include "platform/sfw.h"
#include <map>
#include <vector>
typedef std::vector<Variant> VV;
static std::map<std::string, Variant> X; static std::map<const void *, int> ID; static std::vector<Variant> Q; static J HH;
static String str(const J &j) { String s; for (auto &c : j.a) s += (CharType)c.n; return s; }
static J cps(const String &s) { J r = J::arr(); for (int i = 0; i < s.length(); i++) r.add((int)s[i]); return r; }
static J r64(double d) { double v = d * 64; if (v == std::floor(v) && std::fabs(v) < 2e9) return J((long)v); return J("inexact"); }
static J i32(int64_t v) { if (v > 2000000000 || v < -2000000000) return J("wide"); return J((long)v); }
static const void *cid(const Variant &v) { return v.get_type() == Variant::ARRAY ? Array(v).id() : Dictionary(v).id(); }
static bool isc(const Variant &v) { return v.get_type() == Variant::ARRAY || v.get_type() == Variant::DICTIONARY; }
static int see(const Variant &v) { const void *k = cid(v); if (!ID.count(k)) { int n = ID.size() + 1; ID[k] = n; Q.push_back(v); } return ID[k]; }
static J one(const char *k, const J &v) { return J::obj().set(k, v); }
static const J NONE = J::obj().set("q", J(0));
static J enc(const Variant &v) {
	J l = J::arr();
	switch (v.get_type()) {
		case Variant::NIL: return one("n", J(0));
		case Variant::BOOL: return one("b", J((bool)v));
		case Variant::INT: return one("i", i32((int64_t)v));
		case Variant::REAL: return one("r", r64((double)v));
		case Variant::STRING: return one("s", cps(v));
		case Variant::STRING_NAME: return one("nm", cps(v));
		case Variant::RECT2I: { Rect2i r = v; l.add(r.position.x).add(r.position.y).add(r.size.x).add(r.size.y); return one("ri", l); }
		case Variant::VECTOR2I: { Vector2i r = v; l.add(r.x).add(r.y); return one("v2", l); }
		case Variant::VECTOR3I: { Vector3i r = v; l.add(r.x).add(r.y).add(r.z); return one("v3", l); }
		case Variant::POOL_BYTE_ARRAY: { PoolVector<uint8_t> p = v; for (int i = 0; i < p.size(); i++) l.add((int)p[i]); return one("pb", l); }
		case Variant::POOL_INT_ARRAY: { PoolVector<int> p = v; for (int i = 0; i < p.size(); i++) l.add(p[i]); return one("pi", l); }
		case Variant::POOL_REAL_ARRAY: { PoolVector<real_t> p = v; for (int i = 0; i < p.size(); i++) l.add(r64(p[i])); return one("pr", l); }
		case Variant::POOL_STRING_ARRAY: { PoolVector<String> p = v; for (int i = 0; i < p.size(); i++) l.add(cps(p[i])); return one("ps", l); }
		case Variant::ARRAY: return one("a", J(see(v)));
		case Variant::DICTIONARY: return one("d", J(see(v)));
		default: return one("other", J((int)v.get_type()));
	}
}
static Variant dec(const J &j) {
	const std::string &k = j.o[0].first; const J &v = j.o[0].second;
	if (k == "x") return X[v.s];
	if (k == "n") return Variant(); if (k == "b") return Variant(v.b); if (k == "i") return Variant((int64_t)v.n); if (k == "r") return Variant(v.n / 64);
	if (k == "z") return Variant(-0.0);
	if (k == "s") return Variant(str(v)); if (k == "nm") return Variant(StringName(str(v)));
	if (k == "ri") return Variant(Rect2i(v[0].i(), v[1].i(), v[2].i(), v[3].i())); if (k == "v2") return Variant(Vector2i(v[0].i(), v[1].i())); if (k == "v3") return Variant(Vector3i(v[0].i(), v[1].i(), v[2].i()));
	if (k == "pb") { PoolVector<uint8_t> p; for (auto &x : v.a) p.push_back(x.i()); return p; }
	if (k == "pi") { PoolVector<int> p; for (auto &x : v.a) p.push_back(x.i()); return p; }
	if (k == "pr") { PoolVector<real_t> p; for (auto &x : v.a) p.push_back(x.n / 64); return p; }
	if (k == "ps") { PoolVector<String> p; for (auto &x : v.a) p.push_back(str(x)); return p; }
	return Variant();
}
static J canon(const VV &r) {
	ID.clear(); Q.clear(); HH = J::arr(); J o = J::arr(); J xs = J::obj();
	for (auto &p : X) xs.set(p.first, enc(p.second));
	for (auto &v : r) o.add(enc(v));
	for (size_t i = 0; i < Q.size(); i++) {
		Variant q = Q[i]; J c = J::arr();
		if (q.get_type() == Variant::ARRAY) { Array a = q; for (int k = 0; k < a.size(); k++) c.add(enc(a[k])); HH.add(J::obj().set("t", J("a")).set("c", c)); }
		else { Dictionary d = q; for (const Variant *k = d.next(nullptr); k; k = d.next(k)) { J e = J::arr(); e.add(enc(*k)); e.add(enc(*d.getptr(*k))); c.add(e); } HH.add(J::obj().set("t", J("d")).set("c", c)); }
	}
	HH = J::obj().set("h", HH).set("x", xs); Q.clear(); return o;
}
void dom_reset() { if (!MemoryPool::allocs) SFWCore::setup(); X.clear(); for (auto k : { "x1", "x2", "x3", "x4" }) X[k] = Variant(); HH = J(); }
J dom_state() { if (HH.t != J::OBJ) canon({}); return HH; }
static void rall(const Variant &v, std::vector<const void *> &seen) {
	if (!isc(v)) return; const void *k = cid(v); for (auto s : seen) if (s == k) return; seen.push_back(k);
	if (v.get_type() == Variant::ARRAY) { Array a = v; for (int i = 0; i < a.size(); i++) rall(a[i], seen); } else { Dictionary d = v; Array a = d.values(); for (int i = 0; i < a.size(); i++) rall(a[i], seen); }
}
static bool reaches(const Variant &v, const void *id) { std::vector<const void *> s; rall(v, s); for (auto k : s) if (k == id) return true; return false; }
static VV below(const Variant &v) { VV o; Array a = v.get_type() == Variant::ARRAY ? Array(v) : Dictionary(v).values(); for (int i = 0; i < a.size(); i++) o.push_back(a[i]); return o; }
static bool plain(const Variant &v) { if (v.get_type() != Variant::ARRAY) return true; for (auto &e : below(v)) { switch (e.get_type()) { case Variant::NIL: case Variant::BOOL: case Variant::INT: case Variant::REAL: case Variant::STRING: case Variant::ARRAY: case Variant::POOL_INT_ARRAY: case Variant::POOL_STRING_ARRAY: break; default: return false; } if (!plain(e)) return false; } return true; }
static bool family(const VV &c) {
	bool n = true, s = true, b = true, a = true, p = true;
	for (auto &e : c) { n &= e.is_num(); s &= e.get_type() == Variant::STRING; b &= e.get_type() == Variant::BOOL; a &= e.get_type() == Variant::ARRAY && plain(e); p &= e.get_type() == Variant::POOL_INT_ARRAY; }
	return n || s || b || a || p;
}
static const Variant NODE; static VV ok() { return { Variant() }; }
struct Res { VV v; std::vector<bool> none; bool refused = false; };
static Res R(const VV &v) { Res r; r.v = v; r.none.assign(v.size(), false); return r; }
static Res nope() { Res r = R({ Variant() }); r.none[0] = true; return r; }
static J fin(const std::string &dst, const Res &r) {
	if (!dst.empty()) X[dst] = r.v[0];
	J o = canon(r.v); for (size_t i = 0; i < r.none.size(); i++) if (r.none[i]) o.a[i] = NONE;
	return o;
}
static bool in(const std::string &m, std::initializer_list<const char *> l) { for (auto x : l) if (m == x) return true; return false; }
static bool refuse(const std::string &m, const Variant &v, const VV &p) {
	if (in(m, { "push", "append1", "insert", "set", "fill", "push_front", "add" }) && isc(v)) for (auto &q : p) if (reaches(q, cid(v))) return true;
	if (m == "append" || m == "merge") for (auto &q : below(p[0])) if (reaches(q, cid(v))) return true;
	if (v.get_type() == Variant::DICTIONARY && in(m, { "set", "get", "at", "add", "erase", "next" }) && isc(p[0])) return true;
	if (m == "has_all") for (auto &q : below(p[0])) if (isc(q)) return true;
	return false;
}
static Res AM(const std::string &m, const Variant &v, const VV &p) {
	Array a = v; int n = a.size(); auto I = [&](int k) { return (int)p[k]; }; bool alt = n & 1;
	if (m == "size") return R({ a.size(), a.empty() });
	if (m == "clear") { a.clear(); return R(ok()); } if (m == "push") { a.push_back(p[0]); return R(ok()); } if (m == "append1") { a.append(p[0]); return R(ok()); } if (m == "append") { a.append_array(p[0]); return R(ok()); }
	if (m == "insert") { a.insert(I(0), p[1]); return R(ok()); } if (m == "remove") { a.remove(I(0)); return R(ok()); } if (m == "resize") { a.resize(I(0)); return R(ok()); } if (m == "fill") { a.fill(p[0]); return R(ok()); }
	if (m == "front") return R({ a.front() }); if (m == "back") return R({ a.back() });
	if (m == "get") { if (I(0) < 0 || I(0) >= n) return nope(); const Array &c = a; return R({ alt ? c.get(I(0)) : c[I(0)] }); }
	if (m == "set") { if (I(0) < 0 || I(0) >= n) return nope(); if (alt) a.set(I(0), p[1]); else a[I(0)] = p[1]; return R(ok()); }
	if (m == "find") return R({ a.find(p[0], I(1)) }); if (m == "rfind") return R({ a.rfind(p[0], I(1)) });
	if (m == "has") return R({ a.count(p[0]), a.has(p[0]), a.find_last(p[0]) });
	if (m == "erase") { a.erase(p[0]); return R(ok()); } if (m == "push_front") { a.push_front(p[0]); return R(ok()); }
	if (m == "pop_back") return R({ a.pop_back() }); if (m == "pop_front") return R({ a.pop_front() }); if (m == "pop_at") return R({ a.pop_at(I(0)) });
	if (m == "dup") return R({ a.duplicate((bool)p[0]) }); if (m == "slice") return R({ a.slice(I(0), I(1), I(2), (bool)p[3]) });
	if (m == "min") return R({ a.min(), a.max() }); if (m == "invert") { a.invert(); return R(ok()); }
	if (m == "sort") { a.sort(); return R(ok()); } if (m == "shuffle") { a.shuffle(); return R(ok()); }
	if (m == "bsearch") { a.sort(); return R({ a.bsearch(p[0], (bool)p[1]) }); }
	if (m == "cmp") { Array b = p[0]; return R({ a == b, a < b, a > b, a <= b, a >= b }); }
	abort();
}
static Variant vp(const Variant *p, Res &r) { r.none.push_back(!p); r.v.push_back(p ? *p : Variant()); return Variant(); }
static Res DM(const std::string &m, const Variant &v, const VV &p) {
	Dictionary d = v; const Dictionary &c = d; auto I = [&](int k) { return (int)p[k]; };
	if (m == "size") return R({ d.size(), d.empty() }); if (m == "clear") { d.clear(); return R(ok()); } if (m == "set") { d[p[0]] = p[1]; return R(ok()); }
	if (m == "get") { const Variant *q = c.getptr(p[0]); Variant *q2 = d.getptr(p[0]); bool same = (!q && !q2) || (q && q2 && q == q2); Variant g = c.get(p[0], p[1]); return R({ g, same ? c.get_valid(p[0]) : Variant("getptr"), c.has(p[0]), q != nullptr }); }
	if (m == "at") return R({ d[p[0]] }); if (m == "add") return R({ d.get_or_add(p[0], p[1]) }); if (m == "has_all") return R({ c.has_all(p[0]) }); if (m == "erase") return R({ d.erase(p[0]) });
	if (m == "merge") { d.merge(p[0], (bool)p[1]); return R(ok()); } if (m == "find_key") return R({ c.find_key(p[0]) }); if (m == "idx") return R({ c.get_key_at_index(I(0)), c.get_value_at_index(I(0)) });
	if (m == "keys") { Array k = c.keys(); List<Variant> l; c.get_key_list(&l); int i = 0; bool same = (int)l.size() == k.size(); for (List<Variant>::Element *E = l.front(); E && same; E = E->next()) same = E->get() == k[i++]; return same ? R({ k }) : R({ Variant("key list") }); }
	if (m == "values") return R({ c.values() });
	if (m == "next") { Res r; vp(c.next(&p[0]), r); vp(c.next(nullptr), r); return r; }
	if (m == "dup") return R({ c.duplicate((bool)p[0]) }); if (m == "cmp") { Dictionary o = p[0]; return R({ c == o, c != o }); }
	abort();
}
static Res VM(const std::string &m, Variant &v, const VV &p, const J &raw) {
	bool valid = true;
	if (m == "set") { v.set(p[0], p[1], &valid); return R({ valid }); }
	if (m == "get") { Variant g = v.get(p[0], &valid); return valid ? R({ g }) : nope(); }
	if (m == "getn") { Variant g = v.get_named(StringName((String)p[0]), &valid); return valid ? R({ g }) : nope(); }
	if (m == "dup") return R({ v.duplicate((bool)p[0]) }); if (m == "str") return R({ (String)v, Variant((StringName)v) });
	if (m == "bool") return R({ (bool)v, v.is_zero() });
	if (m == "num") { bool agree = (int64_t)(int)v == (int64_t)v && (float)v == (float)(double)v && (short)v == (short)(int)v; return R({ (int)v, agree ? Variant((int64_t)v) : Variant("differ"), (double)v }); }
	if (m == "strict") { bool hc = v.hash_compare(p[0]); if (hc && v.hash() != p[0].hash()) return R({ "hashes differ" }); return R({ v == p[0], v != p[0], v < p[0], hc }); }
	if (m == "deep") return R({ v.deep_equal(p[0]) });
	if (m == "sub") { Variant o; Variant::sub(v, p[0], o); return R({ o }); }
	if (m == "interp") { Variant o; Variant::interpolate(v, p[0], (float)(double)p[1], o); return R({ o }); }
	if (m == "blend") { Variant o; Variant::blend(v, p[0], (float)(double)p[1], o); return R({ o }); }
	if (m == "conv") { const std::string &t = raw.a[3].o[0].second.s; if (t == "a") return R({ (Array)v }); if (t == "pb") return R({ (PoolVector<uint8_t>)v }); if (t == "pi") return R({ (PoolVector<int>)v }); if (t == "pr") return R({ (PoolVector<real_t>)v }); return R({ (PoolVector<String>)v }); }
	if (m == "fmt") { Variant o; Variant::evaluate(Variant::OP_MODULE, v, p[0], o, valid); return valid ? R({ o }) : nope(); }
	if (m == "iter") {
		Res r; Variant it; bool go = v.iter_init(it, valid); if (!valid) return nope();
		for (int k = 0; go && k < 200; k++) { Variant e = v.iter_get(it, valid); r.v.push_back(e); r.none.push_back(!valid); go = v.iter_next(it, valid); }
		return r;
	}
	if (m == "ops") {
		static const Variant::Operator O[] = { Variant::OP_EQUAL, Variant::OP_NOT_EQUAL, Variant::OP_LESS, Variant::OP_LESS_EQUAL, Variant::OP_GREATER, Variant::OP_GREATER_EQUAL, Variant::OP_ADD, Variant::OP_SUBTRACT, Variant::OP_MULTIPLY, Variant::OP_DIVIDE, Variant::OP_NEGATE, Variant::OP_POSITIVE, Variant::OP_MODULE, Variant::OP_STRING_CONCAT, Variant::OP_SHIFT_LEFT, Variant::OP_SHIFT_RIGHT, Variant::OP_BIT_AND, Variant::OP_BIT_OR, Variant::OP_BIT_XOR, Variant::OP_BIT_NEGATE, Variant::OP_AND, Variant::OP_OR, Variant::OP_XOR, Variant::OP_NOT, Variant::OP_IN };
		Res r; bool z = v.is_num() && p[0].is_num() && (double)p[0] == 0;
		for (auto o : O) {
			Variant out; valid = true;
			if ((o == Variant::OP_DIVIDE && z) || (o == Variant::OP_MODULE && (z || v.get_type() == Variant::STRING))) valid = false; else Variant::evaluate(o, v, p[0], out, valid);
			r.v.push_back(valid ? out : Variant()); r.none.push_back(!valid);
		}
		return r;
	}
	abort();
}
static J call(char k, const J &a) {
	const std::string &m = a[0].s; Variant v = X[a[2].s]; VV p; for (int i = 3; i < a.size(); i++) p.push_back(a[i].o[0].first == "t" ? Variant() : dec(a[i]));
	Variant::Type t = v.get_type(); bool fits = true;
	if (k == 'A') {
		fits = t == Variant::ARRAY && (!in(m, { "append", "cmp" }) || p[0].get_type() == Variant::ARRAY);
		if (fits && in(m, { "sort", "bsearch", "shuffle" })) { VV c = below(v); bool hc = false; for (auto &e : c) hc |= isc(e); fits = c.size() <= 5 || !hc; if (m == "bsearch") c.push_back(p[0]); if (m != "shuffle") fits &= family(c); }
	} else if (k == 'D') fits = t == Variant::DICTIONARY && (!in(m, { "merge", "cmp" }) || p[0].get_type() == Variant::DICTIONARY) && (m != "has_all" || p[0].get_type() == Variant::ARRAY);
	else fits = m != "fmt" || t == Variant::STRING;
	if (!fits || refuse(m, v, p)) { canon({}); J o = J::arr(); o.add(J::obj().set("q", J(1))); return o; }
	Res r = k == 'A' ? AM(m, v, p) : k == 'D' ? DM(m, v, p) : VM(m, k == 'V' && m == "set" ? X[a[2].s] : v, p, a);
	return fin(a[1].s, r);
}
OP("lit") { X[a[0].s] = dec(a[1]); canon({}); return "ok"; }
OP("copy") { X[a[0].s] = X[a[1].s]; canon({}); return "ok"; }
OP("newa") { Array n; for (int i = 1; i < a.size(); i++) n.push_back(dec(a[i])); X[a[0].s] = n; canon({}); return "ok"; }
OP("newd") { X[a[0].s] = Dictionary(); canon({}); return "ok"; }
OP("A") { return call('A', a); }
OP("D") { return call('D', a); }
OP("V") { return call('V', a); }
