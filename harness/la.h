// Slots for linear-algebra objects shared by several domains
#pragma once
#include "drv.h"
#include "core/mlpp_matrix.h"
#include "core/mlpp_tensor3.h"
#include "core/mlpp_vector.h"

extern std::map<std::string, Ref<MLPPVector>> VS;
extern std::map<std::string, Ref<MLPPMatrix>> MS;
extern std::map<std::string, Ref<MLPPTensor3>> TS;

inline Ref<MLPPVector> V(const J &j) { auto it = VS.find(j.s); return it == VS.end() ? Ref<MLPPVector>() : it->second; }
inline Ref<MLPPMatrix> M(const J &j) { auto it = MS.find(j.s); return it == MS.end() ? Ref<MLPPMatrix>() : it->second; }
inline Ref<MLPPTensor3> T(const J &j) { auto it = TS.find(j.s); return it == TS.end() ? Ref<MLPPTensor3>() : it->second; }

inline J jv(const MLPPVector &v) { J r = J::arr(); for (int i = 0; i < v.size(); i++) r.add(J(v.ptr()[i])); return r; }
inline J jv(const Ref<MLPPVector> &v) { return v.is_valid() ? jv(*v.ptr()) : J("null"); }
inline J jm(const Ref<MLPPMatrix> &m) {
	if (!m.is_valid()) return J("null");
	Size2i s = m->size();
	J d = J::arr();
	for (int y = 0; y < s.y; y++) { J r = J::arr(); for (int x = 0; x < s.x; x++) r.add(J(m->ptr()[y * s.x + x])); d.add(r); }
	return J::obj().set("r", s.y).set("c", s.x).set("d", d);
}
inline J jt(const Ref<MLPPTensor3> &t) {
	if (!t.is_valid()) return J("null");
	Size3i s = t->size();
	J d = J::arr();
	for (int z = 0; z < s.z; z++) { J p = J::arr(); for (int y = 0; y < s.y; y++) { J r = J::arr(); for (int x = 0; x < s.x; x++) r.add(J(t->ptr()[(z * s.y + y) * s.x + x])); p.add(r); } d.add(p); }
	return J::obj().set("x", s.x).set("y", s.y).set("z", s.z).set("d", d);
}
inline Vector<real_t> vecr(const J &j) { Vector<real_t> v; for (auto &x : j.a) v.push_back(x.d()); return v; }
inline PoolRealArray poolr(const J &j) { PoolRealArray p; for (auto &x : j.a) p.push_back(x.d()); return p; }
inline std::vector<real_t> stdr(const J &j) { std::vector<real_t> p; for (auto &x : j.a) p.push_back(x.d()); return p; }
inline J jvec(const Vector<real_t> &v) { J r = J::arr(); for (int i = 0; i < v.size(); i++) r.add(J(v[i])); return r; }
inline J jpool(const PoolRealArray &v) { J r = J::arr(); PoolRealArray::Read rd = v.read(); for (int i = 0; i < v.size(); i++) r.add(J(rd[i])); return r; }
inline J jstd(const std::vector<real_t> &v) { J r = J::arr(); for (real_t x : v) r.add(J(x)); return r; }
inline J jstr(const String &s) { CharString c = s.utf8(); return J(std::string(c.get_data() ? c.get_data() : "")); }
// a literal vector / matrix / tensor given in the script
inline Ref<MLPPVector> mkv(const J &j) { Ref<MLPPVector> v; v.instance(); for (auto &x : j.a) v->push_back(x.d()); return v; }
inline Ref<MLPPMatrix> mkm(const J &j) {
	Ref<MLPPMatrix> m; m.instance();
	m->resize(Size2i(j["c"].i(), j["r"].i()));
	for (int y = 0; y < j["r"].i(); y++) for (int x = 0; x < j["c"].i(); x++) m->ptrw()[y * j["c"].i() + x] = j["d"][y][x].d();
	return m;
}
inline Ref<MLPPTensor3> mkt(const J &j) {
	Ref<MLPPTensor3> t; t.instance();
	int X = j["x"].i(), Y = j["y"].i(), Z = j["z"].i();
	t->resize(Size3i(X, Y, Z));
	for (int z = 0; z < Z; z++) for (int y = 0; y < Y; y++) for (int x = 0; x < X; x++) t->ptrw()[(z * Y + y) * X + x] = j["d"][z][y][x].d();
	return t;
}
// store a result object in a slot; answers "ok"/"null" and whether the object is distinct from all other slots
template <class R> J put(std::map<std::string, R> &S, const J &slot, const R &r) {
	if (!r.is_valid()) return J("null");
	for (auto &p : S) if (p.second.ptr() == r.ptr()) return J("aliased " + p.first);
	S[slot.s] = r;
	return J("ok");
}
