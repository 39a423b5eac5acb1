#include "la.h"
static Ref<MLPPTensor3> R(MLPPTensor3 *m) { return Ref<MLPPTensor3>(m); }
typedef std::vector<std::vector<std::vector<real_t>>> S3;
static S3 s3(const J &d) { S3 r; for (auto &p : d.a) { r.emplace_back(); for (auto &y : p.a) r.back().push_back(stdr(y)); } return r; }
static PoolRealArray flatp(const J &d) { PoolRealArray f; for (auto &p : d.a) for (auto &y : p.a) for (auto &x : y.a) f.push_back(x.d()); return f; }
OP("T.z_add") {
	std::string k = a[1].s; Ref<MLPPTensor3> t = T(a[0]);
	if (k == "vector") { Vector<real_t> x = vecr(a[2]); t->z_slice_add(x); for (int i = 0; i < x.size(); i++) x.write[i] = 77; }
	if (k == "pool") t->z_slice_add_pool_vector(poolr(a[2]));
	if (k == "mlpp") t->z_slice_add_mlpp_vector(V(a[2]));
	if (k == "mat") t->z_slice_add_mlpp_matrix(M(a[2]));
	return J("ok");
}
OP("T.z_remove") { T(a[0])->z_slice_remove(a[1].i()); return J("ok"); }
OP("T.z_remove_unordered") { T(a[0])->z_slice_remove_unordered(a[1].i()); return J("ok"); }
OP("T.z_swap") { T(a[0])->z_slice_swap(a[1].i(), a[2].i()); return J("ok"); }
OP("T.clear") { T(a[0])->clear(); return J("ok"); }
OP("T.reset") { T(a[0])->reset(); return J("ok"); }
OP("T.resize_fill") { T(a[0])->resize(Size3i(a[1].i(), a[2].i(), a[3].i())); T(a[0])->fill(a[4].d()); return J("ok"); }
// growing or shrinking in z keeps the slices; new cells are set explicitly
OP("T.resize_z") { Ref<MLPPTensor3> t = T(a[0]); Size3i s = t->size(); t->resize(Size3i(s.x, s.y, a[1].i())); for (int z = s.z; z < a[1].i(); z++) for (int y = 0; y < s.y; y++) for (int x = 0; x < s.x; x++) t->element_set(z, y, x, a[2].d()); return J("ok"); }
OP("T.shape") { T(a[0])->shape_set(Size3i(a[1].i(), a[2].i(), a[3].i())); return J("ok"); }
OP("T.fill") { T(a[0])->fill(a[1].d()); return J("ok"); }
OP("T.get") { return J(T(a[0])->element_get(a[1].i(), a[2].i(), a[3].i())); }
OP("T.set") { T(a[0])->element_set(a[1].i(), a[2].i(), a[3].i(), a[4].d()); return J("ok"); }
OP("T.get_index") { return J(T(a[0])->element_get_index(a[1].i())); }
OP("T.set_index") { T(a[0])->element_set_index(a[1].i(), a[2].d()); return J("ok"); }
OP("T.getref") { Ref<MLPPTensor3> t = T(a[0]); int i = t->calculate_index(a[1].i(), a[2].i(), a[3].i()); const MLPPTensor3 &c = *t.ptr(); return J::arr().add(J(i)).add(J(t->calculate_z_slice_index(a[1].i()))).add(J(c[i])).add(J((*t.ptr())[i])).add(J(t->ptr()[i])); }
OP("T.setref") { Ref<MLPPTensor3> t = T(a[0]); (*t.ptr())[t->calculate_index(a[1].i(), a[2].i(), a[3].i())] = a[4].d(); return J("ok"); }
OP("T.row_get") {
	std::string k = a[1].s; Ref<MLPPTensor3> t = T(a[0]); int z = a[2].i(), y = a[3].i();
	if (k == "vector") { Vector<real_t> r = t->row_get_vector(z, y); J j = jvec(r); for (int i = 0; i < r.size(); i++) r.write[i] = 77; return j; }
	if (k == "pool") { PoolRealArray r = t->row_get_pool_vector(z, y); J j = jpool(r); for (int i = 0; i < r.size(); i++) r.set(i, 77); return j; }
	Ref<MLPPVector> v = t->row_get_mlpp_vector(z, y); J j = jv(v); if (v.is_valid()) v->fill(77); return j;
}
OP("T.row_get_into") { T(a[0])->row_get_into_mlpp_vector(a[1].i(), a[2].i(), V(a[3])); return J("ok"); }
OP("T.row_set") {
	std::string k = a[1].s; Ref<MLPPTensor3> t = T(a[0]); int z = a[2].i(), y = a[3].i();
	if (k == "vector") t->row_set_vector(z, y, vecr(a[4]));
	if (k == "pool") t->row_set_pool_vector(z, y, poolr(a[4]));
	if (k == "mlpp") t->row_set_mlpp_vector(z, y, V(a[4]));
	return J("ok");
}
OP("T.z_get") {
	std::string k = a[1].s; Ref<MLPPTensor3> t = T(a[0]); int z = a[2].i();
	if (k == "vector") { Vector<real_t> r = t->z_slice_get_vector(z); J j = jvec(r); for (int i = 0; i < r.size(); i++) r.write[i] = 77; return j; }
	if (k == "pool") { PoolRealArray r = t->z_slice_get_pool_vector(z); J j = jpool(r); for (int i = 0; i < r.size(); i++) r.set(i, 77); return j; }
	if (k == "mlpp") { Ref<MLPPVector> v = t->z_slice_get_mlpp_vector(z); J j = jv(v); if (v.is_valid()) v->fill(77); return j; }
	Ref<MLPPMatrix> m = t->z_slice_get_mlpp_matrix(z); J j = jm(m); if (m.is_valid()) m->fill(77); return j;
}
OP("T.z_get_into") { if (a[1].s == "mlpp") T(a[0])->z_slice_get_into_mlpp_vector(a[2].i(), V(a[3])); else T(a[0])->z_slice_get_into_mlpp_matrix(a[2].i(), M(a[3])); return J("ok"); }
OP("T.z_set") {
	std::string k = a[1].s; Ref<MLPPTensor3> t = T(a[0]); int z = a[2].i();
	if (k == "vector") t->z_slice_set_vector(z, vecr(a[3]));
	if (k == "pool") t->z_slice_set_pool_vector(z, poolr(a[3]));
	if (k == "mlpp") t->z_slice_set_mlpp_vector(z, V(a[3]));
	if (k == "mat") t->z_slice_set_mlpp_matrix(z, M(a[3]));
	return J("ok");
}
OP("T.x_get") { Ref<MLPPMatrix> m = T(a[0])->x_slice_get(a[1].i()); J j = jm(m); if (m.is_valid()) m->fill(77); return j; }
OP("T.y_get") { Ref<MLPPMatrix> m = T(a[0])->y_slice_get(a[1].i()); J j = jm(m); if (m.is_valid()) m->fill(77); return j; }
OP("T.x_get_into") { T(a[0])->x_slice_get_into(a[1].i(), M(a[2])); return J("ok"); }
OP("T.y_get_into") { T(a[0])->y_slice_get_into(a[1].i(), M(a[2])); return J("ok"); }
OP("T.x_set") { T(a[0])->x_slice_set(a[1].i(), M(a[2])); return J("ok"); }
OP("T.y_set") { T(a[0])->y_slice_set(a[1].i(), M(a[2])); return J("ok"); }
OP("T.flat") {
	std::string k = a[1].s; Ref<MLPPTensor3> t = T(a[0]);
	if (k == "vector") { Vector<real_t> r = t->to_flat_vector(); J j = jvec(r); for (int i = 0; i < r.size(); i++) r.write[i] = 77; return j; }
	if (k == "pool") { PoolRealArray r = t->to_flat_pool_vector(); J j = jpool(r); for (int i = 0; i < r.size(); i++) r.set(i, 77); return j; }
	if (k == "bytes") { Vector<uint8_t> r = t->to_flat_byte_array(); std::vector<real_t> x(r.size() / sizeof(real_t)); if (x.size()) memcpy(x.data(), r.ptr(), r.size()); return jstd(x); }
	if (k == "std") { if (t->data_size() == 0) return J::arr(); std::vector<real_t> r = t->to_flat_std_vector(); return jstd(r); }
	if (k == "data") { Array d = t->get_data(); return jpool(d[1]); }
	S3 r = t->to_std_vector(); J j = J::arr(); for (auto &p : r) for (auto &y : p) for (auto x : y) j.add(J(x)); return j;
}
OP("T.duplicate") { return put(TS, a[0], T(a[1])->duplicate_fast()); }
OP("T.ctor") {
	std::string k = a[1].s;
	if (k == "stds") return put(TS, a[0], R(memnew(MLPPTensor3(s3(a[2])))));
	if (k == "mat") return put(TS, a[0], R(memnew(MLPPTensor3(*M(a[2]).ptr()))));
	Array x; for (auto &s : a[2].a) x.push_back(Variant(M(s))); return put(TS, a[0], R(memnew(MLPPTensor3(x))));
}
OP("T.set_from") {
	std::string k = a[1].s; Ref<MLPPTensor3> t = T(a[0]);
	if (k == "stds") t->set_from_std_vectors(s3(a[2]));
	if (k == "mat") t->set_from_mlpp_matrix(M(a[2]));
	if (k == "matr") t->set_from_mlpp_matrixr(*M(a[2]).ptr());
	if (k == "tensor") t->set_from_mlpp_tensor3(T(a[2]));
	if (k == "tensorr") t->set_from_mlpp_tensor3r(*T(a[2]).ptr());
	if (k == "data") { Array d; d.push_back(Size3i(a[2][0][0].size(), a[2][0].size(), a[2].size())); d.push_back(flatp(a[2])); t->set_data(d); }
	if (k == "data_bad") { Array d; d.push_back(Size3i(2, 2, 2)); PoolRealArray p; p.push_back(1); if (a[2].i()) d.push_back(p); t->set_data(d); }
	if (k == "mats") { Vector<Ref<MLPPMatrix>> x; for (auto &s : a[2].a) x.push_back(M(s)); t->set_from_mlpp_matricess(x); }
	if (k == "matarray") { Array x; for (auto &s : a[2].a) x.push_back(Variant(M(s))); t->set_from_mlpp_matrices_array(x); }
	if (k == "vecs") { Vector<Ref<MLPPVector>> x; for (auto &s : a[2].a) x.push_back(V(s)); t->set_from_mlpp_vectors(x); }
	if (k == "vecarray") { Array x; for (auto &s : a[2].a) x.push_back(Variant(V(s))); t->set_from_mlpp_vectors_array(x); }
	return J("ok");
}
OP("T.query") { Ref<MLPPTensor3> t = T(a[0]); Size3i s = t->size(); Size2i q = t->z_slice_size(); return J::arr().add(J(s.x)).add(J(s.y)).add(J(s.z)).add(J(t->data_size())).add(J(t->z_slice_data_size())).add(J(q.x)).add(J(q.y)).add(J(t->empty())); }
OP("T.is_equal") { return J(T(a[0])->is_equal_approx(T(a[1]), a[2].d())); }
#define BIN(o) if (op == #o) { if (f == "i") T(a[2])->o(T(a[4])); else if (f == "n") return put(TS, a[2], T(a[3])->o##n(T(a[4]))); else T(a[2])->o##b(T(a[3]), T(a[4])); return J("ok"); }
OP("T.bin") { std::string op = a[0].s, f = a[1].s; BIN(hadamard_product) BIN(division_element_wise) BIN(add) BIN(sub) BIN(max) return J("?"); }
#define UN(o) if (op == #o) { if (f == "i") T(a[2])->o(); else if (f == "n") return put(TS, a[2], T(a[3])->o##n()); else T(a[2])->o##b(T(a[3])); return J("ok"); }
OP("T.un") { std::string op = a[0].s, f = a[1].s; UN(sqrt) UN(abs) return J("?"); }
OP("T.sca") {
	std::string op = a[0].s, f = a[1].s; real_t x = a[4].d();
	if (op == "scalar_multiply") { if (f == "i") T(a[2])->scalar_multiply(x); else if (f == "n") return put(TS, a[2], T(a[3])->scalar_multiplyn(x)); else T(a[2])->scalar_multiplyb(x, T(a[3])); }
	if (op == "scalar_add") { if (f == "i") T(a[2])->scalar_add(x); else if (f == "n") return put(TS, a[2], T(a[3])->scalar_addn(x)); else T(a[2])->scalar_addb(x, T(a[3])); }
	if (op == "exponentiate") { if (f == "i") T(a[2])->exponentiate(x); else if (f == "n") return put(TS, a[2], T(a[3])->exponentiaten(x)); else T(a[2])->exponentiateb(T(a[3]), x); }
	return J("ok");
}
OP("T.flatten") { if (a[0].s == "n") return put(VS, a[1], T(a[2])->flatten()); T(a[2])->flatteno(V(a[1])); return J("ok"); }
OP("T.vec_mult") { return put(MS, a[0], T(a[1])->tensor_vec_mult(V(a[2]))); }
