#include "la.h"
static Vector<Vector<real_t>> vv(const J &j) { Vector<Vector<real_t>> r; for (auto &x : j.a) r.push_back(vecr(x)); return r; }
static Array aa(const J &j) { Array r; for (auto &x : j.a) r.push_back(Variant(poolr(x))); return r; }
static std::vector<std::vector<real_t>> ss(const J &j) { std::vector<std::vector<real_t>> r; for (auto &x : j.a) r.push_back(stdr(x)); return r; }
static Ref<MLPPMatrix> R(MLPPMatrix *m) { return Ref<MLPPMatrix>(m); }
OP("M.row_add") {
	std::string k = a[1].s;
	if (k == "vector") { Vector<real_t> x = vecr(a[2]); M(a[0])->row_add(x); for (int i = 0; i < x.size(); i++) x.write[i] = 77; }
	if (k == "pool") M(a[0])->row_add_pool_vector(poolr(a[2]));
	if (k == "mlpp") M(a[0])->row_add_mlpp_vector(V(a[2]));
	return J("ok");
}
OP("M.rows_add") { M(a[0])->rows_add_mlpp_matrix(M(a[1])); return J("ok"); }
OP("M.row_remove") { M(a[0])->row_remove(a[1].i()); return J("ok"); }
OP("M.row_remove_unordered") { M(a[0])->row_remove_unordered(a[1].i()); return J("ok"); }
OP("M.row_swap") { M(a[0])->row_swap(a[1].i(), a[2].i()); return J("ok"); }
OP("M.clear") { M(a[0])->clear(); return J("ok"); }
OP("M.reset") { M(a[0])->reset(); return J("ok"); }
OP("M.resize_fill") { M(a[0])->resize(Size2i(a[2].i(), a[1].i())); M(a[0])->fill(a[3].d()); return J("ok"); }
OP("M.resize_rows") { Ref<MLPPMatrix> m = M(a[0]); Size2i s = m->size(); m->resize(Size2i(s.x, a[1].i())); for (int y = s.y; y < a[1].i(); y++) for (int x = 0; x < s.x; x++) m->element_set(y, x, a[2].d()); return J("ok"); }
OP("M.get") { return J(M(a[0])->element_get(a[1].i(), a[2].i())); }
OP("M.set") { M(a[0])->element_set(a[1].i(), a[2].i(), a[3].d()); return J("ok"); }
OP("M.get_index") { return J(M(a[0])->element_get_index(a[1].i())); }
OP("M.set_index") { M(a[0])->element_set_index(a[1].i(), a[2].d()); return J("ok"); }
OP("M.getref") { Ref<MLPPMatrix> m = M(a[0]); int i = m->calculate_index(a[1].i(), a[2].i()); const MLPPMatrix &c = *m.ptr(); return J::arr().add(J(i)).add(J(c[i])).add(J(m->ptr()[i])); }
OP("M.setref") { Ref<MLPPMatrix> m = M(a[0]); (*m.ptr())[m->calculate_index(a[1].i(), a[2].i())] = a[3].d(); return J("ok"); }
OP("M.row_get") {
	std::string k = a[1].s;
	if (k == "vector") return jvec(M(a[0])->row_get_vector(a[2].i()));
	if (k == "pool") return jpool(M(a[0])->row_get_pool_vector(a[2].i()));
	Ref<MLPPVector> v = M(a[0])->row_get_mlpp_vector(a[2].i()); J j = jv(v);
	if (v.is_valid()) v->fill(77);
	return j;
}
OP("M.row_get_into") { M(a[0])->row_get_into_mlpp_vector(a[1].i(), V(a[2])); return J("ok"); }
OP("M.row_set") {
	std::string k = a[1].s;
	if (k == "vector") M(a[0])->row_set_vector(a[2].i(), vecr(a[3]));
	if (k == "pool") M(a[0])->row_set_pool_vector(a[2].i(), poolr(a[3]));
	if (k == "std") M(a[0])->set_row_std_vector(a[2].i(), stdr(a[3]));
	if (k == "mlpp") M(a[0])->row_set_mlpp_vector(a[2].i(), V(a[3]));
	return J("ok");
}
OP("M.fill") { M(a[0])->fill(a[1].d()); return J("ok"); }
OP("M.flat") {
	std::string k = a[1].s; Ref<MLPPMatrix> m = M(a[0]);
	if (k == "vector") { Vector<real_t> r = m->to_flat_vector(); J j = jvec(r); for (int i = 0; i < r.size(); i++) r.write[i] = 77; return j; }
	if (k == "pool") { PoolRealArray r = m->to_flat_pool_vector(); J j = jpool(r); for (int i = 0; i < r.size(); i++) r.set(i, 77); return j; }
	if (k == "bytes") { Vector<uint8_t> r = m->to_flat_byte_array(); std::vector<real_t> x(r.size() / sizeof(real_t)); if (x.size()) memcpy(x.data(), r.ptr(), r.size()); return jstd(x); }
	if (k == "std") { if (m->empty()) return J::arr(); std::vector<real_t> r = m->to_flat_std_vector(); J j = jstd(r); for (auto &x : r) x = 77; return j; }
	if (k == "data") { Array d = m->get_data(); return jpool(d[1]); }
	std::vector<std::vector<real_t>> r = m->to_std_vector(); J j = J::arr(); for (auto &x : r) for (auto y : x) j.add(J(y)); return j;
}
OP("M.duplicate") { return put(MS, a[0], M(a[1])->duplicate_fast()); }
OP("M.copy_ctor") { return put(MS, a[0], R(memnew(MLPPMatrix(*M(a[1]).ptr())))); }
OP("M.ctor") {
	std::string k = a[1].s; Ref<MLPPMatrix> r;
	if (k == "vectors") r = R(memnew(MLPPMatrix(vv(a[2]))));
	if (k == "arrays") r = R(memnew(MLPPMatrix(aa(a[2]))));
	if (k == "stds") r = R(memnew(MLPPMatrix(ss(a[2]))));
	if (k == "ptr") { std::vector<real_t> f; for (auto &x : a[2].a) for (auto &y : x.a) f.push_back(y.d()); f.push_back(0); r = R(memnew(MLPPMatrix(f.data(), a[2].size(), a[2][0].size()))); for (auto &x : f) x = 77; }
	return put(MS, a[0], r);
}
OP("M.set_from") {
	std::string k = a[1].s; Ref<MLPPMatrix> m = M(a[0]);
	if (k == "vectors") m->set_from_vectors(vv(a[2]));
	if (k == "arrays") m->set_from_arrays(aa(a[2]));
	if (k == "stds") m->set_from_std_vectors(ss(a[2]));
	if (k == "ptr") { std::vector<real_t> f; for (auto &x : a[2].a) for (auto &y : x.a) f.push_back(y.d()); f.push_back(0); m->set_from_ptr(f.data(), a[2].size(), a[2][0].size()); for (auto &x : f) x = 77; }
	if (k == "data") { Array d; d.push_back(Size2i(a[2][0].size(), a[2].size())); PoolRealArray p; for (auto &x : a[2].a) for (auto &y : x.a) p.push_back(y.d()); d.push_back(p); m->set_data(d); }
	if (k == "rows") { Vector<Ref<MLPPVector>> x; for (auto &s : a[2].a) x.push_back(V(s)); m->set_from_mlpp_vectors(x); }
	if (k == "rowarray") { Array x; for (auto &s : a[2].a) x.push_back(Variant(V(s))); m->set_from_mlpp_vectors_array(x); }
	return J("ok");
}
OP("M.set_data_bad") { Array d; d.push_back(Size2i(2, 2)); PoolRealArray p; p.push_back(1); if (a[1].i()) d.push_back(p); M(a[0])->set_data(d); return J("ok"); }
OP("M.set_from_mat") { M(a[0])->set_from_mlpp_matrix(M(a[1])); return J("ok"); }
OP("M.set_from_matr") { M(a[0])->set_from_mlpp_matrixr(*M(a[1]).ptr()); return J("ok"); }
OP("M.query") { Ref<MLPPMatrix> m = M(a[0]); return J::arr().add(J(m->size().y)).add(J(m->size().x)).add(J(m->empty())).add(J(m->data_size())); }
OP("M.is_equal") { return J(M(a[0])->is_equal_approx(M(a[1]), a[2].d())); }

#define BIN(o) if (op == #o) { if (f == "i") M(a[2])->o(M(a[4])); else if (f == "n") return put(MS, a[2], M(a[3])->o##n(M(a[4]))); else M(a[2])->o##b(M(a[3]), M(a[4])); return J("ok"); }
OP("M.bin") { std::string op = a[0].s, f = a[1].s; BIN(hadamard_product) BIN(division_element_wise) BIN(add) BIN(sub) BIN(max) BIN(min) BIN(mult) BIN(kronecker_product) return J("?"); }
#define UN(o) if (op == #o) { if (f == "i") M(a[2])->o(); else if (f == "n") return put(MS, a[2], M(a[3])->o##n()); else M(a[2])->o##b(M(a[3])); return J("ok"); }
OP("M.un") { std::string op = a[0].s, f = a[1].s; UN(log) UN(log10) UN(exp) UN(erf) UN(sqrt) UN(cbrt) UN(abs) UN(sin) UN(cos) UN(transpose) return J("?"); }
OP("M.sca") {
	std::string op = a[0].s, f = a[1].s; real_t x = a[4].d();
	if (op == "scalar_multiply") { if (f == "i") M(a[2])->scalar_multiply(x); else if (f == "n") return put(MS, a[2], M(a[3])->scalar_multiplyn(x)); else M(a[2])->scalar_multiplyb(x, M(a[3])); }
	if (op == "scalar_add") { if (f == "i") M(a[2])->scalar_add(x); else if (f == "n") return put(MS, a[2], M(a[3])->scalar_addn(x)); else M(a[2])->scalar_addb(x, M(a[3])); }
	if (op == "exponentiate") { if (f == "i") M(a[2])->exponentiate(x); else if (f == "n") return put(MS, a[2], M(a[3])->exponentiaten(x)); else M(a[2])->exponentiateb(M(a[3]), x); }
	return J("ok");
}
OP("M.addvec") { std::string f = a[0].s; if (f == "i") M(a[1])->add_vec(V(a[3])); else if (f == "n") return put(MS, a[1], M(a[2])->add_vecn(V(a[3]))); else M(a[1])->add_vecb(M(a[2]), V(a[3])); return J("ok"); }
OP("M.multvec") { std::string f = a[0].s; if (f == "n") return put(VS, a[1], M(a[2])->mult_vec(V(a[3]))); M(a[2])->mult_veco(V(a[3]), V(a[1])); return J("ok"); }
OP("M.outer") { std::string f = a[0].s; if (f == "i") M(a[1])->outer_product(V(a[2]), V(a[3])); else return put(MS, a[1], M(a[4])->outer_productn(V(a[2]), V(a[3]))); return J("ok"); }
OP("M.diag") {
	std::string op = a[0].s, f = a[1].s;
	if (op == "set") { if (f == "i") M(a[2])->diagonal_set(V(a[4])); else return put(MS, a[2], M(a[3])->diagonal_setn(V(a[4]))); }
	else { if (f == "i") M(a[2])->diagonal_zeroed(V(a[4])); else return put(MS, a[2], M(a[3])->diagonal_zeroedn(V(a[4]))); }
	return J("ok");
}
OP("M.identity") { std::string f = a[0].s; if (f == "i") M(a[1])->identity(); else return put(MS, a[1], M(a[2])->identityn()); return J("ok"); }
OP("M.const") {
	std::string k = a[1].s; int r = a[3].i(), c = a[4].i(); Ref<MLPPMatrix> m = M(a[2]);
	if (k == "zero") return put(MS, a[0], m->matn_zero(r, c));
	if (k == "one") return put(MS, a[0], m->matn_one(r, c));
	if (k == "full") return put(MS, a[0], m->matn_full(r, c, a[5].i()));
	if (k == "identity") return put(MS, a[0], m->identity_mat(r));
	return put(MS, a[0], MLPPMatrix::create_identity_mat(r));
}
OP("M.noise") { std::string k = a[1].s; Ref<MLPPMatrix> m; if (k == "fill") { m = M(a[2])->duplicate_fast(); m->gaussian_noise_fill(); } else if (k == "n") m = M(a[2])->gaussian_noise(a[3].i(), a[4].i()); else m = MLPPMatrix::create_gaussian_noise(a[3].i(), a[4].i());
	bool ok = true; for (int i = 0; i < m->data_size(); i++) ok = ok && std::isfinite(m->ptr()[i]); return J::arr().add(J(m->size().y)).add(J(m->size().x)).add(J(ok)); }
OP("M.flatten") { std::string f = a[0].s; if (f == "n") return put(VS, a[1], M(a[2])->flatten()); M(a[2])->flatteno(V(a[1])); return J("ok"); }
OP("M.trace") { return J(M(a[0])->trace()); }
OP("M.det") { std::string k = a[0].s; if (k == "self") return J(M(a[1])->det()); if (k == "d") return J(M(a[1])->det(a[2].i())); return J(M(a[3])->detb(M(a[1]), a[2].i())); }
OP("M.cofactor") { int n = a[2].i(); Ref<MLPPMatrix> c; if (a[0].s == "n") c = M(a[1])->cofactor(n, a[3].i(), a[4].i()); else { c = M(a[5])->duplicate_fast(); M(a[1])->cofactoro(n, a[3].i(), a[4].i(), c); }
	J d = J::arr(); for (int i = 0; i < n - 1; i++) { J r = J::arr(); for (int j = 0; j < n - 1; j++) r.add(J(c->element_get(i, j))); d.add(r); } return d; }
OP("M.adjoint") { if (a[0].s == "n") return put(MS, a[1], M(a[2])->adjoint()); M(a[2])->adjointo(M(a[1])); return J("ok"); }
OP("M.inverse") { if (a[0].s == "n") return put(MS, a[1], M(a[2])->inverse()); M(a[2])->inverseo(M(a[1])); return J("ok"); }
OP("M.pinverse") { if (a[0].s == "n") return put(MS, a[1], M(a[2])->pinverse()); M(a[2])->pinverseo(M(a[1])); return J("ok"); }
OP("M.power") { return put(MS, a[0], M(a[1])->matrix_powern(a[2].i())); }
OP("M.solve") { return put(VS, a[0], M(a[1])->solve(V(a[2]))); }
OP("M.cov") { if (a[0].s == "n") return put(MS, a[1], M(a[2])->cov()); M(a[2])->covo(M(a[1])); return J("ok"); }
OP("M.rotmat") { return put(MS, a[0], M(a[1])->create_rotation_matrix(a[2].d(), a[3].i())); }
OP("M.rotate") { std::string f = a[0].s; if (f == "i") M(a[1])->rotate(a[3].d(), a[4].i()); else if (f == "n") return put(MS, a[1], M(a[2])->rotaten(a[3].d(), a[4].i())); else M(a[1])->rotateb(M(a[2]), a[3].d(), a[4].i()); return J("ok"); }
