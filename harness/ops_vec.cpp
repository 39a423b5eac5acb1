#include "la.h"
OP("V.push_back") { V(a[0])->push_back(a[1].d()); return J("ok"); }
OP("V.append") { V(a[0])->append_mlpp_vector(V(a[1])); return J("ok"); }
OP("V.remove") { V(a[0])->remove(a[1].i()); return J("ok"); }
OP("V.remove_unordered") { V(a[0])->remove_unordered(a[1].i()); return J("ok"); }
OP("V.erase") { V(a[0])->erase(a[1].d()); return J("ok"); }
OP("V.erase_multi") { return J(V(a[0])->erase_multiple_unordered(a[1].d())); }
OP("V.invert") { V(a[0])->invert(); return J("ok"); }
OP("V.clear") { V(a[0])->clear(); return J("ok"); }
OP("V.reset") { V(a[0])->reset(); return J("ok"); }
OP("V.resize") { Ref<MLPPVector> v = V(a[0]); int o = v->size(); v->resize(a[1].i()); for (int i = o; i < v->size(); i++) v->element_set(i, a[2].d()); return J("ok"); }
OP("V.fill") { V(a[0])->fill(a[1].d()); return J("ok"); }
OP("V.insert") { V(a[0])->insert(a[1].i(), a[2].d()); return J("ok"); }
OP("V.find") { return J(V(a[0])->find(a[1].d(), a[2].i())); }
OP("V.sort") { V(a[0])->sort(); return J("ok"); }
OP("V.ordered_insert") { V(a[0])->ordered_insert(a[1].d()); return J("ok"); }
OP("V.get") { return J(V(a[0])->element_get(a[1].i())); }
OP("V.set") { V(a[0])->element_set(a[1].i(), a[2].d()); return J("ok"); }
OP("V.getref") { return J::arr().add(J((*V(a[0]).ptr())[a[1].i()])).add(J(V(a[0])->element_get_ref(a[1].i()))).add(J(V(a[0])->ptr()[a[1].i()])); }
OP("V.setref") { V(a[0])->element_get_ref(a[1].i()) = a[2].d(); return J("ok"); }
OP("V.query") { Ref<MLPPVector> v = V(a[0]); return J::arr().add(J(v->size())).add(J(v->empty())); }
// conversions: mutate the conversion result afterwards to show that it shares nothing
OP("V.to_vector") { Vector<real_t> r = V(a[0])->to_vector(); J j = jvec(r); for (int i = 0; i < r.size(); i++) r.write[i] = 77; return j; }
OP("V.to_pool") { PoolRealArray r = V(a[0])->to_pool_vector(); J j = jpool(r); for (int i = 0; i < r.size(); i++) r.set(i, 77); return j; }
OP("V.get_data") { PoolRealArray r = V(a[0])->get_data(); J j = jpool(r); for (int i = 0; i < r.size(); i++) r.set(i, 77); return j; }
OP("V.to_bytes") { Vector<uint8_t> r = V(a[0])->to_byte_array(); std::vector<real_t> x(r.size() / sizeof(real_t)); if (x.size()) memcpy(x.data(), r.ptr(), r.size()); J j = jstd(x); j.add(J(r.size() % (int)sizeof(real_t))); return j; }
OP("V.to_std") { std::vector<real_t> r = V(a[0])->to_std_vector(); J j = jstd(r); for (auto &x : r) x = 77; return j; }
OP("V.duplicate") { return put(VS, a[0], V(a[1])->duplicate_fast()); }
OP("V.copy_ctor") { Ref<MLPPVector> r(memnew(MLPPVector(*V(a[1]).ptr()))); return put(VS, a[0], r); }
OP("V.ctor") {
	Ref<MLPPVector> r;
	std::string k = a[1].s;
	if (k == "vector") r = Ref<MLPPVector>(memnew(MLPPVector(vecr(a[2]))));
	if (k == "pool") r = Ref<MLPPVector>(memnew(MLPPVector(poolr(a[2]))));
	if (k == "std") r = Ref<MLPPVector>(memnew(MLPPVector(stdr(a[2]))));
	if (k == "ptr") { std::vector<real_t> x = stdr(a[2]); r = Ref<MLPPVector>(memnew(MLPPVector(x.data(), (int)x.size()))); for (auto &e : x) e = 77; }
	return put(VS, a[0], r);
}
OP("V.set_from") {
	Ref<MLPPVector> v = V(a[0]);
	std::string k = a[1].s;
	if (k == "vector") { Vector<real_t> x = vecr(a[2]); v->set_from_vector(x); for (int i = 0; i < x.size(); i++) x.write[i] = 77; }
	if (k == "pool") { PoolRealArray x = poolr(a[2]); v->set_from_pool_vector(x); for (int i = 0; i < x.size(); i++) x.set(i, 77); }
	if (k == "data") { PoolRealArray x = poolr(a[2]); v->set_data(x); for (int i = 0; i < x.size(); i++) x.set(i, 77); }
	if (k == "std") { std::vector<real_t> x = stdr(a[2]); v->set_from_std_vector(x); for (auto &e : x) e = 77; }
	return J("ok");
}
OP("V.set_from_vec") { V(a[0])->set_from_mlpp_vector(V(a[1])); return J("ok"); }
OP("V.set_from_vecr") { V(a[0])->set_from_mlpp_vectorr(*V(a[1]).ptr()); return J("ok"); }
OP("V.is_equal") { return J(V(a[0])->is_equal_approx(V(a[1]), a[2].d())); }
OP("V.flatten") { Vector<Ref<MLPPVector>> x; for (auto &s : a[1].a) x.push_back(V(s)); V(a[0])->flatten_vectors(x); return J("ok"); }
OP("V.flattenn") { Vector<Ref<MLPPVector>> x; for (auto &s : a[2].a) x.push_back(V(s)); return put(VS, a[0], V(a[1])->flatten_vectorsn(x)); }
OP("V.to_string") { return jstr(V(a[0])->to_string()); }

// algebra: [op, form, dst, args...]
#define BIN(o) if (op == #o) { if (f == "i") V(a[2])->o(V(a[4])); else if (f == "n") return put(VS, a[2], V(a[3])->o##n(V(a[4]))); else V(a[2])->o##b(V(a[3]), V(a[4])); return J("ok"); }
OP("V.bin") { std::string op = a[0].s, f = a[1].s; BIN(hadamard_product) BIN(division_element_wise) BIN(add) BIN(sub) BIN(max) BIN(min) return J("?"); }
#define UN(o) if (op == #o) { if (f == "i") V(a[2])->o(); else if (f == "n") return put(VS, a[2], V(a[3])->o##n()); else V(a[2])->o##b(V(a[3])); return J("ok"); }
OP("V.un") { std::string op = a[0].s, f = a[1].s; UN(log) UN(log10) UN(exp) UN(erf) UN(sqrt) UN(cbrt) UN(abs) UN(sin) UN(cos) return J("?"); }
OP("V.sca") {
	std::string op = a[0].s, f = a[1].s; real_t x = a[4].d();
	if (op == "scalar_multiply") { if (f == "i") V(a[2])->scalar_multiply(x); else if (f == "n") return put(VS, a[2], V(a[3])->scalar_multiplyn(x)); else V(a[2])->scalar_multiplyb(x, V(a[3])); }
	if (op == "scalar_add") { if (f == "i") V(a[2])->scalar_add(x); else if (f == "n") return put(VS, a[2], V(a[3])->scalar_addn(x)); else V(a[2])->scalar_addb(x, V(a[3])); }
	if (op == "exponentiate") { if (f == "i") V(a[2])->exponentiate(x); else if (f == "n") return put(VS, a[2], V(a[3])->exponentiaten(x)); else V(a[2])->exponentiateb(V(a[3]), x); }
	return J("ok");
}
OP("V.red") {
	std::string op = a[0].s; Ref<MLPPVector> v = V(a[1]);
	if (op == "max_element") return J(v->max_element());
	if (op == "max_element_index") return J(v->max_element_index());
	if (op == "min_element") return J(v->min_element());
	if (op == "min_element_index") return J(v->min_element_index());
	if (op == "norm_2") return J(v->norm_2());
	if (op == "norm_sq") return J(v->norm_sq());
	if (op == "sum_elements") return J(v->sum_elements());
	return J("?");
}
OP("V.red2") {
	std::string op = a[0].s; Ref<MLPPVector> v = V(a[1]);
	if (op == "dot") return J(v->dot(V(a[2])));
	if (op == "euclidean_distance") return J(v->euclidean_distance(V(a[2])));
	if (op == "euclidean_distance_squared") return J(v->euclidean_distance_squared(V(a[2])));
	return J("?");
}
OP("V.cross") { return put(VS, a[0], V(a[1])->cross(V(a[2]))); }
OP("V.const") {
	std::string k = a[1].s; int n = a[3].i(), x = a[4].i(); Ref<MLPPVector> r;
	if (k == "vecn_zero") r = V(a[2])->vecn_zero(n);
	if (k == "vecn_one") r = V(a[2])->vecn_one(n);
	if (k == "vecn_full") r = V(a[2])->vecn_full(n, x);
	if (k == "create_vec_zero") r = MLPPVector::create_vec_zero(n);
	if (k == "create_vec_one") r = MLPPVector::create_vec_one(n);
	if (k == "create_vec_full") r = MLPPVector::create_vec_full(n, x);
	return put(VS, a[0], r);
}
OP("V.submat") { std::string f = a[0].s; if (f == "i") V(a[1])->subtract_matrix_rows(M(a[3])); else if (f == "n") return put(VS, a[1], V(a[2])->subtract_matrix_rowsn(M(a[3]))); else V(a[1])->subtract_matrix_rowsb(V(a[2]), M(a[3])); return J("ok"); }
OP("V.outer") { return put(MS, a[0], V(a[1])->outer_product(V(a[2]))); }
OP("V.diag") { return put(MS, a[0], V(a[1])->diagnm()); }
