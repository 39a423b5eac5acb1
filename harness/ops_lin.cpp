// MLPPLinAlg facade: event L [function, destination slot(s), arguments...]
#include "la.h"
#include "core/lin_alg.h"
static J putv(const J &d, const Ref<MLPPVector> &v) { return put(VS, d, v); }
static J putm(const J &d, const Ref<MLPPMatrix> &v) { return put(MS, d, v); }
static Vector<Ref<MLPPMatrix>> ml(const J &j) { Vector<Ref<MLPPMatrix>> r; for (auto &x : j.a) r.push_back(M(x)); return r; }
static J putl(const J &d, const Vector<Ref<MLPPMatrix>> &v) { J r = J::arr(); for (int i = 0; i < v.size(); i++) r.add(put(MS, d[i], v[i])); return r; }
OP("L") {
	std::string f = a[0].s; const J &d = a[1];
	MLPPLinAlg g;
#define M1(n) if (f == #n) return putm(d, g.n(M(a[2])));
#define M2(n) if (f == #n) return putm(d, g.n(M(a[2]), M(a[3])));
#define V1(n) if (f == #n) return putv(d, g.n(V(a[2])));
#define V2(n) if (f == #n) return putv(d, g.n(V(a[2]), V(a[3])));
#define O2(n) if (f == #n) { g.n(V(a[2]), V(a[3]), V(d)); return J("ok"); }
#define RV(n) if (f == #n) return J(g.n(V(a[2])));
#define RV2(n) if (f == #n) return J(g.n(V(a[2]), V(a[3])));
	M1(gram_matrix) M2(additionnm) M2(subtractionnm) M2(matmultnm) M2(hadamard_productnm) M2(kronecker_productnm) M2(division_element_wisenvnm) M1(transposenm)
	M1(lognm) M1(log10nm) M1(expnm) M1(erfnm) M1(sqrtnm) M1(cbrtnm) M1(absnm) M1(adjointnm) M1(inversenm) M1(pinversenm) M1(sinnm) M1(cosnm) M2(maxnm) M1(covnm) M1(gram_schmidt_process)
	if (f == "scalar_multiplynm") return putm(d, g.scalar_multiplynm(a[3].d(), M(a[2])));
	if (f == "scalar_addnm") return putm(d, g.scalar_addnm(a[3].d(), M(a[2])));
	if (f == "exponentiatenm") return putm(d, g.exponentiatenm(M(a[2]), a[3].d()));
	if (f == "cofactornm") { Ref<MLPPMatrix> c = g.cofactornm(M(a[2]), a[3].i(), a[4].i(), a[5].i()); J o = J::arr(); for (int i = 0; i < a[3].i() - 1; i++) { J r = J::arr(); for (int j = 0; j < a[3].i() - 1; j++) r.add(J(c->element_get(i, j))); o.add(r); } return o; }
	if (f == "detm") return J(g.detm(M(a[2]), a[3].i()));
	if (f == "linear_independence_checker") return J(g.linear_independence_checker(M(a[2])));
	if (f == "gaussian_noise") { Ref<MLPPMatrix> m = g.gaussian_noise(a[2].i(), a[3].i()); bool ok = true; for (int i = 0; i < m->data_size(); i++) ok = ok && std::isfinite(m->ptr()[i]); return J::arr().add(J(m->size().y)).add(J(m->size().x)).add(J(ok)); }
	if (f == "zeromatnm") return putm(d, g.zeromatnm(a[2].i(), a[3].i()));
	if (f == "onematnm") return putm(d, g.onematnm(a[2].i(), a[3].i()));
	if (f == "fullnm") return putm(d, g.fullnm(a[2].i(), a[3].i(), a[4].i()));
	if (f == "identitym") return putm(d, g.identitym(a[2].i()));
	if (f == "qrd") { MLPPLinAlg::QRDResult r = g.qrd(M(a[2])); putm(d[0], r.Q); return putm(d[1], r.R); }
	if (f == "cholesky") { MLPPLinAlg::CholeskyResult r = g.cholesky(M(a[2])); if (!r.L.is_valid()) return J("null"); putm(d[0], r.L); return putm(d[1], r.Lt); }
	if (f == "flattenvvnv") return putv(d, g.flattenvvnv(M(a[2])));
	if (f == "solve") return putv(d, g.solve(M(a[2]), V(a[3])));
	if (f == "flattenmnv") { Vector<Ref<MLPPVector>> x; for (auto &s : a[2].a) x.push_back(V(s)); return putv(d, g.flattenmnv(x)); }
	V2(vector_projection) V2(hadamard_productnv) V2(division_element_wisenv) V2(additionnv) V2(subtractionnv) V2(maxnvv)
	O2(hadamard_productv) O2(additionv) O2(subtractionv)
	if (f == "scalar_multiplynv") return putv(d, g.scalar_multiplynv(a[3].d(), V(a[2])));
	if (f == "scalar_addnv") return putv(d, g.scalar_addnv(a[3].d(), V(a[2])));
	if (f == "scalar_multiplyv") { g.scalar_multiplyv(a[3].d(), V(a[2]), V(d)); return J("ok"); }
	if (f == "scalar_addv") { g.scalar_addv(a[3].d(), V(a[2]), V(d)); return J("ok"); }
	if (f == "exponentiatenv") return putv(d, g.exponentiatenv(V(a[2]), a[3].d()));
	V1(lognv) V1(log10nv) V1(expnv) V1(erfnv) V1(sqrtnv) V1(cbrtnv) V1(absv) V1(sinnv) V1(cosnv)
	if (f == "zerovecnv") return putv(d, g.zerovecnv(a[2].i()));
	if (f == "onevecnv") return putv(d, g.onevecnv(a[2].i()));
	if (f == "fullnv") return putv(d, g.fullnv(a[2].i(), a[3].i()));
	RV2(dotnv) RV(maxvr) RV(minvr) RV2(euclidean_distance) RV2(euclidean_distance_squared) RV(norm_sqv) RV(sum_elementsv)
	if (f == "mat_vec_multnv") return putv(d, g.mat_vec_multnv(M(a[2]), V(a[3])));
	if (f == "subtract_matrix_rowsnv") return putv(d, g.subtract_matrix_rowsnv(V(a[2]), M(a[3])));
	if (f == "outer_product") return putm(d, g.outer_product(V(a[2]), V(a[3])));
	if (f == "mat_vec_addnm") return putm(d, g.mat_vec_addnm(M(a[2]), V(a[3])));
	if (f == "diagnm") return putm(d, g.diagnm(V(a[2])));
	if (f == "additionnvt") return putl(d, g.additionnvt(ml(a[2]), ml(a[3])));
	if (f == "division_element_wisenvnvt") return putl(d, g.division_element_wisenvnvt(ml(a[2]), ml(a[3])));
	if (f == "maxnvt") return putl(d, g.maxnvt(ml(a[2]), ml(a[3])));
	if (f == "division_element_wisevt") { g.division_element_wisevt(ml(a[2]), ml(a[3])); return J("ok"); }
	if (f == "sqrtnvt") return putl(d, g.sqrtnvt(ml(a[2])));
	if (f == "absnvt") return putl(d, g.absnvt(ml(a[2])));
	if (f == "exponentiatenvt") return putl(d, g.exponentiatenvt(ml(a[2]), a[3].d()));
	if (f == "scalar_multiplynvt") return putl(d, g.scalar_multiplynvt(a[3].d(), ml(a[2])));
	if (f == "scalar_addnvt") return putl(d, g.scalar_addnvt(a[3].d(), ml(a[2])));
	if (f == "resizencvt" || f == "resizevt") { Vector<Ref<MLPPMatrix>> r; if (f == "resizevt") { r = ml(a[3]); g.resizevt(r, ml(a[2])); } else r = g.resizencvt(ml(a[2])); J o = J::arr(); for (int i = 0; i < r.size(); i++) { r.write[i]->fill(7); o.add(J::arr().add(J(r[i]->size().y)).add(J(r[i]->size().x))); } return o; }
	return J("?");
}
