// MLPPNumericalAnalysis and MLPPTransforms: event N [function, destination, precision, polynomial, arguments...]
#include "la.h"
#include "core/numerical_analysis.h"
#include "core/transforms.h"
struct Term { double k; std::vector<int> e; };
static std::vector<Term> P; static std::vector<double> CT;
static real_t ev(const real_t *x, int n) {
	real_t s = 0;
	for (auto &t : P) { real_t m = t.k; for (int j = 0; j < n; j++) for (int q = 0; q < t.e[j]; q++) m *= x[j] - (real_t)CT[j]; s += m; }
	return s;
}
static real_t f1(real_t x) { return ev(&x, 1); }
static real_t fv(const Ref<MLPPVector> &v) { if (v->size() != (int)CT.size()) return 1e9; return ev(v->ptr(), v->size()); }
OP("N") {
	std::string f = a[0].s; Ref<MLPPNumericalAnalysis> n; n.instance();
	P.clear(); CT.clear();
	for (auto &x : a[3]["c"].a) CT.push_back(x.d());
	for (auto &x : a[3]["t"].a) { Term t; t.k = x["k"].d(); for (auto &y : x["e"].a) t.e.push_back(y.i()); P.push_back(t); }
#define AR(k_) a[3 + k_].d()
#define IN_(k_) a[3 + k_].i()
#define XV(k_) V(a[3 + k_])
#define R1(m) if (f == #m) return J(n->m(f1, AR(1)));
#define R2(m) if (f == #m) return J(n->m(f1, AR(1), AR(2)));
	R1(num_diffr) R1(num_diff_2r) R1(num_diff_3r) R1(constant_approximationr) R2(linear_approximationr) R2(quadratic_approximationr) R2(cubic_approximationr) R2(newton_raphson_method) R2(halley_method)
	if (f == "inv_quadratic_interpolation") return J(n->inv_quadratic_interpolation(f1, XV(1), IN_(2)));
	if (f == "eulerian_methodr") return J(n->eulerian_methodr(f1, AR(1), AR(2), AR(3), AR(4)));
	if (f == "eulerian_methodv") return J(n->eulerian_methodv(fv, AR(1), AR(2), AR(3), AR(4)));
	if (f == "growth_method") return J(n->growth_method(AR(1), AR(2), AR(3)));
	if (f == "num_diffv") return J(n->num_diffv(fv, XV(1), IN_(2)));
	if (f == "num_diff_2v") return J(n->num_diff_2v(fv, XV(1), IN_(2), IN_(3)));
	if (f == "num_diff_3v") return J(n->num_diff_3v(fv, XV(1), IN_(2), IN_(3), IN_(4)));
	if (f == "jacobian") return put(VS, a[1], n->jacobian(fv, XV(1)));
	if (f == "hessian") return put(MS, a[1], n->hessian(fv, XV(1)));
	if (f == "third_order_tensor") return put(TS, a[1], n->third_order_tensor(fv, XV(1)));
	if (f == "third_order_tensorvt") { Vector<Ref<MLPPMatrix>> v = n->third_order_tensorvt(fv, XV(1)); if (v.size() != a[1].size()) return J("size"); J r; for (int i = 0; i < v.size(); i++) { r = put(MS, a[1][i], v[i]); if (r.s != "ok") return r; } return r; }
	if (f == "constant_approximationv") return J(n->constant_approximationv(fv, XV(1)));
	if (f == "linear_approximationv") return J(n->linear_approximationv(fv, XV(1), XV(2)));
	if (f == "quadratic_approximationv") return J(n->quadratic_approximationv(fv, XV(1), XV(2)));
	if (f == "cubic_approximationv") return J(n->cubic_approximationv(fv, XV(1), XV(2)));
	if (f == "laplacian") return J(n->laplacian(fv, XV(1)));
	if (f == "second_partial_derivative_test") return jstr(n->second_partial_derivative_test(fv, XV(1)));
	if (f == "dct") { MLPPTransforms t; return put(MS, a[1], t.discrete_cosine_transform(M(a[4]))); }
	return J("?");
}
