// MLPPActivation: event A [via, function, derivative?, kind, argument, destination, parameters]
#include "la.h"
#include "core/activation.h"
typedef MLPPActivation P;
struct Fn { real_t (P::*r[2])(real_t); Ref<MLPPVector> (P::*v[2])(const Ref<MLPPVector> &); Ref<MLPPMatrix> (P::*m[2])(const Ref<MLPPMatrix> &); P::ActivationFunction e; };
#define F(n, E) { #n, { { &P::n##_normr, &P::n##_derivr }, { &P::n##_normv, &P::n##_derivv }, { &P::n##_normm, &P::n##_derivm }, P::ACTIVATION_FUNCTION_##E } }
static const std::map<std::string, Fn> FN = {
	F(linear, LINEAR), F(sigmoid, SIGMOID), F(swish, SWISH), F(mish, MISH), F(sinc, SIN_C), F(softmax, SOFTMAX), F(softplus, SOFTPLUS), F(softsign, SOFTSIGN), F(adj_softmax, ADJ_SOFTMAX),
	F(cloglog, C_LOG_LOG), F(logit, LOGIT), F(gaussian_cdf, GAUSSIAN_CDF), F(relu, RELU), F(gelu, GELU), F(sign, SIGN), F(unit_step, UNIT_STEP), F(sinh, SINH), F(cosh, COSH), F(tanh, TANH),
	F(csch, CSCH), F(sech, SECH), F(coth, COTH), F(arsinh, ARSINH), F(arcosh, ARCOSH), F(artanh, ARTANH), F(arcsch, ARCSCH), F(arsech, ARSECH), F(arcoth, ARCOTH) };
OP("A") {
	std::string via = a[0].s; bool d = a[2].b; char k = a[3].s.empty() ? 0 : a[3].s[0];
	P g;
	if (via == "jacobian") return put(MS, a[5], d ? g.softmax_deriv_derivv(V(a[4])) : g.softmax_deriv_normv(V(a[4])));
	if (via == "jacobians") { Vector<Ref<MLPPMatrix>> r = d ? g.softmax_deriv_derivm(M(a[4])) : g.softmax_deriv_normm(M(a[4])); J o = J::arr(); for (int i = 0; i < r.size(); i++) o.add(jm(r[i])); return o; }
	if (via == "param") {
		real_t p = a[6][0].d(), q = a[6][1].d();
#define PF(n, ...) if (a[1].s == #n) { if (k == 'r') return J(d ? g.n##_derivr(a[4].d(), __VA_ARGS__) : g.n##_normr(a[4].d(), __VA_ARGS__)); \
	if (k == 'v') return put(VS, a[5], d ? g.n##_derivv(V(a[4]), __VA_ARGS__) : g.n##_normv(V(a[4]), __VA_ARGS__)); return put(MS, a[5], d ? g.n##_derivm(M(a[4]), __VA_ARGS__) : g.n##_normm(M(a[4]), __VA_ARGS__)); }
		PF(leaky_relu, p) PF(elu, p) PF(selu, p, q)
		return J("?");
	}
	const Fn &f = FN.at(a[1].s);
	if (k == 'r') {
		real_t x = a[4].d();
		if (via == "direct") return J((g.*f.r[d])(x));
		if (via == "run") return J(d ? g.run_activation_deriv_real(f.e, x) : g.run_activation_norm_real(f.e, x));
		if (via == "rund") return J(g.run_activation_real(f.e, x, d));
		if (via == "ptr") return J((g.*(d ? g.get_activation_function_ptr_deriv_real(f.e) : g.get_activation_function_ptr_normal_real(f.e)))(x));
		return J((g.*g.get_activation_function_ptr_real(f.e, d))(x));
	}
	if (k == 'v') {
		Ref<MLPPVector> x = V(a[4]);
		if (via == "direct") return put(VS, a[5], (g.*f.v[d])(x));
		if (via == "run") return put(VS, a[5], d ? g.run_activation_deriv_vector(f.e, x) : g.run_activation_norm_vector(f.e, x));
		if (via == "rund") return put(VS, a[5], g.run_activation_vector(f.e, x, d));
		if (via == "ptr") return put(VS, a[5], (g.*(d ? g.get_activation_function_ptr_deriv_vector(f.e) : g.get_activation_function_ptr_normal_vector(f.e)))(x));
		return put(VS, a[5], (g.*g.get_activation_function_ptr_vector(f.e, d))(x));
	}
	Ref<MLPPMatrix> x = M(a[4]);
	if (via == "direct") return put(MS, a[5], (g.*f.m[d])(x));
	if (via == "run") return put(MS, a[5], d ? g.run_activation_deriv_matrix(f.e, x) : g.run_activation_norm_matrix(f.e, x));
	if (via == "rund") return put(MS, a[5], g.run_activation_matrix(f.e, x, d));
	if (via == "ptr") return put(MS, a[5], (g.*(d ? g.get_activation_function_ptr_deriv_matrix(f.e) : g.get_activation_function_ptr_normal_matrix(f.e)))(x));
	return put(MS, a[5], (g.*g.get_activation_function_ptr_matrix(f.e, d))(x));
}
