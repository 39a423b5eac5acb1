// MLPPCost, MLPPReg
#include "la.h"
#include "core/cost.h"
#include "core/reg.h"
typedef MLPPCost P;
OP("C") {
	std::string via = a[0].s, f = a[1].s; bool d = a[2].b, v = a[3].s == "v"; P g;
	if (f == "huber_loss") {
		real_t k = a[7].d();
		if (v) return d ? put(VS, a[6], g.huber_loss_derivv(V(a[4]), V(a[5]), k)) : J(g.huber_lossv(V(a[4]), V(a[5]), k));
		return d ? put(MS, a[6], g.huber_loss_derivm(M(a[4]), M(a[5]), k)) : J(g.huber_lossm(M(a[4]), M(a[5]), k));
	}
	if (f == "hinge_lossw") {
		real_t k = a[7].d();
		if (v) return d ? put(VS, a[6], g.hinge_loss_derivwv(V(a[4]), V(a[5]), k)) : J(g.hinge_losswv(V(a[4]), V(a[5]), V(a[6]), k));
		return d ? put(MS, a[6], g.hinge_loss_derivwm(M(a[4]), M(a[5]), k)) : J(g.hinge_losswm(M(a[4]), M(a[5]), M(a[6]), k));
	}
	struct F { real_t (P::*v)(const Ref<MLPPVector> &, const Ref<MLPPVector> &); real_t (P::*m)(const Ref<MLPPMatrix> &, const Ref<MLPPMatrix> &);
		Ref<MLPPVector> (P::*dv)(const Ref<MLPPVector> &, const Ref<MLPPVector> &); Ref<MLPPMatrix> (P::*dm)(const Ref<MLPPMatrix> &, const Ref<MLPPMatrix> &); P::CostTypes e; };
#define C(n, E) { #n, { &P::n##v, &P::n##m, &P::n##_derivv, &P::n##_derivm, P::COST_TYPE_##E } }
	static const std::map<std::string, F> FN = { C(mse, MSE), C(rmse, RMSE), C(mae, MAE), C(mbe, MBE), C(log_loss, LOGISTIC_LOSS), C(cross_entropy, CROSS_ENTROPY), C(hinge_loss, HINGE_LOSS), C(wasserstein_loss, WASSERSTEIN_LOSS) };
	const F &q = FN.at(f);
	if (v) {
		Ref<MLPPVector> h = V(a[4]), y = V(a[5]);
		if (!d) return via == "direct" ? J((g.*q.v)(h, y)) : via == "run" ? J(g.run_cost_norm_vector(q.e, h, y)) : J((g.*g.get_cost_function_ptr_normal_vector(q.e))(h, y));
		return put(VS, a[6], via == "direct" ? (g.*q.dv)(h, y) : via == "run" ? g.run_cost_deriv_vector(q.e, h, y) : (g.*g.get_cost_function_ptr_deriv_vector(q.e))(h, y));
	}
	Ref<MLPPMatrix> h = M(a[4]), y = M(a[5]);
	if (!d) return via == "direct" ? J((g.*q.m)(h, y)) : via == "run" ? J(g.run_cost_norm_matrix(q.e, h, y)) : J((g.*g.get_cost_function_ptr_normal_matrix(q.e))(h, y));
	return put(MS, a[6], via == "direct" ? (g.*q.dm)(h, y) : via == "run" ? g.run_cost_deriv_matrix(q.e, h, y) : (g.*g.get_cost_function_ptr_deriv_matrix(q.e))(h, y));
}
OP("C.dual") { P g; return a[3].s.empty() ? J(g.dual_form_svm(V(a[0]), M(a[1]), V(a[2]))) : put(VS, a[3], g.dual_form_svm_deriv(V(a[0]), M(a[1]), V(a[2]))); }
OP("G") {
	static const std::map<std::string, MLPPReg::RegularizationType> T = { { "none", MLPPReg::REGULARIZATION_TYPE_NONE }, { "ridge", MLPPReg::REGULARIZATION_TYPE_RIDGE }, { "lasso", MLPPReg::REGULARIZATION_TYPE_LASSO }, { "elastic_net", MLPPReg::REGULARIZATION_TYPE_ELASTIC_NET }, { "clip", MLPPReg::REGULARIZATION_TYPE_WEIGHT_CLIPPING } };
	MLPPReg g; auto t = T.at(a[3].s); real_t l = a[4].d(), al = a[5].d(); bool v = a[1].s == "v"; std::string f = a[0].s;
	if (f == "term") return J(v ? g.reg_termv(V(a[2]), l, al, t) : g.reg_termm(M(a[2]), l, al, t));
	if (v) return put(VS, a[6], f == "deriv" ? g.reg_deriv_termv(V(a[2]), l, al, t) : g.reg_weightsv(V(a[2]), l, al, t));
	return put(MS, a[6], f == "deriv" ? g.reg_deriv_termm(M(a[2]), l, al, t) : g.reg_weightsm(M(a[2]), l, al, t));
}
