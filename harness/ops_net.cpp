// Layers and networks.  N.new [slot, kind, X, y, hidden layers, output layer, schedule]
#include "la.h"
#include "agree.h"
#include <map>
#include <string>
#include <vector>
#include "modules/ann/ann.h"
#include "modules/auto_encoder/auto_encoder.h"
#define private public
#include "modules/mann/mann.h"
#undef private
#include "modules/mlp/mlp.h"
#include "modules/softmax_net/softmax_net.h"
typedef MLPPActivation P;
static const std::map<std::string, P::ActivationFunction> ACT = { { "linear", P::ACTIVATION_FUNCTION_LINEAR }, { "sigmoid", P::ACTIVATION_FUNCTION_SIGMOID }, { "swish", P::ACTIVATION_FUNCTION_SWISH }, { "mish", P::ACTIVATION_FUNCTION_MISH }, { "softplus", P::ACTIVATION_FUNCTION_SOFTPLUS }, { "softsign", P::ACTIVATION_FUNCTION_SOFTSIGN }, { "cloglog", P::ACTIVATION_FUNCTION_C_LOG_LOG }, { "gaussian_cdf", P::ACTIVATION_FUNCTION_GAUSSIAN_CDF }, { "relu", P::ACTIVATION_FUNCTION_RELU }, { "tanh", P::ACTIVATION_FUNCTION_TANH }, { "sinh", P::ACTIVATION_FUNCTION_SINH }, { "cosh", P::ACTIVATION_FUNCTION_COSH }, { "sech", P::ACTIVATION_FUNCTION_SECH }, { "arsinh", P::ACTIVATION_FUNCTION_ARSINH }, { "softmax", P::ACTIVATION_FUNCTION_SOFTMAX }, { "sign", P::ACTIVATION_FUNCTION_SIGN }, { "unit_step", P::ACTIVATION_FUNCTION_UNIT_STEP } };
static const std::map<std::string, MLPPCost::CostTypes> COST = { { "mse", MLPPCost::COST_TYPE_MSE }, { "rmse", MLPPCost::COST_TYPE_RMSE }, { "mae", MLPPCost::COST_TYPE_MAE }, { "mbe", MLPPCost::COST_TYPE_MBE }, { "log_loss", MLPPCost::COST_TYPE_LOGISTIC_LOSS }, { "cross_entropy", MLPPCost::COST_TYPE_CROSS_ENTROPY }, { "hinge_loss", MLPPCost::COST_TYPE_HINGE_LOSS }, { "wasserstein_loss", MLPPCost::COST_TYPE_WASSERSTEIN_LOSS } };
static const std::map<std::string, MLPPReg::RegularizationType> REG = { { "none", MLPPReg::REGULARIZATION_TYPE_NONE }, { "ridge", MLPPReg::REGULARIZATION_TYPE_RIDGE }, { "lasso", MLPPReg::REGULARIZATION_TYPE_LASSO }, { "elastic_net", MLPPReg::REGULARIZATION_TYPE_ELASTIC_NET }, { "clip", MLPPReg::REGULARIZATION_TYPE_WEIGHT_CLIPPING } };
template <class T> std::string nameof(const std::map<std::string, T> &m, T v) { for (auto &p : m) if (p.second == v) return p.first; return "?"; }
static J col(const Ref<MLPPVector> &v) { J d = J::arr(); for (int i = 0; i < v->size(); i++) d.add(J::arr().add(J(v->ptr()[i]))); return J::obj().set("r", v->size()).set("c", 1).set("d", d); }
static Ref<MLPPVector> uncol(const J &m) { Ref<MLPPVector> v; v.instance(); for (auto &x : m["d"].a) v->push_back(x[0].d()); return v; }
static const MLPPUtilities::WeightDistributionType DEF = MLPPUtilities::WEIGHT_DISTRIBUTION_TYPE_DEFAULT;
struct Ann : public MLPPANN { using MLPPANN::MLPPANN; using MLPPANN::_network; using MLPPANN::_output_layer; using MLPPANN::_y_hat; using MLPPANN::cost; using MLPPANN::forward_pass; };
struct Mlp : public MLPPMLP { using MLPPMLP::MLPPMLP; using MLPPMLP::_weights1; using MLPPMLP::_weights2; using MLPPMLP::_bias1; using MLPPMLP::_bias2; using MLPPMLP::_y_hat; using MLPPMLP::cost; using MLPPMLP::forward_pass; };
struct Snet : public MLPPSoftmaxNet { using MLPPSoftmaxNet::MLPPSoftmaxNet; using MLPPSoftmaxNet::_weights1; using MLPPSoftmaxNet::_weights2; using MLPPSoftmaxNet::_bias1; using MLPPSoftmaxNet::_bias2; using MLPPSoftmaxNet::_y_hat; using MLPPSoftmaxNet::cost; using MLPPSoftmaxNet::forward_pass; };
struct Ae : public MLPPAutoEncoder { using MLPPAutoEncoder::MLPPAutoEncoder; using MLPPAutoEncoder::_weights1; using MLPPAutoEncoder::_weights2; using MLPPAutoEncoder::_bias1; using MLPPAutoEncoder::_bias2; using MLPPAutoEncoder::_y_hat; using MLPPAutoEncoder::cost; using MLPPAutoEncoder::forward_pass; };
struct Net {
	J cfg, ls0, out0; // as declared: names of activations, regularisation
	virtual ~Net() {}
	virtual J ls() = 0; virtual J out() = 0; virtual J yh() = 0;
	virtual void set(const J &ls, const J &out) = 0;
	virtual J train(const std::string &f, double lr, int ep, int bs, const J &p) = 0;
	virtual J testv(const J &q) = 0; virtual J testm(const J &q) = 0; virtual J score() = 0; virtual J cost(const J &h, const J &y) = 0;
	J params() { return J::obj().set("ls", ls()).set("out", out()); }
	J state() { J s = cfg; return s.set("ls", ls()).set("out", out()).set("yh", yh()); }
};
template <class L> static J with(const J &d, const L &w, const J &b) { J r = d; return r.set("w", w).set("b", b); }
template <class N> struct Layered : Net { // ann and mann
	Ref<N> m;
	J ls() override { J r = J::arr(); for (int i = 0; i < m->_network.size(); i++) r.add(with(ls0[i], jm(m->_network.write[i]->get_weights()), jv(m->_network.write[i]->get_bias()))); return r; }
	void seth(const J &l) { for (int i = 0; i < m->_network.size(); i++) { m->_network.write[i]->set_weights(mkm(l[i]["w"])); m->_network.write[i]->set_bias(mkv(l[i]["b"])); } }
	void add(const J &ls, const J &o) {
		ls0 = ls; out0 = o;
		for (auto &l : ls.a) m->add_layer((int)l["b"].a.size(), ACT.at(l["f"].s), DEF, REG.at(l["reg"].s), l["lam"].d(), l["al"].d());
		m->add_output_layer(ACT.at(o["f"].s), COST.at(o["cost"].s), DEF, REG.at(o["reg"].s), o["lam"].d(), o["al"].d());
	}
};
struct AnnN : Layered<Ann> {
	J out() override { return with(out0, col(m->_output_layer->get_weights()), J::arr().add(J(m->_output_layer->get_bias()))); }
	J yh() override { return col(m->_y_hat); }
	void set(const J &l, const J &o) override { seth(l); m->_output_layer->set_weights(uncol(o["w"])); m->_output_layer->set_bias(o["b"][0].d()); m->forward_pass(); }
	J train(const std::string &f, double lr, int ep, int bs, const J &p) override {
		if (f == "gd") m->gradient_descent(lr, ep);
		else if (f == "sgd") m->sgd(lr, ep);
		else if (f == "mbgd") m->mbgd(lr, ep, bs);
		else if (f == "momentum") m->momentum(lr, ep, bs, p[0].d(), false);
		else if (f == "nag") m->momentum(lr, ep, bs, p[0].d(), true);
		else if (f == "adagrad") m->adagrad(lr, ep, bs, p[0].d());
		else if (f == "adadelta") m->adadelta(lr, ep, bs, p[0].d(), p[1].d());
		else if (f == "adam") m->adam(lr, ep, bs, p[0].d(), p[1].d(), p[2].d());
		else if (f == "adamax") m->adamax(lr, ep, bs, p[0].d(), p[1].d(), p[2].d());
		else if (f == "nadam") m->nadam(lr, ep, bs, p[0].d(), p[1].d(), p[2].d());
		else if (f == "amsgrad") m->amsgrad(lr, ep, bs, p[0].d(), p[1].d(), p[2].d());
		else return "?";
		return "ok";
	}
	J testv(const J &q) override { return J(m->model_test(V(q))); }
	J testm(const J &q) override { return jv(m->model_set_test(M(q))); }
	J score() override { return J(m->score()); }
	J cost(const J &h, const J &y) override { return J(m->cost(uncol(h), uncol(y))); }
};
struct MannN : Layered<MLPPMANN> {
	J out() override { return with(out0, jm(m->_output_layer->get_weights()), jv(m->_output_layer->get_bias())); }
	J yh() override { return jm(m->_y_hat); }
	void set(const J &l, const J &o) override { seth(l); m->_output_layer->set_weights(mkm(o["w"])); m->_output_layer->set_bias(mkv(o["b"])); m->forward_pass(); }
	J train(const std::string &f, double lr, int ep, int, const J &) override { if (f != "gd") return "?"; m->gradient_descent(lr, ep); return "ok"; }
	J testv(const J &q) override { return jv(m->model_test(V(q))); }
	J testm(const J &q) override { return jm(m->model_set_test(M(q))); }
	J score() override { return J(m->score()); }
	J cost(const J &h, const J &y) override { return J(m->cost(mkm(h), mkm(y))); }
};
static J w2(Mlp *m) { return col(m->_weights2); } static J b2(Mlp *m) { return J::arr().add(J(m->_bias2)); } static J yhat(Mlp *m) { return col(m->_y_hat); }
static void set2(Mlp *m, const J &o) { m->_weights2 = uncol(o["w"]); m->_bias2 = o["b"][0].d(); }
template <class N> J w2(N *m) { return jm(m->_weights2); } template <class N> J b2(N *m) { return jv(m->_bias2); } template <class N> J yhat(N *m) { return jm(m->_y_hat); }
template <class N> void set2(N *m, const J &o) { m->_weights2 = mkm(o["w"]); m->_bias2 = mkv(o["b"]); }
static J ra(double x) { return J(x); } static J ra(const Ref<MLPPVector> &v) { return jv(v); } static J ra(const Ref<MLPPMatrix> &v) { return jm(v); }
static J cost2(Mlp *m, const J &h, const J &y) { return J(m->cost(uncol(h), uncol(y))); }
template <class N> J cost2(N *m, const J &h, const J &y) { return J(m->cost(mkm(h), mkm(y))); }
template <class N> void go(N *m, const std::string &f, double lr, int ep, int bs) { if (f == "gd") m->gradient_descent(lr, ep); else if (f == "sgd") m->sgd(lr, ep); else m->mbgd(lr, ep, bs); }
static void go(Snet *m, const std::string &f, double lr, int ep, int bs) { if (f == "gd") m->train_gradient_descent(lr, ep); else if (f == "sgd") m->train_sgd(lr, ep); else m->train_mbgd(lr, ep, bs); }
template <class N> struct Two : Net { // one hidden layer
	Ref<N> m;
	J ls() override { return J::arr().add(with(ls0[0], jm(m->_weights1), jv(m->_bias1))); }
	J out() override { return with(out0, w2(m.ptr()), b2(m.ptr())); }
	J yh() override { return yhat(m.ptr()); }
	void set(const J &l, const J &o) override { m->_weights1 = mkm(l[0]["w"]); m->_bias1 = mkv(l[0]["b"]); set2(m.ptr(), o); m->forward_pass(); }
	J train(const std::string &f, double lr, int ep, int bs, const J &) override { go(m.ptr(), f, lr, ep, bs); return "ok"; }
	J testv(const J &q) override { return ra(m->model_test(V(q))); }
	J testm(const J &q) override { return ra(m->model_set_test(M(q))); }
	J score() override { return J(m->score()); }
	J cost(const J &h, const J &y) override { return cost2(m.ptr(), h, y); }
};
// single layers
struct Lay {
	J X, n; virtual ~Lay() {}
	virtual J state() = 0; virtual void setp(const std::string &p, const J &v) = 0; virtual void fwd() = 0; virtual void one(const J &q) = 0; virtual void init() = 0;
};
template <class L> struct LayT : Lay {
	Ref<L> m; std::string kind;
	static J jb(const Ref<MLPPVector> &v) { return jv(v); } static J jb(double x) { return J(x); }
	static J jx(const Ref<MLPPMatrix> &v) { return jm(v); } static J jx(const Ref<MLPPVector> &v) { return jv(v); } static J jx(double x) { return J(x); }
	bool inited(MLPPMultiOutputLayer *) { return ready; } template <class Q> bool inited(Q *q) { return q->is_initialized(); }
	bool ready = true;
	static J jn(MLPPMultiOutputLayer *q) { return J::arr().add(J(q->get_n_hidden())).add(J(q->get_n_output())); } template <class Q> static J jn(Q *q) { return J::arr().add(J(q->get_n_hidden())); }
	J state() override {
		return J::obj().set("kind", kind).set("X", X).set("n", jn(m.ptr())).set("set", J(inited(m.ptr()))).set("w", jx(m->get_weights())).set("b", jb(m->get_bias())).set("f", nameof(ACT, m->get_activation()))
			.set("z", jx(m->get_z())).set("a", jx(m->get_a())).set("zt", jx(m->get_z_test())).set("at", jx(m->get_a_test())).set("reg", nameof(REG, m->get_reg())).set("lam", m->get_lambda()).set("al", m->get_alpha());
	}
	static void sw(MLPPOutputLayer *l, const J &v) { l->set_weights(mkv(v)); } template <class Q> static void sw(Q *l, const J &v) { l->set_weights(mkm(v)); }
	static void sb(MLPPOutputLayer *l, const J &v) { l->set_bias(v.d()); } template <class Q> static void sb(Q *l, const J &v) { l->set_bias(mkv(v)); }
	static void ini(MLPPMultiOutputLayer *) {} template <class Q> static void ini(Q *q) { q->initialize(); }
	void setp(const std::string &p, const J &v) override {
		if (p == "X") { m->set_input(M(v)); X = v; } else if (p == "f") m->set_activation(ACT.at(v.s)); else if (p == "w") sw(m.ptr(), v); else if (p == "b") sb(m.ptr(), v);
		else if (p == "n") m->set_n_hidden(v[0].i()); else if (p == "W") m->set_weight_init((MLPPUtilities::WeightDistributionType)v.i());
		else if (p == "lam") m->set_lambda(v.d()); else if (p == "al") m->set_alpha(v.d()); else m->set_reg(REG.at(v.s));
	}
	void fwd() override { m->forward_pass(); }
	void one(const J &q) override { m->test(V(q)); }
	void init() override { ini(m.ptr()); }
};
static std::map<std::string, std::unique_ptr<Net>> NS;
static std::map<std::string, std::unique_ptr<Lay>> LY;
void dom_reset() { NS.clear(); LY.clear(); VS.clear(); MS.clear(); TS.clear(); }
J dom_state() {
	J s = J::obj();
	for (auto &p : VS) s.set(p.first, jv(p.second));
	for (auto &p : MS) s.set(p.first, jm(p.second));
	for (auto &p : NS) s.set(p.first, p.second->state());
	for (auto &p : LY) s.set(p.first, p.second->state());
	return s;
}
OP("N.new") {
	std::string k = a[1].s; Net *n; const J &l = a[4], &o = a[5], &sc = a[6];
	bool via = a.size() > 7 && a[7].s == "set"; // configured through setters
	auto r1 = [&] { return REG.at(o["reg"].s); }; int h = l.a.empty() ? 0 : l[0]["b"].a.size();
	if (k == "ann") {
		AnnN *q = new AnnN(); n = q; q->m = Ref<Ann>(memnew(Ann(M(a[2]), V(a[3])))); q->add(l, o);
		std::string t = sc["t"].s;
		if (t == "step") q->m->set_learning_rate_scheduler_drop(MLPPANN::SCHEDULER_TYPE_STEP, sc["d"].d(), sc["drop"].d());
		else if (t != "none") q->m->set_learning_rate_scheduler(t == "time" ? MLPPANN::SCHEDULER_TYPE_TIME : t == "epoch" ? MLPPANN::SCHEDULER_TYPE_EPOCH : MLPPANN::SCHEDULER_TYPE_EXPONENTIAL, sc["d"].d());
	} else if (k == "mann") { MannN *q = new MannN(); n = q; q->m = Ref<MLPPMANN>(memnew(MLPPMANN(M(a[2]), M(a[3])))); q->add(l, o); }
	else if (k == "mlp" && via) {
		auto *q = new Two<Mlp>(); n = q; q->m = Ref<Mlp>(memnew(Mlp())); auto &m = q->m;
		m->set_alpha(o["al"].d()); m->set_output_set(V(a[3])); m->set_n_hidden(h); m->set_reg(r1()); m->set_input_set(M(a[2])); m->set_lambda(o["lam"].d());
		bool b = m->is_initialized(); m->initialize();
		if (b || !m->is_initialized() || m->get_input_set() != M(a[2]) || m->get_output_set() != V(a[3]) || m->get_n_hidden() != h || m->get_reg() != r1() || m->get_lambda() != real_t(o["lam"].d()) || m->get_alpha() != real_t(o["al"].d())) { delete q; return "setters"; }
	} else if (k == "snet" && via) {
		auto *q = new Two<Snet>(); n = q; q->m = Ref<Snet>(memnew(Snet())); auto &m = q->m;
		m->set_alpha(o["al"].d()); m->set_output_set(M(a[3])); m->set_n_hidden(h); m->set_reg(r1()); m->set_input_set(M(a[2])); m->set_lambda(o["lam"].d());
		bool b = m->needs_init(); m->initialize();
		if (!b || m->needs_init() || m->get_input_set() != M(a[2]) || m->get_output_set() != M(a[3]) || m->get_n_hidden() != h || m->get_reg() != r1() || m->get_lambda() != real_t(o["lam"].d()) || m->get_alpha() != real_t(o["al"].d())) { delete q; return "setters"; }
	} else if (k == "mlp") { auto *q = new Two<Mlp>(); n = q; q->m = Ref<Mlp>(memnew(Mlp(M(a[2]), V(a[3]), h, r1(), o["lam"].d(), o["al"].d()))); }
	else if (k == "snet") { auto *q = new Two<Snet>(); n = q; q->m = Ref<Snet>(memnew(Snet(M(a[2]), M(a[3]), h, r1(), o["lam"].d(), o["al"].d()))); }
	else { auto *q = new Two<Ae>(); n = q; q->m = Ref<Ae>(memnew(Ae(M(a[2]), h))); }
	n->ls0 = l; n->out0 = o; n->cfg = J::obj().set("kind", k).set("X", a[2]).set("y", a[3]).set("sch", sc);
	NS[a[0].s].reset(n); n->set(l, o);
	return "ok";
}
OP("N.train") { return NS[a[0].s]->train(a[1].s, a[2].d(), a[3].i(), a[4].i(), a[5]); }
OP("N.sgdcov") {
	Net *l = NS[a[0].s].get(); J p = l->params(), r = J::arr();
	for (int i = 0; i < a[2].i(); i++) { l->train("sgd", a[1].d(), 1, 1, J()); r.add(l->params()); l->set(p["ls"], p["out"]); }
	return r;
}
OP("N.test") { return a[1].s == "v" ? NS[a[0].s]->testv(a[2]) : NS[a[0].s]->testm(a[2]); }
OP("N.score") { return NS[a[0].s]->score(); }
OP("N.cost") { return NS[a[0].s]->cost(a[1], a[2]); }
// N.layer [slot, kind, X, [n...], f, reg, lam, al, "ctor"|"plain"]
template <class L> void common(Ref<L> &m, const J &a) { m->set_activation(ACT.at(a[4].s)); m->set_input(M(a[2])); m->set_reg(REG.at(a[5].s)); m->set_lambda(a[6].d()); m->set_alpha(a[7].d()); m->set_weight_init(DEF); }
OP("N.layer") {
	std::string k = a[1].s; bool ct = a[8].s == "ctor"; Lay *y; int n0 = a[3][0].i();
	auto F = ACT.at(a[4].s); auto R = REG.at(a[5].s);
	if (k == "hidden") { auto *l = new LayT<MLPPHiddenLayer>(); y = l; l->kind = k;
		if (ct) l->m = Ref<MLPPHiddenLayer>(memnew(MLPPHiddenLayer(n0, F, M(a[2]), DEF, R, a[6].d(), a[7].d()))); else { l->m.instance(); l->m->set_n_hidden(n0); common(l->m, a); } }
	else if (k == "output") { auto *l = new LayT<MLPPOutputLayer>(); y = l; l->kind = k;
		if (ct) l->m = Ref<MLPPOutputLayer>(memnew(MLPPOutputLayer(n0, F, MLPPCost::COST_TYPE_MSE, M(a[2]), DEF, R, a[6].d(), a[7].d()))); else { l->m.instance(); l->m->set_n_hidden(n0); l->m->set_cost(MLPPCost::COST_TYPE_MSE); common(l->m, a); } }
	else { auto *l = new LayT<MLPPMultiOutputLayer>(); y = l; l->kind = k; l->m = Ref<MLPPMultiOutputLayer>(memnew(MLPPMultiOutputLayer(a[3][1].i(), n0, F, MLPPCost::COST_TYPE_MSE, M(a[2]), DEF, R, a[6].d(), a[7].d()))); }
	y->X = a[2]; y->n = a[3]; LY[a[0].s].reset(y);
	return "ok";
}
OP("N.set") { LY[a[0].s]->setp(a[1].s, a[2]); return "ok"; }
OP("N.init") { LY[a[0].s]->init(); return "ok"; }
OP("N.forward") { LY[a[0].s]->fwd(); return "ok"; }
OP("N.one") { LY[a[0].s]->one(a[1]); return "ok"; }
OP("E.agree") { return agree(NS[a[0].s].get(), a[1], false); }
OP("E.score") { return scored(NS[a[0].s].get(), a[1]); }
