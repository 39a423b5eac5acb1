// Single-layer learners.  L.new [slot, kind, X, y, reg, lambda, alpha, w, b, a]
#include "la.h"
#include "agree.h"
#include "modules/c_log_log_reg/c_log_log_reg.h"
#include "modules/dual_svc/dual_svc.h"
#include "modules/exp_reg/exp_reg.h"
#include "modules/lin_reg/lin_reg.h"
#include "modules/log_reg/log_reg.h"
#include "modules/probit_reg/probit_reg.h"
#include "modules/softmax_reg/softmax_reg.h"
#include "modules/svc/svc.h"
#include "modules/tanh_reg/tanh_reg.h"
static MLPPReg::RegularizationType regt(const std::string &s) {
	if (s == "ridge") return MLPPReg::REGULARIZATION_TYPE_RIDGE;
	if (s == "lasso") return MLPPReg::REGULARIZATION_TYPE_LASSO;
	if (s == "elastic_net") return MLPPReg::REGULARIZATION_TYPE_ELASTIC_NET;
	if (s == "clip") return MLPPReg::REGULARIZATION_TYPE_WEIGHT_CLIPPING;
	return MLPPReg::REGULARIZATION_TYPE_NONE;
}
struct Learner {
	J cfg; // kind, X, y, reg, lam, al
	virtual ~Learner() {}
	virtual J w() = 0; virtual J b() = 0; virtual J a() { return J("none"); } virtual J yh() = 0;
	virtual void set(const J &w, const J &b, const J &a) = 0;
	virtual J train(const std::string &f, double lr, int ep, int bs, const J &p) = 0;
	virtual J testv(const J &x) = 0;
	virtual J testm(const J &x) = 0;
	virtual J score() = 0;
	virtual J cost(const J &h, const J &y) = 0;
	J params() { return J::obj().set("w", w()).set("b", b()).set("a", a()); }
	J state() { J s = cfg; return s.set("w", w()).set("b", b()).set("a", a()).set("yh", yh()); }
};
static std::map<std::string, std::unique_ptr<Learner>> LS;
void dom_reset() { LS.clear(); VS.clear(); MS.clear(); TS.clear(); }
J dom_state() {
	J s = J::obj();
	for (auto &p : VS) s.set(p.first, jv(p.second));
	for (auto &p : MS) s.set(p.first, jm(p.second));
	for (auto &p : LS) s.set(p.first, p.second->state());
	return s;
}
#define SUB(S, B) struct S : public B { using B::B; using B::_weights; using B::_y_hat; using B::cost; using B::forward_pass;
SUB(Lin, MLPPLinReg) using MLPPLinReg::_bias; real_t &bi() { return _bias; } };
SUB(Log, MLPPLogReg) using MLPPLogReg::_bias; real_t &bi() { return _bias; } };
SUB(Probit, MLPPProbitReg) using MLPPProbitReg::_bias; real_t &bi() { return _bias; } };
SUB(CLog, MLPPCLogLogReg) using MLPPCLogLogReg::bias; real_t &bi() { return bias; } };
SUB(Tanh, MLPPTanhReg) using MLPPTanhReg::_bias; real_t &bi() { return _bias; } };
SUB(Exp, MLPPExpReg) using MLPPExpReg::_bias; using MLPPExpReg::_initial; real_t &bi() { return _bias; } };
SUB(Soft, MLPPSoftmaxReg) using MLPPSoftmaxReg::_bias; };
SUB(Svc, MLPPSVC) using MLPPSVC::_bias; real_t &bi() { return _bias; } };
struct Dual : public MLPPDualSVC { using MLPPDualSVC::MLPPDualSVC; using MLPPDualSVC::_alpha; using MLPPDualSVC::_bias; using MLPPDualSVC::_y_hat; using MLPPDualSVC::cost; using MLPPDualSVC::forward_pass; };

static std::string train1(Lin *m, const std::string &f, double lr, int ep, int bs, const J &p) {
	if (f == "gd") m->gradient_descent(lr, ep);
	else if (f == "sgd") m->sgd(lr, ep);
	else if (f == "mbgd") m->mbgd(lr, ep, bs);
	else if (f == "momentum") m->momentum(lr, ep, bs, p[0].d());
	else if (f == "nag") m->nag(lr, ep, bs, p[0].d());
	else if (f == "adagrad") m->adagrad(lr, ep, bs, p[0].d());
	else if (f == "adadelta") m->adadelta(lr, ep, bs, p[0].d(), p[1].d());
	else if (f == "adam") m->adam(lr, ep, bs, p[0].d(), p[1].d(), p[2].d());
	else if (f == "adamax") m->adamax(lr, ep, bs, p[0].d(), p[1].d(), p[2].d());
	else if (f == "nadam") m->nadam(lr, ep, bs, p[0].d(), p[1].d(), p[2].d());
	else if (f == "newton") m->newton_raphson(lr, ep);
	else if (f == "normal") m->normal_equation();
	else return "?";
	return "ok";
}
#define T4(S) static std::string train1(S *m, const std::string &f, double lr, int ep, int bs, const J &p) { \
	if (f == "gd") m->gradient_descent(lr, ep); else if (f == "mle") m->mle(lr, ep); else if (f == "sgd") m->sgd(lr, ep); else if (f == "mbgd") m->mbgd(lr, ep, bs); else return "?"; return "ok"; }
#define T3(S) static std::string train1(S *m, const std::string &f, double lr, int ep, int bs, const J &p) { \
	if (f == "gd") m->gradient_descent(lr, ep); else if (f == "sgd") m->sgd(lr, ep); else if (f == "mbgd") m->mbgd(lr, ep, bs); else return "?"; return "ok"; }
#define T3t(S) static std::string train1(S *m, const std::string &f, double lr, int ep, int bs, const J &p) { \
	if (f == "gd") m->train_gradient_descent(lr, ep); else if (f == "sgd") m->train_sgd(lr, ep); else if (f == "mbgd") m->train_mbgd(lr, ep, bs); else return "?"; return "ok"; }
T4(Log) T4(CLog) T3(Exp) T3t(Tanh) T3t(Svc) T3t(Soft)
static std::string train1(Probit *m, const std::string &f, double lr, int ep, int bs, const J &p) {
	if (f == "gd") m->train_gradient_descent(lr, ep); else if (f == "mle") m->train_mle(lr, ep); else if (f == "sgd") m->train_sgd(lr, ep); else if (f == "mbgd") m->train_mbgd(lr, ep, bs); else return "?"; return "ok"; }
template <class S> double cost1(S *m, const Ref<MLPPVector> &h, const Ref<MLPPVector> &y) { return m->cost(h, y); }
static double cost1(Svc *m, const Ref<MLPPVector> &h, const Ref<MLPPVector> &y) { return m->cost(h, y, m->_weights, m->get_c()); }
template <class S> J aof(S *) { return J("none"); }
static J aof(Exp *m) { return jv(m->_initial); }
template <class S> void aset(S *, const J &) {}
static void aset(Exp *m, const J &a) { m->_initial = mkv(a); }

template <class S> struct Glm : Learner {
	Ref<S> m;
	J w() override { return jv(m->_weights); }
	J b() override { return J(m->bi()); }
	J a() override { return aof(m.ptr()); }
	J yh() override { return jv(m->_y_hat); }
	void set(const J &w, const J &b, const J &a) override { m->_weights = mkv(w); m->bi() = b.d(); aset(m.ptr(), a); m->forward_pass(); }
	J train(const std::string &f, double lr, int ep, int bs, const J &p) override { return J(train1(m.ptr(), f, lr, ep, bs, p)); }
	J testv(const J &x) override { return J(m->model_test(V(x))); }
	J testm(const J &x) override { return jv(m->model_set_test(M(x))); }
	J score() override { return J(m->score()); }
	J cost(const J &h, const J &y) override { return J(cost1(m.ptr(), mkv(h), mkv(y))); }
};
struct SoftL : Learner {
	Ref<Soft> m;
	J w() override { return jm(m->_weights); }
	J b() override { return jv(m->_bias); }
	J yh() override { return jm(m->_y_hat); }
	void set(const J &w, const J &b, const J &) override { m->_weights = mkm(w); m->_bias = mkv(b); m->forward_pass(); }
	J train(const std::string &f, double lr, int ep, int bs, const J &p) override { return J(train1(m.ptr(), f, lr, ep, bs, p)); }
	J testv(const J &x) override { return jv(m->model_test(V(x))); }
	J testm(const J &x) override { return jm(m->model_set_test(M(x))); }
	J score() override { return J(m->score()); }
	J cost(const J &h, const J &y) override { return J(m->cost(mkm(h), mkm(y))); }
};
struct DualL : Learner {
	Ref<Dual> m;
	J w() override { return J("none"); }
	J b() override { return J(m->_bias); }
	J a() override { return jv(m->_alpha); }
	J yh() override { return jv(m->_y_hat); }
	void set(const J &, const J &b, const J &a) override { m->_alpha = mkv(a); m->_bias = b.d(); m->forward_pass(); }
	J train(const std::string &f, double lr, int ep, int, const J &) override { m->gradient_descent(lr, ep); return J("ok"); }
	J testv(const J &x) override { return J(m->model_test(V(x))); }
	J testm(const J &x) override { return jv(m->model_set_test(M(x))); }
	J score() override { return J(m->score()); }
	J cost(const J &h, const J &y) override { return J(0); }
};
template <class S> Learner *mk(const J &a) { Glm<S> *g = new Glm<S>(); g->m = Ref<S>(memnew(S(M(a[2]), V(a[3]), regt(a[4].s), a[5].d(), a[6].d()))); return g; }
// configured through its setters instead of its constructor (order of the calls: X, y last)
template <class S> Ref<S> bare(const J &a) { Ref<S> m(memnew(S())); m->set_alpha(a[6].d()); m->set_lambda(a[5].d()); m->set_reg(regt(a[4].s)); m->set_output_set(V(a[3])); m->set_input_set(M(a[2])); return m; }
template <class S> Learner *mkset(const J &a) {
	Glm<S> *g = new Glm<S>(); g->m = bare<S>(a); bool ok = g->m->needs_init(); g->m->initialize();
	if (!ok || g->m->needs_init() || g->m->get_input_set() != M(a[2]) || g->m->get_output_set() != V(a[3]) || g->m->get_reg() != regt(a[4].s) || g->m->get_lambda() != real_t(a[5].d()) || g->m->get_alpha() != real_t(a[6].d())) { delete g; return nullptr; }
	return g;
}
static Learner *viaset(const J &a) {
	std::string k = a[1].s;
	if (k == "probit") return mkset<Probit>(a);
	if (k == "tanh") return mkset<Tanh>(a);
	if (k == "svc") {
		Glm<Svc> *g = new Glm<Svc>(); g->m = Ref<Svc>(memnew(Svc())); g->m->set_c(a[6].d()); g->m->set_output_set(V(a[3])); g->m->set_input_set(M(a[2])); bool ok = g->m->needs_init(); g->m->initialize();
		if (!ok || g->m->needs_init() || g->m->get_input_set() != M(a[2]) || g->m->get_output_set() != V(a[3]) || g->m->get_c() != real_t(a[6].d())) { delete g; return nullptr; }
		return g;
	}
	SoftL *g = new SoftL(); Ref<Soft> m(memnew(Soft())); m->set_alpha(a[6].d()); m->set_lambda(a[5].d()); m->set_reg(regt(a[4].s)); m->set_output_set(M(a[3])); m->set_input_set(M(a[2])); bool ok = m->needs_init(); m->initialize(); g->m = m;
	if (!ok || m->needs_init() || m->get_input_set() != M(a[2]) || m->get_output_set() != M(a[3]) || m->get_reg() != regt(a[4].s) || m->get_lambda() != real_t(a[5].d()) || m->get_alpha() != real_t(a[6].d())) { delete g; return nullptr; }
	return g;
}
static J make(const J &a) {
	std::string k = a[1].s; Learner *l = nullptr;
	if (a.size() > 10 && a[10].s == "set") { l = viaset(a); if (!l) return J("setters"); }
	else if (k == "lin") l = mk<Lin>(a);
	else if (k == "log") l = mk<Log>(a);
	else if (k == "probit") l = mk<Probit>(a);
	else if (k == "cloglog") l = mk<CLog>(a);
	else if (k == "tanh") l = mk<Tanh>(a);
	else if (k == "exp") l = mk<Exp>(a);
	else if (k == "svc") { Glm<Svc> *g = new Glm<Svc>(); g->m = Ref<Svc>(memnew(Svc(M(a[2]), V(a[3]), a[6].d()))); l = g; }
	else if (k == "softmax") { SoftL *g = new SoftL(); g->m = Ref<Soft>(memnew(Soft(M(a[2]), M(a[3]), regt(a[4].s), a[5].d(), a[6].d()))); l = g; }
	else if (k == "dual") { DualL *g = new DualL(); g->m = Ref<Dual>(memnew(Dual(M(a[2]), V(a[3]), a[6].d()))); l = g; }
	else return J("?");
	l->cfg = J::obj().set("kind", a[1]).set("X", a[2]).set("y", a[3]).set("reg", a[4]).set("lam", a[5]).set("al", a[6]);
	LS[a[0].s].reset(l);
	return J("ok");
}
OP("L.new") { J r = make(a); if (r.s == "ok") LS[a[0].s]->set(a[7], a[8], a[9]); return r; }
OP("L.rand") { return make(a); }
OP("L.train") { return LS[a[0].s]->train(a[1].s, a[2].d(), a[3].i(), a[4].i(), a[5]); }
OP("L.sgdcov") {
	Learner *l = LS[a[0].s].get(); J p = l->params(), r = J::arr();
	for (int i = 0; i < a[2].i(); i++) { l->train("sgd", a[1].d(), 1, 1, J()); r.add(l->params()); l->set(p["w"], p["b"], p["a"]); }
	return r;
}
OP("L.test") { return a[1].s == "v" ? LS[a[0].s]->testv(a[2]) : LS[a[0].s]->testm(a[2]); }
OP("L.score") { return LS[a[0].s]->score(); }
OP("L.cost") { return LS[a[0].s]->cost(a[1], a[2]); }
OP("E.agree") { return agree(LS[a[0].s].get(), a[1], false); }
OP("E.score") { return scored(LS[a[0].s].get(), a[1]); }
