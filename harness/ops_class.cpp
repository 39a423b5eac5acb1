// Neighbour, cluster, naive Bayes, outlier and univariate models.
#include "la.h"
#include "agree.h"
#include "modules/bernoulli_nb/bernoulli_nb.h"
#include "modules/gaussian_nb/gaussian_nb.h"
#include "modules/kmeans/kmeans.h"
#include "modules/knn/knn.h"
#include "modules/multinomial_nb/multinomial_nb.h"
#include "modules/outlier_finder/outlier_finder.h"
#include "modules/uni_lin_reg/uni_lin_reg.h"
struct Km : public MLPPKMeans { using MLPPKMeans::_mu; using MLPPKMeans::_r; };
struct GNb : public MLPPGaussianNB { using MLPPGaussianNB::MLPPGaussianNB; using MLPPGaussianNB::_priors; using MLPPGaussianNB::_mu; using MLPPGaussianNB::_sigma; };
struct BNb : public MLPPBernoulliNB { using MLPPBernoulliNB::MLPPBernoulliNB; using MLPPBernoulliNB::_prior_0; using MLPPBernoulliNB::_prior_1; };
struct MNb : public MLPPMultinomialNB { using MLPPMultinomialNB::MLPPMultinomialNB; using MLPPMultinomialNB::_priors; };
struct Mod {
	virtual ~Mod() {}
	virtual J state() = 0;
	virtual J testv(const J &q) = 0;
	virtual J testm(const J &q) = 0;
	virtual J score() = 0;
	virtual void train(int) {}
};
static J ints(const PoolIntArray &p) { J r = J::arr(); PoolIntArray::Read rd = p.read(); for (int i = 0; i < p.size(); i++) r.add(J(rd[i])); return r; }
struct ModKnn : Mod {
	MLPPKNN m; J X, y;
	J state() { return J::obj().set("kind", "knn").set("X", X).set("y", y).set("k", m.get_k()).set("p", "none"); }
	J testv(const J &q) { return J(m.model_test(V(q))); }
	J testm(const J &q) { return ints(m.model_set_test(M(q))); }
	J score() { return J(m.score()); }
};
struct ModKm : Mod {
	Km m; J X, type;
	J state() { return J::obj().set("kind", "kmeans").set("X", X).set("y", type).set("k", m.get_k()).set("p", J::obj().set("mu", jm(m._mu)).set("r", jm(m._r))); }
	J testv(const J &q) { return jv(m.model_test(V(q))); }
	J testm(const J &q) { return jm(m.model_set_test(M(q))); }
	J score() { return J(m.score()); }
	void train(int ep) { m.train(ep); }
};
template <class C> struct ModNb : Mod {
	C *m; J X, y, k; std::string kind;
	~ModNb() { delete m; }
	J p();
	J state() { return J::obj().set("kind", kind).set("X", X).set("y", y).set("k", k).set("p", p()); }
	J testv(const J &q) { return J(m->model_test(V(q))); }
	J testm(const J &q) { return jv(m->model_set_test(M(q))); }
	J score() { return J(m->score()); }
};
template <> J ModNb<GNb>::p() { return J::obj().set("prior", jv(m->_priors)).set("mu", jv(m->_mu)).set("sigma", jv(m->_sigma)); }
template <> J ModNb<BNb>::p() { return J::obj().set("prior", J::arr().add(m->_prior_0).add(m->_prior_1)); }
template <> J ModNb<MNb>::p() { return J::obj().set("prior", jv(m->_priors)); }
struct ModUni : Mod {
	std::unique_ptr<MLPPUniLinReg> m; J X, y;
	J state() { return J::obj().set("kind", "uni").set("X", X).set("y", y).set("k", 0).set("p", J::obj().set("b0", m->get_b0()).set("b1", m->get_b1())); }
	J testv(const J &q) { return jv(m->model_set_test(V(q))); }
	J testm(const J &q) { return J(m->model_test(q.d())); }
	J score() { return J("none"); }
	void train(int) { m->train(); }
};
struct ModOut : Mod {
	std::unique_ptr<MLPPOutlierFinder> m;
	J state() { return J::obj().set("kind", "outlier").set("X", "none").set("y", "none").set("k", 0).set("p", J(m->get_threshold())); }
	J testv(const J &q) { return jpool(m->model_test(V(q))); }
	J testm(const J &q) { Vector<Vector<real_t>> r = m->model_set_test(M(q)); J o = J::arr(); for (int i = 0; i < r.size(); i++) o.add(jvec(r[i])); return o; }
	J score() { return J("none"); }
};
static std::map<std::string, std::unique_ptr<Mod>> MO;
void dom_reset() { MO.clear(); VS.clear(); MS.clear(); TS.clear(); }
J dom_state() {
	J s = J::obj();
	for (auto &p : VS) s.set(p.first, jv(p.second));
	for (auto &p : MS) s.set(p.first, jm(p.second));
	for (auto &p : MO) s.set(p.first, p.second->state());
	return s;
}
OP("C.knn") { auto *m = new ModKnn; m->X = a[1]; m->y = a[2]; m->m.set_input_set(M(a[1])); m->m.set_output_set(V(a[2])); m->m.set_k(a[3].i()); MO[a[0].s].reset(m);
	return J(m->m.get_input_set() == M(a[1]) && m->m.get_output_set() == V(a[2]) ? "ok" : "lost"); }
OP("C.knn.k") { ((ModKnn *)MO[a[0].s].get())->m.set_k(a[1].i()); return J("ok"); }
// m X k type
OP("C.km") { auto *m = new ModKm; m->X = a[1]; m->type = a[3]; m->m.set_input_set(M(a[1])); m->m.set_k(a[2].i());
	m->m.set_mean_type(a[3].s == "pp" ? MLPPKMeans::MEAN_TYPE_KMEANSPP : MLPPKMeans::MEAN_TYPE_CENTROID); m->m.initialize(); MO[a[0].s].reset(m); return J("ok"); }
OP("C.km.means") { Ref<MLPPMatrix> mu = ((ModKm *)MO[a[0].s].get())->m._mu; Ref<MLPPMatrix> w = mkm(a[1]); for (int i = 0; i < w->data_size(); i++) mu->ptrw()[i] = w->ptr()[i]; return J("ok"); }
OP("C.km.sil") { return jv(((ModKm *)MO[a[0].s].get())->m.silhouette_scores()); }
// m kind X y classes
OP("C.nb") {
	auto mk = [&](auto *m, auto *c) { m->m = c; m->kind = a[1].s; m->X = a[2]; m->y = a[3]; m->k = a[4]; MO[a[0].s].reset(m); };
	if (a[1].s == "gauss") mk(new ModNb<GNb>, new GNb(M(a[2]), V(a[3]), a[4].i()));
	else if (a[1].s == "bern") mk(new ModNb<BNb>, new BNb(M(a[2]), V(a[3])));
	else mk(new ModNb<MNb>, new MNb(M(a[2]), V(a[3]), a[4].i()));
	return J("ok");
}
// m x y how
OP("C.uni") { auto *m = new ModUni; m->X = a[1]; m->y = a[2];
	if (a[3].s == "new") m->m.reset(new MLPPUniLinReg(V(a[1]), V(a[2])));
	else { m->m.reset(new MLPPUniLinReg()); m->m->set_input_set(V(a[1])); m->m->set_output_set(V(a[2])); if (m->m->get_input_set() != V(a[1]) || m->m->get_output_set() != V(a[2])) return J("lost"); m->m->train(); }
	MO[a[0].s].reset(m); return J("ok"); }
OP("C.uni.set") { MLPPUniLinReg *u = ((ModUni *)MO[a[0].s].get())->m.get(); u->set_b0(a[1].d()); u->set_b1(a[2].d()); return J("ok"); }
OP("C.out") { auto *m = new ModOut; if (a[2].s == "new") m->m.reset(new MLPPOutlierFinder(a[1].d())); else { m->m.reset(new MLPPOutlierFinder()); m->m->set_threshold(a[1].d()); } MO[a[0].s].reset(m); return J("ok"); }
OP("C.out.bind") { Array r = ((ModOut *)MO[a[0].s].get())->m->model_set_test_bind(M(a[1])); J o = J::arr(); for (int i = 0; i < r.size(); i++) { PoolRealArray p = r[i]; o.add(jpool(p)); } return o; }
OP("C.out.ix") { PoolVector2iArray r = ((ModOut *)MO[a[0].s].get())->m->model_set_test_indices(M(a[1])); J o = J::arr(); PoolVector2iArray::Read rd = r.read(); for (int i = 0; i < r.size(); i++) o.add(J::arr().add(rd[i].x).add(rd[i].y)); return o; }
OP("C.train") { MO[a[0].s]->train(a[1].i()); return J("ok"); }
OP("C.testv") { return MO[a[0].s]->testv(a[1]); }
OP("C.testm") { return MO[a[0].s]->testm(a[1]); }
OP("C.score") { return MO[a[0].s]->score(); }
OP("E.agree") { return agree(MO[a[0].s].get(), a[1], ((std::string)MO[a[0].s]->state()["kind"].s) == "uni"); }
OP("E.score") { return scored(MO[a[0].s].get(), a[1]); }
