// MLPPData and MLPPUtilities
#include "la.h"
#include "core/data.h"
#include "core/utilities.h"
#include <fstream>
#include <sstream>
typedef MLPPUtilities U;
static std::vector<std::vector<real_t>> std2(const J &j) { std::vector<std::vector<real_t>> r; for (auto &x : j.a) r.push_back(stdr(x)); return r; }
static J jstd2(const std::vector<std::vector<real_t>> &v) { J r = J::arr(); for (auto &x : v) r.add(jstd(x)); return r; }
static J jms(const Vector<Ref<MLPPMatrix>> &v) { J r = J::arr(); for (int i = 0; i < v.size(); i++) r.add(jm(v[i])); return r; }
static J jvs(const Vector<Ref<MLPPVector>> &v) { J r = J::arr(); for (int i = 0; i < v.size(); i++) r.add(jv(v[i])); return r; }
static J jam(const Array &a) { J r = J::arr(); for (int i = 0; i < a.size(); i++) r.add(jm(Ref<MLPPMatrix>(a[i]))); return r; }
static J jav(const Array &a) { J r = J::arr(); for (int i = 0; i < a.size(); i++) r.add(jv(Ref<MLPPVector>(a[i]))); return r; }
OP("B.m") { U u; return a[0].s == "bind" ? jam(u.create_mini_batchesm_bind(M(a[1]), a[2].i())) : jms(U::create_mini_batchesm(M(a[1]), a[2].i())); }
OP("B.mv") {
	if (a[0].s == "bind") { U u; Array x = u.create_mini_batchesmv_bind(M(a[1]), V(a[2]), a[3].i()); return J::arr().add(jam(x[0])).add(jav(x[1])); }
	auto b = U::create_mini_batchesmv(M(a[1]), V(a[2]), a[3].i()); return J::arr().add(jms(b.input_sets)).add(jvs(b.output_sets));
}
OP("B.mm") {
	if (a[0].s == "bind") { U u; Array x = u.create_mini_batchesmm_bind(M(a[1]), M(a[2]), a[3].i()); return J::arr().add(jam(x[0])).add(jam(x[1])); }
	auto b = U::create_mini_batchesmm(M(a[1]), M(a[2]), a[3].i()); return J::arr().add(jms(b.input_sets)).add(jms(b.output_sets));
}
OP("B.std") {
	int k = a[0].i(); J r = J::arr();
	auto add3 = [&](const std::vector<std::vector<std::vector<real_t>>> &b) { J q = J::arr(); for (auto &x : b) q.add(jstd2(x)); r.add(q); };
	if (a.size() == 2) { add3(U::createMiniBatches(std2(a[1]), k)); return r; }
	if (a[2][0].t == J::ARR) { auto t = U::createMiniBatches(std2(a[1]), std2(a[2]), k); add3(std::get<0>(t)); add3(std::get<1>(t)); return r; }
	auto t = U::createMiniBatches(std2(a[1]), stdr(a[2]), k); add3(std::get<0>(t)); r.add(jstd2(std::get<1>(t))); return r;
}
static J jsplit(Ref<MLPPDataComplex> d) { return J::arr().add(jm(d->get_input())).add(jm(d->get_output())); }
OP("B.split") {
	MLPPData g; Ref<MLPPDataComplex> d; d.instance(); d->set_input(M(a[1])); d->set_output(M(a[2]));
	if (a[0].s == "bind") { Array r = g.train_test_split_bind(d, a[3].d()); return J::obj().set("train", jsplit(Ref<MLPPDataComplex>(r[0]))).set("test", jsplit(Ref<MLPPDataComplex>(r[1]))); }
	auto r = g.train_test_split(d, a[3].d()); return J::obj().set("train", jsplit(r.train)).set("test", jsplit(r.test));
}
OP("K") {
	U u; std::string f = a[0].s;
	if (f == "performance_mat") return J(u.performance_mat(mkm(a[1]), mkm(a[2])));
	if (f == "performance_std") return J(u.performance(std2(a[1]["d"]), std2(a[2]["d"])));
	if (f == "performance_vec") return J(u.performance_vec(mkv(a[1]), mkv(a[2])));
	if (f == "performance_pool") { PoolIntArray p; for (auto &x : a[1].a) p.push_back(x.i()); return J(u.performance_pool_int_array_vec(p, mkv(a[2]))); }
	auto h = stdr(a[1]), y = stdr(a[2]);
	if (f == "performance") return J(u.performance(h, y));
	if (f == "tfpn") { auto t = u.TF_PN(h, y); return J::arr().add(std::get<0>(t)).add(std::get<1>(t)).add(std::get<2>(t)).add(std::get<3>(t)); }
	if (f == "recall") return J(u.recall(h, y));
	if (f == "precision") return J(u.precision(h, y));
	if (f == "accuracy") return J(u.accuracy(h, y));
	return J(u.f1_score(h, y));
}
OP("D.m") { MLPPData g; auto m = M(a[1]); return put(MS, a[2], a[0].s == "feature_scaling" ? g.feature_scaling(m) : a[0].s == "mean_centering" ? g.mean_centering(m) : g.mean_normalization(m)); }
OP("D.onehot") { MLPPData g; return put(MS, a[1], g.one_hot_rep(V(a[0]), a[2].i())); }
OP("D.unhot") { MLPPData g; return jstd(g.reverseOneHot(std2(a[0]["d"]))); }
// texts are arrays of one-character strings
static std::string cs(const J &j) { std::string s; for (auto &c : j.a) s += c.s; return s; }
static String gs(const J &j) { return String(cs(j).c_str()); }
static Vector<String> gv(const J &j) { Vector<String> v; for (auto &x : j.a) v.push_back(gs(x)); return v; }
static J jc(const std::string &s) { J r = J::arr(); for (char c : s) r.add(J(std::string(1, c))); return r; }
static J jc(const String &s) { CharString c = s.utf8(); return jc(std::string(c.get_data() ? c.get_data() : "")); }
static J jcv(const Vector<String> &v) { J r = J::arr(); for (int i = 0; i < v.size(); i++) r.add(jc(v[i])); return r; }
OP("X") {
	MLPPData g; std::string f = a[0].s; const J &x = a[1]; g.stop_words = gv(a[2]);
	if (f == "split_sentences") return jcv(g.split_sentences(gs(x)));
	if (f == "segment") return jcv(g.segment(gs(x)));
	if (f == "tokenize") { auto t = g.tokenize(gs(x)); J r = J::arr(); for (int i = 0; i < t.size(); i++) r.add(t[i]); return r; }
	if (f == "remove_stop_words") return jcv(g.remove_stop_words(gs(x)));
	if (f == "to_lower") return jc(g.toLower(cs(x)));
	if (f == "split") { J r = J::arr(); for (char c : g.split(cs(x))) r.add(J(std::string(1, c))); return r; }
	if (f == "vec_to_setnv") return jv(g.vec_to_setnv(mkv(x)));
	Vector<String> v = gv(x); Vector<String> keep = gv(x); J r;
	if (f == "remove_stop_words_vec") r = jcv(g.remove_stop_words_vec(v));
	if (f == "remove_empty") r = jcv(g.remove_empty(v));
	if (f == "remove_spaces") r = jcv(g.remove_spaces(v));
	if (f == "create_word_list") r = jcv(g.create_word_list(v));
	if (f == "vec_to_set") r = jcv(g.vec_to_set(v));
	if (f == "bag_of_words") r = jm(g.bag_of_words(v));
	if (f == "bag_binary") r = jm(g.bag_of_words(v, MLPPData::BAG_OF_WORDS_TYPE_BINARY));
	if (f == "tfidf") r = jm(g.tfidf(v));
	if (f == "word_to_vec") {
		auto w = g.word_to_vec(v, a[4].s == "cbow" ? MLPPData::WORD_TO_VEC_TYPE_CBOW : MLPPData::WORD_TO_VEC_TYPE_SKIPGRAM, 2, a[3].i(), 0.001, 1);
		bool fin = true; for (int i = 0; i < w.word_embeddings->data_size(); i++) fin &= std::isfinite(w.word_embeddings->ptr()[i]);
		r = J::arr().add(jcv(w.word_list)).add(w.word_embeddings->size().y).add(w.word_embeddings->size().x).add(fin);
	}
	for (int i = 0; i < keep.size(); i++) if (i >= v.size() || v[i] != keep[i]) return J("argument changed");
	return r;
}
OP("X.stem") { MLPPData g; g.suffixes = gv(a[1]); return jc(g.stemming(gs(a[0]))); }
// F.load [loader, k, rows, [separator style]]: style [eol, final newline?, quote?]
OP("F.load") {
	std::string p = std::string(dom_scratch()) + "/data.csv", f = a[0].s, out; const J &st = a[3]; int n = a[2].size();
	for (int i = 0; i < n; i++) {
		const J &row = a[2][i];
		if (row.t == J::STR) out += row.s;
		else for (int j = 0; j < row.size(); j++) { if (j) out += ","; out += st[2].b ? "\"" + row[j].s + "\"" : row[j].s; }
		if (i + 1 < n || st[1].b) out += st[0].s;
	}
	{ std::ofstream o(p, std::ios::binary); o << out; }
	MLPPData g; String path(p.c_str()); J r = J::arr();
	Ref<MLPPMatrix> X; X.instance(); Ref<MLPPVector> x, y; x.instance(); y.instance();
	auto cx = [&](Ref<MLPPDataComplex> d) { r.add(jm(d->get_input())).add(jm(d->get_output())); };
	auto sx = [&](Ref<MLPPDataSimple> d) { r.add(jm(d->get_input())).add(jv(d->get_output())); };
	if (f == "supervised") { g.set_data_supervised(a[1].i(), path, X, y); r.add(jm(X)).add(jv(y)); }
	else if (f == "unsupervised") { g.set_data_unsupervised(a[1].i(), path, X); r.add(jm(X)); }
	else if (f == "simple") { g.set_data_simple(path, x, y); r.add(jv(x)).add(jv(y)); }
	else if (f == "fires_and_crime") { auto d = g.load_fires_and_crime(path); r.add(jv(d->get_input())).add(jv(d->get_output())); }
	else if (f == "breast_cancer") sx(g.load_breast_cancer(path));
	else if (f == "breast_cancer_svc") sx(g.load_breast_cancer_svc(path));
	else if (f == "california_housing") sx(g.load_california_housing(path));
	else if (f == "iris") cx(g.load_iris(path));
	else if (f == "wine") cx(g.load_wine(path));
	else if (f == "mnist_train") cx(g.load_mnist_train(path));
	else if (f == "mnist_test") cx(g.load_mnist_test(path));
	else if (f == "names") { std::vector<std::string> v; g.setInputNames(p, v); for (auto &s : v) r.add(J(s)); }
	std::remove(p.c_str());
	return r;
}
static std::map<std::string, int> files;
static J lines(const std::string &p) {
	J r = J::arr(); std::ifstream f(p); std::string l;
	while (std::getline(f, l)) { char *e; double d = strtod(l.c_str(), &e); if (!l.empty() && !*e) r.add(J(d)); else r.add(J(l)); }
	return r;
}
OP("F.save") {
	U u; std::string p = std::string(dom_scratch()) + "/" + a[0].s; files[a[0].s] = 1; bool app = a[5].b; int l = a[6].i();
	if (a[1].s == "vb") u.saveParameters(p, stdr(a[2]), a[4].d(), app, l);
	else if (a[1].s == "vib") u.saveParameters(p, stdr(a[2]), stdr(a[3]), a[4].d(), app, l);
	else u.saveParameters(p, std2(a[2]), stdr(a[4]), app, l);
	return J("ok");
}
OP("W.init") {
	static const std::map<std::string, U::WeightDistributionType> T = { { "default", U::WEIGHT_DISTRIBUTION_TYPE_DEFAULT }, { "xavier_normal", U::WEIGHT_DISTRIBUTION_TYPE_XAVIER_NORMAL }, { "xavier_uniform", U::WEIGHT_DISTRIBUTION_TYPE_XAVIER_UNIFORM }, { "he_normal", U::WEIGHT_DISTRIBUTION_TYPE_HE_NORMAL }, { "he_uniform", U::WEIGHT_DISTRIBUTION_TYPE_HE_UNIFORM }, { "le_cun_normal", U::WEIGHT_DISTRIBUTION_TYPE_LE_CUN_NORMAL }, { "le_cun_uniform", U::WEIGHT_DISTRIBUTION_TYPE_LE_CUN_UNIFORM }, { "uniform", U::WEIGHT_DISTRIBUTION_TYPE_UNIFORM } };
	U u; std::string k = a[0].s; int n = a[1].i(), m = a[2].i(), reps = a[4].i(); J r = J::arr();
	for (int q = 0; q < reps; q++) {
		if (k == "bias") {
			if (a[3].s == "r") { r.add(J(u.bias_initializationr())); continue; }
			Ref<MLPPVector> v; v.instance(); v->resize(n); v->fill(-7); u.bias_initializationv(v); for (int i = 0; i < n; i++) r.add(J(v->element_get(i)));
		} else if (a[3].s == "v") { Ref<MLPPVector> v; v.instance(); v->resize(n); v->fill(-7000); u.weight_initializationv(v, T.at(k)); for (int i = 0; i < n; i++) r.add(J(v->element_get(i))); }
		else { Ref<MLPPMatrix> v; v.instance(); v->resize(Size2i(n, m)); v->fill(-7000); u.weight_initializationm(v, T.at(k)); if (v->size() != Size2i(n, m)) return J("resized"); for (int i = 0; i < n * m; i++) r.add(J(v->ptr()[i])); }
	}
	return r;
}
void dom_reset() { VS.clear(); MS.clear(); for (auto &p : files) std::remove((std::string(dom_scratch()) + "/" + p.first).c_str()); files.clear(); }
J dom_state() {
	J s = J::obj();
	for (auto &p : VS) s.set(p.first, jv(p.second));
	for (auto &p : MS) s.set(p.first, jm(p.second));
	for (auto &p : files) s.set(p.first, lines(std::string(dom_scratch()) + "/" + p.first));
	return s;
}
