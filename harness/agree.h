// E.agree [slot, query slot]: set prediction, row predictions, and both again.  P has testv(J) and testm(J).
static J rowsof(const J &q, bool uni) {
	J r = J::arr();
	if (uni) { Ref<MLPPVector> v = V(q); for (int i = 0; i < v->size(); i++) r.add(J(v->element_get(i))); return r; }
	Ref<MLPPMatrix> m = M(q);
	for (int i = 0; i < m->size().y; i++) { Ref<MLPPVector> v; v.instance(); v->resize(m->size().x); m->row_get_into_mlpp_vector(i, v); VS["%row" + std::to_string(i)] = v; r.add(J("%row" + std::to_string(i))); }
	return r;
}
static J plain(const J &x) { return x.t == J::OBJ ? x["d"] : x; }
template <class P> J scored(P *p, const J &q) { return J::obj().set("score", p->score()).set("hat", plain(p->testm(q))); }
template <class P> J agree(P *p, const J &q, bool uni) {
	J rows = rowsof(q, uni), o = J::obj();
	auto set = [&] { return plain(uni ? p->testv(q) : p->testm(q)); };
	auto each = [&] { J r = J::arr(); for (auto &x : rows.a) r.add(uni ? p->testm(x) : p->testv(x)); return r; };
	o.set("a", set()); o.set("b", each()); o.set("c", each()); o.set("d", set());
	bool kept = true; // the query rows themselves
	if (!uni) { Ref<MLPPMatrix> m = M(q); for (int i = 0; i < m->size().y; i++) { Ref<MLPPVector> v = VS["%row" + std::to_string(i)]; for (int j = 0; j < v->size(); j++) kept = kept && (v->ptr()[j] == m->element_get(i, j) || v->ptr()[j] != v->ptr()[j]); kept = kept && v->size() == m->size().x; } }
	for (auto &x : rows.a) if (!uni) VS.erase(x.s);
	return o.set("kept", J(kept));
}
