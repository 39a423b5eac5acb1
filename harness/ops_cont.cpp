// The generic containers of sfw.  A slot holds one container: state [k |-> kind, d |-> content (, p |-> ring power)].
#include "drv.h"
#include "platform/sfw.h"
#include <algorithm>
#include <map>
#include <memory>
#include <vector>
// a non-trivial element that counts live instances and notices misuse
struct Tk {
	int v; unsigned m; static long live, bad;
	void chk() const { if (m != 0x7ac4e5u) bad++; }
	Tk() : v(0), m(0x7ac4e5u) { live++; }
	Tk(int x) : v(x), m(0x7ac4e5u) { live++; }
	Tk(const Tk &o) : v(o.v), m(0x7ac4e5u) { o.chk(); live++; }
	void operator=(const Tk &o) { o.chk(); chk(); v = o.v; }
	~Tk() { chk(); m = 0xdead; live--; }
	bool operator==(const Tk &o) const { chk(); o.chk(); return v == o.v; }
	bool operator<(const Tk &o) const { chk(); o.chk(); return v < o.v; }
};
long Tk::live = 0, Tk::bad = 0;
static J j(int x) { return J(x); }
static J j(const Tk &x) { x.chk(); return J(x.v); }
template <class T> T mk(const J &x) { return T((int)x.n); }
struct Cont {
	std::string k; virtual ~Cont() {}
	virtual J content() = 0; virtual Cont *clone() = 0; virtual void assign(Cont *o) = 0; virtual J call(const std::string &f, const J &a, Cont *o) = 0;
	virtual J state() { return J::obj().set("k", k).set("d", content()); }
};
#define F(n) if (f == n)
#define RETOK return "ok"
template <class T> struct trivial { static const bool v = false; }; template <> struct trivial<int> { static const bool v = true; };
template <class D, class S> struct Base : Cont {
	S s; typedef D Self;
	Cont *clone() override { D *d = new D(*(D *)this); return d; }
	void assign(Cont *o) override { s = ((D *)o)->s; }
};
template <class T> static J listof(const T *p, int n) { J r = J::arr(); for (int i = 0; i < n; i++) r.add(j(p[i])); return r; }
template <class T> struct CVec : Base<CVec<T>, Vector<T>> {
	using Base<CVec<T>, Vector<T>>::s;
	J content() override { J r = listof(s.ptr(), s.size()); const Vector<T> &c = s; for (int i = 0; i < s.size(); i++) if (!(c[i] == c.get(i)) || !(c[i] == s.ptr()[i])) return "corrupt"; return r; }
	J call(const std::string &f, const J &a, Cont *o) override {
		F("push") { s.push_back(mk<T>(a[1])); RETOK; }
		F("remove") { s.remove(a[1].i()); RETOK; }
		F("erase") return J(s.erase(mk<T>(a[1])));
		F("insert") return s.insert(a[1].i(), mk<T>(a[2])) == ::OK ? "ok" : "err";
		F("set") { s.set(a[1].i(), mk<T>(a[2])); RETOK; }
		F("wset") { s.write[a[1].i()] = mk<T>(a[2]); RETOK; }
		F("pset") { s.ptrw()[a[1].i()] = mk<T>(a[2]); RETOK; }
		F("selfset") { s.set(a[1].i(), s.get(a[2].i())); RETOK; }
		F("resize") { int n = s.size(); J r = s.resize(a[1].i()) == ::OK ? "ok" : "err"; if (trivial<T>::v) for (int i = n; i < s.size(); i++) s.set(i, mk<T>(0)); return r; }
		F("fill") { s.fill(mk<T>(a[1])); RETOK; }
		F("selffill") { s.fill(s[a[1].i()]); RETOK; }
		F("invert") { s.invert(); RETOK; }
		F("sort") { s.sort(); RETOK; }
		F("oins") { s.ordered_insert(mk<T>(a[1])); RETOK; }
		F("append") { s.append_array(((CVec<T> *)o)->s); RETOK; }
		F("find") return J(s.find(mk<T>(a[1]), a[2].i()));
		F("slice") { Vector<T> v = a.a.size() < 3 ? s.slice(a[1].i()) : s.slice(a[1].i(), a[2].i()); return listof(v.ptr(), v.size()); }
		F("clear") { s.clear(); RETOK; }
		F("get") return J::arr().add(j(s.get(a[1].i()))).add(j(((const Vector<T> &)s)[a[1].i()]));
		F("empty") return J::arr().add(J(s.empty())).add(J(s.size()));
		return "?";
	}
};
template <class T> struct CPool : Base<CPool<T>, PoolVector<T>> {
	using Base<CPool<T>, PoolVector<T>>::s;
	J content() override { typename PoolVector<T>::Read r = s.read(); J x = listof(r.ptr(), s.size()); for (int i = 0; i < s.size(); i++) if (!(s[i] == r[i]) || !(s.get(i) == r[i])) return "corrupt"; return x; }
	J call(const std::string &f, const J &a, Cont *o) override {
		F("push") { s.push_back(mk<T>(a[1])); RETOK; }
		F("remove") { s.remove(a[1].i()); RETOK; }
		F("insert") return s.insert(a[1].i(), mk<T>(a[2])) == ::OK ? "ok" : "err";
		F("pset") { s.set(a[1].i(), mk<T>(a[2])); RETOK; } // checked
		F("set") { s.set(a[1].i(), mk<T>(a[2])); RETOK; }
		F("wset") { typename PoolVector<T>::Write w = s.write(); w[a[1].i()] = mk<T>(a[2]); RETOK; }
		F("resize") { int n = s.size(); J r = s.resize(a[1].i()) == ::OK ? "ok" : "err"; if (trivial<T>::v) for (int i = n; i < s.size(); i++) s.set(i, mk<T>(0)); return r; }
		F("fill") { s.fill(mk<T>(a[1])); RETOK; }
		F("invert") { s.invert(); RETOK; }
		F("sort") { s.sort(); RETOK; }
		F("append") { s.append_array(((CPool<T> *)o)->s); RETOK; }
		F("find") { J r = J(s.find(mk<T>(a[1]), a[2].i())); return r; }
		F("rfind") return J(s.rfind(mk<T>(a[1]), a[2].i()));
		F("count") return J::arr().add(J(s.count(mk<T>(a[1])))).add(J(s.has(mk<T>(a[1])))).add(J(s.contains(mk<T>(a[1]))));
		F("sub") { PoolVector<T> v = s.subarray(a[1].i(), a[2].i()); typename PoolVector<T>::Read r = v.read(); return listof(r.ptr(), v.size()); }
		F("locked") { // a reader keeps the storage in place
			J r; if (s.size()) s.set(0, s.get(0)); // private storage
				{ typename PoolVector<T>::Read rd = s.read(); if (s.size()) { PoolVector<T> o; o.push_back(mk<T>(7)); s.push_back(mk<T>(7)); s.append_array(o); s.insert(0, mk<T>(7)); s.remove(0); } r = s.resize(a[1].i()) == ::OK ? "ok" : "locked"; if (r.s == "ok" && trivial<T>::v) { for (int i = 0; i < s.size(); i++) s.set(i, mk<T>(0)); } if (r.s == "ok" && s.is_locked()) r = "leaked"; }
			return s.is_locked() ? J("leaked") : r; }
		F("snap") { // o := copy; writes to this one stay invisible to a reader of the copy
			PoolVector<T> c = s; typename PoolVector<T>::Read r = c.read(); s.set(a[1].i(), mk<T>(a[2])); J x = listof(r.ptr(), c.size()); return x; }
		F("clear") { s.clear(); RETOK; }
		F("get") return J::arr().add(j(s.get(a[1].i()))).add(j(s[a[1].i()]));
		F("empty") return J::arr().add(J(s.empty())).add(J(s.size()));
		return "?";
	}
};
template <class T, class L> struct CLoc : Base<CLoc<T, L>, L> {
	using Base<CLoc<T, L>, L>::s;
	J content() override { J r = listof(s.ptr(), s.size()); if (s.get_capacity() < s.size()) return "corrupt"; return r; }
	static bool er(LocalVector<T> &s, const T &x) { return s.erase(x); }
	static bool er(TightLocalVector<T> &s, const T &x) { bool h = s.find(x) >= 0; s.erase(x); return h; }
	J call(const std::string &f, const J &a, Cont *o) override {
		F("push") { s.push_back(mk<T>(a[1])); RETOK; }
		F("remove") { s.remove(a[1].i()); RETOK; }
		F("removeu") { s.remove_unordered(a[1].i()); RETOK; }
		F("erase") return J(er(s, mk<T>(a[1])));
		F("erasem") return J((int)s.erase_multiple_unordered(mk<T>(a[1])));
		F("insert") { s.insert(a[1].i(), mk<T>(a[2])); RETOK; }
		F("set") { s[a[1].i()] = mk<T>(a[2]); RETOK; }
		F("pset") { s.ptr()[a[1].i()] = mk<T>(a[2]); RETOK; }
		F("resize") { int n = s.size(); s.resize(a[1].i()); if (trivial<T>::v) for (int i = n; i < (int)s.size(); i++) s[i] = mk<T>(0); RETOK; }
		F("reserve") { s.reserve(a[1].i()); return J((int)s.get_capacity() >= a[1].i()); }
		F("fill") { s.fill(mk<T>(a[1])); RETOK; }
		F("invert") { s.invert(); RETOK; }
		F("sort") { s.sort(); RETOK; }
		F("oins") { s.ordered_insert(mk<T>(a[1])); RETOK; }
		F("find") return J((int)s.find(mk<T>(a[1]), a[2].i()));
		F("clear") { s.clear(); RETOK; }
		F("reset") { s.reset(); return J((int)s.get_capacity()); }
		F("get") return J::arr().add(j(s[a[1].i()])).add(j(((const L &)s)[a[1].i()]));
		F("empty") return J::arr().add(J(s.empty())).add(J((int)s.size()));
		return "?";
	}
};
template <class T> struct Inv { bool operator()(const T &x, const T &y) const { return y < x; } };
template <class T> struct CList : Base<CList<T>, List<T>> {
	using Base<CList<T>, List<T>>::s; typedef typename List<T>::Element El;
	El *at(int i) { El *e = s.front(); while (i-- > 0 && e) e = e->next(); return e; }
	J content() override {
		J r = J::arr(), b = J::arr(); int n = 0; for (El *e = s.front(); e && n < 5000; e = e->next(), n++) r.add(j(e->get()));
		n = 0; for (El *e = s.back(); e && n < 5000; e = e->prev(), n++) b.a.insert(b.a.begin(), j(e->get()));
		b.t = J::ARR; if (r.dump() != b.dump() || (int)r.a.size() != s.size()) return J::obj().set("fwd", r).set("bwd", b).set("size", s.size());
		return r;
	}
	J call(const std::string &f, const J &a, Cont *o) override {
		F("push") { El *e = s.push_back(mk<T>(a[1])); return e == s.back() ? "ok" : "bad"; }
		F("pushf") { El *e = s.push_front(mk<T>(a[1])); return e == s.front() ? "ok" : "bad"; }
		F("popf") { s.pop_front(); RETOK; }
		F("popb") { s.pop_back(); RETOK; }
		F("insa") { El *e = s.insert_after(at(a[1].i()), mk<T>(a[2])); return j(e->get()); }
		F("insb") { El *e = s.insert_before(at(a[1].i()), mk<T>(a[2])); return j(e->get()); }
		F("remove") return J(s.erase(at(a[1].i())));
		F("erasea") { at(a[1].i())->erase(); RETOK; }
		F("erase") return J(s.erase(mk<T>(a[1])));
		F("tob") { s.move_to_back(at(a[1].i())); RETOK; }
		F("tof") { s.move_to_front(at(a[1].i())); RETOK; }
		F("before") { s.move_before(at(a[1].i()), a[2].i() < 0 ? nullptr : at(a[2].i())); RETOK; }
		F("swap") { s.swap(at(a[1].i()), at(a[2].i())); RETOK; }
		F("set") { s[a[1].i()] = mk<T>(a[2]); RETOK; }
		F("invert") { s.invert(); RETOK; }
		F("sort") { s.sort(); RETOK; }
		F("sorti") { s.template sort_custom_inplace<Comparator<T>>(); RETOK; }
		F("sortd") { s.template sort_custom<Inv<T>>(); RETOK; }
		F("find") { El *e = s.find(mk<T>(a[1])); int i = 0; for (El *q = s.front(); q; q = q->next(), i++) if (q == e) return J(i); return J(-1); }
		F("clear") { s.clear(); RETOK; }
		F("get") return J::arr().add(j(s[a[1].i()])).add(j(((const List<T> &)s)[a[1].i()]));
		F("empty") return J::arr().add(J(s.empty())).add(J(s.size()));
		return "?";
	}
};
struct CRing : Base<CRing, RingBuffer<int>> {
	int p = 0;
	void assign(Cont *o) override { s = ((CRing *)o)->s; p = ((CRing *)o)->p; }
	J content() override { J r = J::arr(); int n = s.data_left(); std::vector<int> b(n + 1); int g = s.read(b.data(), n, false); for (int i = 0; i < g; i++) r.add(J(b[i])); return r; }
	J state() override { return Cont::state().set("p", p).set("left", s.space_left()).set("size", s.size()); }
	J call(const std::string &f, const J &a, Cont *) override {
		F("write") return s.write(a[1].i()) == ::OK ? "ok" : "full";
		F("writen") { std::vector<int> b; for (auto &x : a[1].a) b.push_back(x.i()); b.push_back(0); return J(s.write(b.data(), (int)b.size() - 1)); }
		F("read") return J(s.read());
		F("readn") { std::vector<int> b(a[1].i() + 1); int n = s.read(b.data(), a[1].i(), a[2].b); J r = J::arr(); for (int i = 0; i < n; i++) r.add(J(b[i])); return r; }
		F("copy") { std::vector<int> b(4096); int n = s.copy(b.data(), a[1].i(), a[2].i()); J r = J::arr(); for (int i = 0; i < n; i++) r.add(J(b[i])); return r; }
		F("find") return J(s.find(a[1].i(), a[2].i(), a[3].i()));
		F("adv") return J(s.advance_read(a[1].i()));
		F("dec") return J(s.decrease_write(a[1].i()));
		F("clear") { s.clear(); RETOK; }
		F("resize") { s.resize(a[1].i()); p = a[1].i(); RETOK; }
		return "?";
	}
};
static J kv(int k, int v) { return J::arr().add(J(k)).add(J(v)); }
template <class M> static bool bag(M *) { return false; }
struct H3 { static uint32_t hash(int k) { return (uint32_t)(k % 3); } static uint32_t hash(const Tk &k) { return hash(k.v); } };
struct H0 { static uint32_t hash(int k) { return 0; } static uint32_t hash(const Tk &k) { return 0; } };
struct HG { static uint32_t hash(int k) { return HashMapHasherDefault::hash(k); } static uint32_t hash(const Tk &k) { return hash(k.v); } };
template <class H> struct CRbm;
struct CRbMap : Base<CRbMap, RBMap<int, Tk>> {
	typedef RBMap<int, Tk>::Element El;
	J content() override {
		J r = J::arr(), b = J::arr(); int n = 0; for (El *e = s.front(); e && n < 9999; e = e->next(), n++) r.add(kv(e->key(), e->get().v)), e->value().chk();
		n = 0; for (El *e = s.back(); e && n < 9999; e = e->prev(), n++) b.a.insert(b.a.begin(), kv(e->key(), e->value().v));
		b.t = J::ARR; if (r.dump() != b.dump() || (int)r.a.size() != s.size() || s.empty() != r.a.empty()) return J::obj().set("fwd", r).set("bwd", b);
		return r;
	}
	El *at(int i) { El *e = s.front(); while (i-- > 0 && e) e = e->next(); return e; }
	static J el(const El *e) { return e ? kv(e->key(), e->value().v) : J("none"); }
	J call(const std::string &f, const J &a, Cont *) override {
		int k = a[1].i();
		F("ins") return el(s.insert(k, Tk(a[2].i())));
		F("ref") { s[k] = Tk(a[2].i()); RETOK; }
		F("touch") return j(s[k]);
		F("has") return J(s.has(k));
		F("erase") return J(s.erase(k));
		F("erasea") { s.erase(at(k)); RETOK; }
		F("get") { const CRbMap *c = this; const El *e = c->s.find(k), *g = s.find(k); return e == g ? el(e) : J("differ"); }
		F("near") { const CRbMap *c = this; const El *e = c->s.find_closest(k), *g = s.find_closest(k); return e == g ? el(e) : J("differ"); }
		F("step") { El *e = s.find(k); return J::arr().add(el(e->next())).add(el(e->prev())); }
		F("size") return J(s.size());
		F("balanced") { int n = s.size(), h = 0; while ((1 << h) < n + 1) h++; return J(s.calculate_depth() <= 2 * h + 2); }
		F("clear") { s.clear(); RETOK; }
		return "?";
	}
};
struct CRbSet : Base<CRbSet, RBSet<Tk>> {
	typedef RBSet<Tk>::Element El;
	static J el(const El *e) { return e ? kv(e->get().v, 0) : J("none"); }
	J content() override {
		J r = J::arr(), b = J::arr(); int n = 0; for (El *e = s.front(); e && n < 9999; e = e->next(), n++) r.add(el(e));
		n = 0; for (El *e = s.back(); e && n < 9999; e = e->prev(), n++) b.a.insert(b.a.begin(), el(e));
		b.t = J::ARR; if (r.dump() != b.dump() || (int)r.a.size() != s.size() || s.empty() != r.a.empty()) return J::obj().set("fwd", r).set("bwd", b);
		return r;
	}
	El *at(int i) { El *e = s.front(); while (i-- > 0 && e) e = e->next(); return e; }
	J call(const std::string &f, const J &a, Cont *) override {
		int k = a[1].i();
		F("ins") return el(s.insert(Tk(k)));
		F("has") return J(s.has(Tk(k)));
		F("erase") return J(s.erase(Tk(k)));
		F("erasea") { s.erase(at(k)); RETOK; }
		F("get") { const CRbSet *c = this; const El *e = c->s.find(Tk(k)), *g = s.find(Tk(k)); return e == g ? el(e) : J("differ"); }
		F("lower") return el(s.lower_bound(Tk(k)));
		F("step") { El *e = s.find(Tk(k)); return J::arr().add(el(e->next())).add(el(e->prev())); }
		F("size") return J(s.size());
		F("balanced") { int n = s.size(), h = 0; while ((1 << h) < n + 1) h++; return J(s.calculate_depth() <= 2 * h + 2); }
		F("clear") { s.clear(); RETOK; }
		return "?";
	}
};
struct CVMap : Base<CVMap, VMap<int, Tk>> {
	J content() override { J r = J::arr(); const VMap<int, Tk> &c = s; for (int i = 0; i < s.size(); i++) { if (c.getk(i) != c.get_array()[i].key || c.getv(i).v != c.get_array()[i].value.v) return "corrupt"; r.add(kv(c.getk(i), c.getv(i).v)); } return r; }
	J call(const std::string &f, const J &a, Cont *) override {
		int k = a[1].i(); const VMap<int, Tk> &c = s;
		F("ins") { int i = s.insert(k, Tk(a[2].i())); return kv(c.getk(i), c.getv(i).v); }
		F("ref") { s[k] = Tk(a[2].i()); RETOK; }
		F("touch") return j(s[k]);
		F("vset") { s.getv(k) = Tk(a[2].i()); RETOK; }
		F("has") return J(s.has(k));
		F("erase") { bool h = s.has(k); s.erase(k); return J(h); }
		F("get") { int i = s.find(k); return i < 0 ? J("none") : c[k].v == c.getv(i).v ? kv(c.getk(i), c.getv(i).v) : J("differ"); }
		F("nearest") return J(s.find_nearest(k));
		F("size") return J::arr().add(J(s.size())).add(J(s.empty()));
		return "?";
	}
};
struct CVSet : Base<CVSet, VSet<Tk>> {
	J content() override { J r = J::arr(); const VSet<Tk> &c = s; for (int i = 0; i < s.size(); i++) r.add(kv(c[i].v, 0)); return r; }
	J call(const std::string &f, const J &a, Cont *) override {
		int k = a[1].i();
		F("ins") { s.insert(Tk(k)); return kv(k, 0); }
		F("has") return J(s.has(Tk(k)));
		F("erase") { bool h = s.has(Tk(k)); s.erase(Tk(k)); return J(h); }
		F("get") { int i = s.find(Tk(k)); return i < 0 ? J("none") : kv(((const VSet<Tk> &)s)[i].v, 0); }
		F("size") return J::arr().add(J(s.size())).add(J(s.empty()));
		return "?";
	}
};
template <class H> struct CHm : Base<CHm<H>, HashMap<int, Tk, H>> {
	using Base<CHm<H>, HashMap<int, Tk, H>>::s; typedef typename HashMap<int, Tk, H>::Element El;
	J content() override {
		J r = J::arr(), b = J::arr(), c = J::arr(); int n = 0; for (El *e = s.front(); e && n < 9999; e = e->next, n++) r.add(kv(e->key(), e->value().v));
		n = 0; for (El *e = s.back(); e && n < 9999; e = e->prev, n++) b.a.insert(b.a.begin(), kv(e->key(), e->value().v));
		n = 0; for (const int *k = s.next(nullptr); k && n < 9999; k = s.next(k), n++) c.add(kv(*k, s.get(*k).v));
		List<int> l; s.get_key_list(&l); bool ok = l.size() == (int)r.a.size(); n = 0; for (List<int>::Element *e = l.front(); e && ok; e = e->next(), n++) ok = e->get() == r[n][0].i();
		b.t = J::ARR; if (!ok || r.dump() != b.dump() || r.dump() != c.dump() || r.a.size() != s.size() || s.empty() != r.a.empty()) return J::obj().set("fwd", r).set("bwd", b).set("next", c);
		return r;
	}
	static J el(const El *e) { return e ? kv(e->key(), e->value().v) : J("none"); }
	J call(const std::string &f, const J &a, Cont *) override {
		int k = a[1].i(); const HashMap<int, Tk, H> &c = s;
		F("ins") return el(s.insert(k, Tk(a[2].i())));
		F("insf") return el(s.insert(k, Tk(a[2].i()), true));
		F("ref") { s[k] = Tk(a[2].i()); RETOK; }
		F("touch") return j(s[k]);
		F("has") return J(s.has(k));
		F("erase") return J(s.erase(k));
		F("get") { const Tk *p = c.getptr(k); Tk *q = s.getptr(k); const El *e = c.find(k); const El *g = c.get_element(k); if (p != q || e != g || (e && &e->value() != p) || !e != !p) return "differ"; if (p && (!(c.get(k) == *p) || !(c[k] == *p))) return "differ"; return el(e); }
		F("step") { const El *e = s.find(k); return J::arr().add(el(e->next)).add(el(e->prev)); }
		F("reserve") { s.reserve(k); return J((int)s.get_capacity() >= k); }
		F("size") return J::arr().add(J((int)s.size())).add(J(s.empty()));
		F("clear") { s.clear(); RETOK; }
		return "?";
	}
};
template <class H> struct CHs : Base<CHs<H>, HashSet<Tk, H>> {
	using Base<CHs<H>, HashSet<Tk, H>>::s; typedef typename HashSet<Tk, H>::Iterator It;
	J content() override {
		J r = J::arr(), b = J::arr(); int n = 0; for (It i = s.begin(); i && n < 9999; ++i, n++) r.add(kv(i->v, 0));
		n = 0; for (It i = s.last(); i && n < 9999; --i, n++) b.a.insert(b.a.begin(), kv((*i).v, 0));
		b.t = J::ARR; if (r.dump() != b.dump() || r.a.size() != s.size() || s.is_empty() != r.a.empty()) return J::obj().set("fwd", r).set("bwd", b);
		return r;
	}
	J call(const std::string &f, const J &a, Cont *) override {
		int k = a[1].i();
		F("ins") return kv(s.insert(Tk(k)).key().v, 0);
		F("has") return J(s.has(Tk(k)));
		F("erase") return J(s.erase(Tk(k)));
		F("remove") { It i = s.find(Tk(k)); bool h = i.valid(); s.remove(i); return J(h); }
		F("get") { It i = s.find(Tk(k)); return i == s.end() ? J("none") : kv(i->v, 0); }
		F("reserve") { s.reserve(k); return J((int)s.get_capacity() >= k); }
		F("reset") { s.reset(); RETOK; }
		F("size") return J::arr().add(J((int)s.size())).add(J(s.is_empty()));
		F("clear") { s.clear(); RETOK; }
		return "?";
	}
};
template <class H> struct COg : Base<COg<H>, OGHashMap<int, Tk, H>> { // unordered: listed by key
	using Base<COg<H>, OGHashMap<int, Tk, H>>::s; typedef OGHashMap<int, Tk, H> M; typedef typename M::Element El;
	static J sorted(std::vector<std::pair<int, int>> v) { std::sort(v.begin(), v.end()); J r = J::arr(); for (auto &p : v) r.add(kv(p.first, p.second)); return r; }
	J content() override {
		std::vector<std::pair<int, int>> v, w, l; int n = 0; for (const int *k = s.next(nullptr); k && n < 9999; k = s.next(k), n++) v.push_back({ *k, s.get(*k).v });
		std::vector<const typename M::Pair *> ps(s.size() + 1); if (s.size()) s.get_key_value_ptr_array(ps.data()); for (unsigned i = 0; i < s.size(); i++) w.push_back({ ps[i]->key, ps[i]->data.v });
		List<int> kl; s.get_key_list(&kl); for (List<int>::Element *e = kl.front(); e; e = e->next()) l.push_back({ e->get(), s.get(e->get()).v });
		J r = sorted(v); if (r.dump() != sorted(w).dump() || r.dump() != sorted(l).dump() || r.a.size() != s.size() || s.empty() != r.a.empty()) return J::obj().set("next", r).set("ptrs", sorted(w)).set("keys", sorted(l));
		return r;
	}
	static J el(const El *e) { return e ? kv(e->key(), e->value().v) : J("none"); }
	J call(const std::string &f, const J &a, Cont *) override {
		int k = a[1].i(); const M &c = s;
		F("ins") return el(s.set(k, Tk(a[2].i())));
		F("ref") { s[k] = Tk(a[2].i()); RETOK; }
		F("touch") return j(s[k]);
		F("has") return J(s.has(k));
		F("erase") return J(s.erase(k));
		F("get") { const Tk *p = c.getptr(k); Tk *q = s.getptr(k); const El *e = c.find(k), *g = s.find(k); if (p != q || e != g || (e && &e->value() != p) || !e != !p) return "differ"; if (p && (!(c.get(k) == *p) || !(c[k] == *p))) return "differ"; return el(e); }
		F("size") return J::arr().add(J((int)s.size())).add(J(s.empty()));
		F("clear") { s.clear(); RETOK; }
		return "?";
	}
};
template <class H> struct COh : Base<COh<H>, OrderedHashMap<int, Tk, H>> {
	using Base<COh<H>, OrderedHashMap<int, Tk, H>>::s; typedef OrderedHashMap<int, Tk, H> M; typedef typename M::Element El; typedef typename M::ConstElement CEl;
	J content() override {
		J r = J::arr(), b = J::arr(); const M &c = s; int n = 0; for (El e = s.front(); e && n < 9999; e = e.next(), n++) r.add(kv(e.key(), e.value().v));
		n = 0; for (CEl e = c.back(); e && n < 9999; e = e.prev(), n++) b.a.insert(b.a.begin(), kv(e.key(), e.value().v));
		b.t = J::ARR; if (r.dump() != b.dump() || (int)r.a.size() != s.size() || s.empty() != r.a.empty()) return J::obj().set("fwd", r).set("bwd", b);
		return r;
	}
	static J el(CEl e) { return e ? kv(e.key(), e.value().v) : J("none"); } static J el(El e) { return e ? kv(e.key(), e.value().v) : J("none"); }
	J call(const std::string &f, const J &a, Cont *) override {
		int k = a[1].i(); const M &c = s;
		F("ins") return el(s.insert(k, Tk(a[2].i())));
		F("ref") { s[k] = Tk(a[2].i()); RETOK; }
		F("touch") return j(s[k]);
		F("has") return J(s.has(k));
		F("erase") return J(s.erase(k));
		F("erasee") { El e = s.find(k); if (!e) return J(false); s.erase(e); return J(!e); }
		F("get") { El e = s.find(k); CEl g = c.find(k); if (el(e).dump() != el(g).dump()) return "differ"; if (e && !(c[k] == e.value())) return "differ"; return el(g); }
		F("step") { El e = s.find(k); return J::arr().add(el(e.next())).add(el(e.prev())); }
		F("size") return J::arr().add(J(s.size())).add(J(s.empty()));
		F("clear") { s.clear(); RETOK; }
		return "?";
	}
};
static std::map<std::string, std::unique_ptr<Cont>> CS;
void dom_reset() { if (!MemoryPool::allocs) SFWCore::setup(); CS.clear(); Tk::live = Tk::bad = 0; }
J dom_state() {
	J s = J::obj();
	for (auto &p : CS) s.set(p.first, p.second->state());
	// instances: none is destroyed twice or used after destruction; how many live, and how much pooled storage
	return s.set("%", J::obj().set("bad", J(Tk::bad)).set("live", J(Tk::live)).set("pool", J((int)MemoryPool::allocs_used)));
}
static Cont *make(const std::string &k) {
	Cont *c = nullptr;
	if (k == "vec") c = new CVec<int>; else if (k == "vec.t") c = new CVec<Tk>; else if (k == "pool") c = new CPool<int>; else if (k == "pool.t") c = new CPool<Tk>;
	else if (k == "lvec") c = new CLoc<int, LocalVector<int>>; else if (k == "lvec.t") c = new CLoc<Tk, LocalVector<Tk>>; else if (k == "tvec") c = new CLoc<int, TightLocalVector<int>>; else if (k == "tvec.t") c = new CLoc<Tk, TightLocalVector<Tk>>;
	else if (k == "list") c = new CList<int>; else if (k == "list.t") c = new CList<Tk>; else if (k == "ring") c = new CRing;
	else if (k == "rbmap") c = new CRbMap; else if (k == "rbset") c = new CRbSet; else if (k == "vmap") c = new CVMap; else if (k == "vset") c = new CVSet;
	else if (k == "hmap") c = new CHm<HG>; else if (k == "hmap.c") c = new CHm<H3>; else if (k == "hmap.0") c = new CHm<H0>;
	else if (k == "hset") c = new CHs<HG>; else if (k == "hset.c") c = new CHs<H3>; else if (k == "hset.0") c = new CHs<H0>;
	else if (k == "oghash") c = new COg<HG>; else if (k == "oghash.c") c = new COg<H3>; else if (k == "ohash") c = new COh<HG>; else if (k == "ohash.c") c = new COh<H3>;
	c->k = k; return c;
}
OP("Q.new") { CS[a[0].s].reset(make(a[1].s)); if (a[1].s == "ring") CS[a[0].s]->call("resize", J::arr().add("").add(a[2]), nullptr); return "ok"; }
OP("Q.copy") { Cont *c = CS[a[1].s]->clone(); CS[a[0].s].reset(c); return "ok"; }
OP("Q.assign") { CS[a[0].s]->assign(CS[a[1].s].get()); return "ok"; }
OP("Q.del") { CS.erase(a[0].s); return "ok"; }
OP("Q.append") { return CS[a[0].s]->call("append", a, CS[a[1].s].get()); }
// conversions between sequence kinds: dst (new slot), src, kind
OP("Q.conv") {
	Cont *c = CS[a[1].s].get(); Cont *d = make(a[2].s); std::string f = c->k, t = a[2].s;
	auto *li = dynamic_cast<CLoc<int, LocalVector<int>> *>(c); auto *ti = dynamic_cast<CLoc<int, TightLocalVector<int>> *>(c); auto *vi = dynamic_cast<CVec<int> *>(c); auto *pi = dynamic_cast<CPool<int> *>(c);
	if (t == "vec") ((CVec<int> *)d)->s = li ? Vector<int>(li->s) : Vector<int>(ti->s);
	else if (t == "pool") ((CPool<int> *)d)->s = li ? PoolVector<int>(li->s) : PoolVector<int>(ti->s);
	else if (t == "lvec") { if (vi) { LocalVector<int> x(vi->s); ((CLoc<int, LocalVector<int>> *)d)->s = vi->s; if (x.size() != ((CLoc<int, LocalVector<int>> *)d)->s.size()) return "differ"; } else ((CLoc<int, LocalVector<int>> *)d)->s = pi->s; }
	else if (t == "tvec") { if (vi) { TightLocalVector<int> x(vi->s); ((CLoc<int, TightLocalVector<int>> *)d)->s = x; } else ((CLoc<int, TightLocalVector<int>> *)d)->s = pi->s; }
	CS[a[0].s].reset(d); return "ok";
}
// any other call: [slot, name, arguments...]
OP("Q") { J b = a; b.a.erase(b.a.begin()); return CS[a[0].s]->call(a[1].s, b, nullptr); }
// sorting: [array, how, first, last, nth]
struct Kp { int k, id; bool operator<(const Kp &o) const { return k < o.k; } };
OP("Q.sortarr") {
	std::vector<Kp> v; for (auto &x : a[0].a) v.push_back(Kp{ x[0].i(), x[1].i() }); v.push_back(Kp{ 0, -1 });
	SortArray<Kp> s; int n = (int)v.size() - 1; std::string h = a[1].s;
	if (h == "sort") s.sort(v.data(), n); else if (h == "range") s.sort_range(a[2].i(), a[3].i(), v.data()); else if (h == "nth") s.nth_element(a[2].i(), a[3].i(), a[4].i(), v.data());
	else if (h == "deep") { s.introselect(a[2].i(), a[4].i(), a[3].i(), v.data(), 0); } else if (h == "heap") { s.make_heap(a[2].i(), a[3].i(), v.data()); s.sort_heap(a[2].i(), a[3].i(), v.data()); }
	else if (h == "partial") s.partial_sort(a[2].i(), a[3].i(), a[4].i(), v.data()); else if (h == "intro") s.introsort(a[2].i(), a[3].i(), v.data(), a[4].i());
	J r = J::arr(); for (int i = 0; i < n; i++) r.add(kv(v[i].k, v[i].id)); return v[n].id == -1 ? r : J("overrun");
}
