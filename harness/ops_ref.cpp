// Ref, RefPtr, Variant and container ownership of Reference objects; plain Objects and ObjectDB.
#include "drv.h"
#include "platform/sfw.h"
#include <algorithm>
#include <map>
#include <memory>
#include <set>
#include <thread>
#include <vector>
static int bad = 0;
static std::map<int, Object *> live; static std::map<int, ObjectID> everid; static int nextid = 0;
static void born(Object *o, int id) { if (live.count(id)) bad++; live[id] = o; }
static void died(Object *o, int id) { if (!live.count(id) || live[id] != o) bad++; live.erase(id); }
struct Life { int post = 0, pre = 0; void note(int n) { if (n == Object::NOTIFICATION_POSTINITIALIZE) post++; if (n == Object::NOTIFICATION_PREDELETE) pre++; } void end() { if (post != 1 || pre < 1) bad++; } };
class TBase : public Reference {
	SFW_OBJECT(TBase, Reference);
public:
	int id; Life life; Ref<TBase> next; unsigned mark = 0xfeed;
	void _notification(int n) { life.note(n); }
	TBase() { id = nextid; born(this, id); }
	~TBase() { if (mark != 0xfeed) bad++; mark = 0; life.end(); died(this, id); }
};
class TDer : public TBase {
	SFW_OBJECT(TDer, TBase);
public:
	std::string big = std::string(40, 'x');
	~TDer() { if (big.size() != 40) bad++; }
};
class TOth : public Reference {
	SFW_OBJECT(TOth, Reference);
public:
	int id; Life life;
	void _notification(int n) { life.note(n); }
	TOth() { id = nextid; born(this, id); }
	~TOth() { life.end(); died(this, id); }
};
class TPlain : public Object {
	SFW_OBJECT(TPlain, Object);
public:
	int id; bool keep = false; Life life;
	void _notification(int n) { life.note(n); if (n == NOTIFICATION_PREDELETE && keep) cancel_free(); }
	TPlain() { id = nextid; born(this, id); }
	~TPlain() { life.end(); died(this, id); }
};
static int idof(const Object *o) { if (!o) return 0; for (auto &p : live) if (p.second == o) return p.first; return 9999; } // 9999: points at something dead
static int idv(const Variant &v) {
	if (v.get_type() == Variant::NIL) return 0;
	if (v.get_type() != Variant::OBJECT) return 9998;
	Object *o = v;
	if (v.is_invalid_object()) { if (o) return 9997; ObjectID x = v.get_object_instance_id(); for (auto &p : everid) if (p.second == x) return -p.first; return 9996; }
	int i = idof(o); if (i && i < 9000 && v.get_object_instance_id() != everid[i]) return 9995;
	if (i && v.is_ref() != (Object::cast_to<Reference>(o) != nullptr)) return 9994;
	return i;
}
struct Slot { std::string k; Ref<TBase> b; Ref<TDer> d; Ref<TOth> o; REF r; RefPtr p; Variant v; Array a; Vector<Ref<TBase>> l; };
static std::map<std::string, std::unique_ptr<Slot>> S;
static J ids(Slot &s) {
	J r = J::arr();
	if (s.k == "base") r.add(J(idof(s.b.ptr()))); else if (s.k == "der") r.add(J(idof(s.d.ptr()))); else if (s.k == "oth") r.add(J(idof(s.o.ptr()))); else if (s.k == "ref") r.add(J(idof(s.r.ptr())));
	else if (s.k == "ptr") { REF q = s.p; int i = idof(q.ptr()); if (s.p.is_null() != (i == 0)) i = 9993; r.add(J(i)); } else if (s.k == "var") r.add(J(idv(s.v)));
	else if (s.k == "arr") for (int i = 0; i < s.a.size(); i++) r.add(J(idv(s.a[i]))); else for (int i = 0; i < s.l.size(); i++) r.add(J(idof(s.l[i].ptr())));
	return r;
}
static int base_n = -1;
void dom_reset() {
	if (!MemoryPool::allocs) SFWCore::setup();
	S.clear();
	while (!live.empty()) { // cycles and plain objects of the last script
		bool any = false; std::vector<Object *> os; for (auto &p : live) os.push_back(p.second);
		for (Object *o : os) if (TBase *t = Object::cast_to<TBase>(o)) { if (t->next.is_valid() || t->has_meta("m")) { REF h(t); t->next.unref(); t->remove_meta("m"); any = true; break; } } else if (TPlain *q = Object::cast_to<TPlain>(o)) { q->keep = false; memdelete(q); any = true; break; } else if (o->has_meta("m")) { REF h(Object::cast_to<Reference>(o)); o->remove_meta("m"); any = true; break; }
		if (!any) break;
	}
	live.clear(); everid.clear(); bad = 0; base_n = ObjectDB::get_object_count();
}
J dom_state() {
	J s = J::obj(), o = J::arr(), db = J::arr(), rc = J::arr();
	for (auto &p : S) s.set(p.first, J::obj().set("k", p.second->k).set("d", ids(*p.second)));
	int misuse = bad;
	for (auto &p : live) {
		Object *x = p.second; TBase *t = Object::cast_to<TBase>(x);
		if (!ObjectDB::instance_validate(x)) misuse++;
		if (everid.count(p.first) == 0 || x->get_instance_id() != everid[p.first]) misuse++;
		Variant m = x->get_meta("m");
		o.add(J::obj().set("i", p.first).set("c", t ? (Object::cast_to<TDer>(x) ? "Der" : "Base") : Object::cast_to<TOth>(x) ? "Oth" : "Plain").set("nx", t ? idof(t->next.ptr()) : 0).set("mt", idv(m)));
	}
	for (auto &p : live) rc.add(J(Object::cast_to<Reference>(p.second) ? Object::cast_to<Reference>(p.second)->reference_get_count() : -1));
	for (auto &p : everid) if (Object *q = ObjectDB::get_instance(p.second)) db.add(J(live.count(p.first) && live[p.first] == q ? p.first : 9999));
	return J::obj().set("s", s).set("o", o).set("db", db).set("rc", rc).set("n", ObjectDB::get_object_count() - base_n).set("bad", misuse);
}
static Slot &g(const J &n) { return *S[n.s]; }
static void note(int id) { if (live.count(id)) { ObjectID x = live[id]->get_instance_id(); for (auto &p : everid) if (p.second == x) bad++; everid[id] = x; } }
template <class F> static void with(Slot &s, F f) { // run f on the slot's handle
	if (s.k == "base") f(s.b); else if (s.k == "der") f(s.d); else if (s.k == "oth") f(s.o); else if (s.k == "ref") f(s.r); else if (s.k == "ptr") f(s.p); else if (s.k == "var") f(s.v);
}
// every assignment between handle types, written the way a user of the library writes it
template <class A, class B> static void asg(Ref<A> &x, Ref<B> &y) { x = y; }
template <class A> static void asg(Ref<A> &x, RefPtr &y) { x = y; }
template <class A> static void asg(Ref<A> &x, Variant &y) { x = y; }
template <class B> static void asg(RefPtr &x, Ref<B> &y) { x = y.get_ref_ptr(); }
static void asg(RefPtr &x, RefPtr &y) { x = y; }
static void asg(RefPtr &x, Variant &y) { x = y.operator RefPtr(); }
template <class B> static void asg(Variant &x, Ref<B> &y) { x = y; }
static void asg(Variant &x, RefPtr &y) { x = y; }
static void asg(Variant &x, Variant &y) { x = y; }
static Reference *rawp(Slot &s) { Reference *r = nullptr; if (s.k == "base") r = s.b.ptr(); else if (s.k == "der") r = s.d.ptr(); else if (s.k == "oth") r = s.o.ptr(); else if (s.k == "ref") r = s.r.ptr(); else if (s.k == "var") r = Object::cast_to<Reference>((Object *)s.v); else if (s.k == "ptr") { REF q = s.p; r = q.ptr(); } return r; }
static Variant tov(Slot &s) { if (s.k == "base") return s.b; if (s.k == "der") return s.d; if (s.k == "oth") return s.o; if (s.k == "ref") return s.r; if (s.k == "ptr") return s.p; return s.v; }
static Ref<TBase> tob(Slot &s) { Ref<TBase> r; if (s.k == "base") r = s.b; else if (s.k == "der") r = s.d; else if (s.k == "oth") r = s.o; else if (s.k == "ref") r = s.r; else if (s.k == "ptr") r = s.p; else r = s.v; return r; }
OP("R.new") { Slot *s = new Slot; s->k = a[1].s; S[a[0].s].reset(s); return "ok"; }
template <class A> static void mk(Ref<A> &r, const std::string &c, bool inst) {
	if (inst) r.instance(); else if (c == "Base") r = Ref<TBase>(memnew(TBase)); else if (c == "Der") r = Ref<TDer>(memnew(TDer)); else r = Ref<TOth>(memnew(TOth));
}
template <> void mk(REF &r, const std::string &c, bool inst) { if (c == "Base") { if (inst) r.reference_ptr(memnew(TBase)); else r = Ref<TBase>(memnew(TBase)); } else if (c == "Der") { if (inst) r = REF(memnew(TDer)); else r = REF(memnew(TDer)); } else r = REF(memnew(TOth)); }
OP("R.make") {
	Slot &s = g(a[0]); nextid = a[2].i(); std::string c = a[1].s; bool in = a[3].b;
	if (s.k == "base") { if (in && c == "Der") s.b.reference_ptr(memnew(TDer)); else mk(s.b, c, in); } else if (s.k == "der") mk(s.d, c, in); else if (s.k == "oth") mk(s.o, c, in); else if (s.k == "ref") mk(s.r, c, in);
	else if (s.k == "ptr") { REF q; mk(q, c, in); s.p = q.get_ref_ptr(); }
	else if (in) { Object *o; if (c == "Base") o = memnew(TBase); else if (c == "Der") o = memnew(TDer); else o = memnew(TOth); s.v = o; } else { REF q; mk(q, c, false); s.v = q; }
	note(nextid); return "ok";
}
OP("R.set") { Slot &y = g(a[1]); with(g(a[0]), [&](auto &p) { with(y, [&](auto &q) { asg(p, q); }); }); return "ok"; }
OP("R.raw") { // through a bare pointer
	Slot &x = g(a[0]); Reference *p = rawp(g(a[1])); if (!p) return "none";
	if (x.k == "base") x.b.reference_ptr(p); else if (x.k == "der") x.d.reference_ptr(p); else if (x.k == "oth") x.o.reference_ptr(p); else if (x.k == "ref") x.r = REF(p); else if (x.k == "var") x.v = (Object *)p; else { x.p = REF(p).get_ref_ptr(); }
	return "ok";
}
OP("R.cons") {
	Slot &y = g(a[1]); Slot *n = new Slot; n->k = a[2].s;
	// copy construction, kept through the construction of the slot itself for equal kinds
	if (n->k == y.k) { delete n; n = new Slot(y); }
	else with(*n, [&](auto &p) { with(y, [&](auto &q) { asg(p, q); }); });
	S[a[0].s].reset(n); return "ok";
}
OP("R.null") { Slot &s = g(a[0]); if (s.k == "base") s.b.unref(); else if (s.k == "der") s.d = Ref<TDer>(); else if (s.k == "oth") s.o.unref(); else if (s.k == "ref") s.r = REF(); else if (s.k == "ptr") s.p.unref(); else s.v = Variant(); return "ok"; }
OP("R.del") { S.erase(a[0].s); return "ok"; }
OP("R.swap") { Slot &x = g(a[0]), &y = g(a[1]); if (x.k == "base") SWAP(x.b, y.b); else if (x.k == "der") SWAP(x.d, y.d); else if (x.k == "oth") SWAP(x.o, y.o); else if (x.k == "ref") SWAP(x.r, y.r); else if (x.k == "ptr") SWAP(x.p, y.p); else SWAP(x.v, y.v); return "ok"; }
OP("R.nset") { TBase *t = Object::cast_to<TBase>(rawp(g(a[0]))); if (!t) return "none"; Slot &y = g(a[1]); if (y.k == "base") t->next = y.b; else t->next = tob(y); return "ok"; }
OP("R.nget") { Slot &x = g(a[0]); TBase *t = Object::cast_to<TBase>(rawp(g(a[1]))); if (!t) return "none"; with(x, [&](auto &p) { asg(p, t->next); }); return "ok"; }
OP("R.mset") { if (!rawp(g(a[0]))) return "none"; rawp(g(a[0]))->set_meta("m", tov(g(a[1]))); return "ok"; }
OP("R.mget") { if (!rawp(g(a[1]))) return "none"; Variant v = rawp(g(a[1]))->get_meta("m"); with(g(a[0]), [&](auto &p) { asg(p, v); }); return "ok"; }
OP("R.eq") {
	Slot &x = g(a[0]), &y = g(a[1]); bool e, v;
	if (x.k == "base") { e = x.b == y.b; if (e != (x.b == y.b.ptr()) || e == (x.b != y.b) || (e && (x.b < y.b))) return "differ"; v = x.b.is_valid(); } else if (x.k == "der") { e = x.d == y.d; v = !x.d.is_null(); } else if (x.k == "oth") { e = x.o == y.o; v = x.o.is_valid(); }
	else if (x.k == "ref") { e = x.r == y.r; v = x.r.is_valid(); } else if (x.k == "ptr") { e = x.p == y.p; if (e == (x.p != y.p)) return "differ"; v = !x.p.is_null(); } else { int p = idv(x.v), q = idv(y.v); e = p == q; if (p && q && e != (x.v == y.v)) return "differ"; v = (Object *)x.v != nullptr; }
	return J::arr().add(J(e)).add(J(v));
}
OP("R.par") { // several threads copy, convert and drop references to one object
	Slot &x = g(a[0]); if (!rawp(x)) return "none"; int n = a[1].i(), m = a[2].i(); REF src(rawp(x)); std::vector<std::thread> th; std::atomic<int> wrong(0), go(0);
	for (int t = 0; t < n; t++) th.emplace_back([&, t]() {
		go++; while (go < n) {}
		for (int i = 0; i < m; i++) { REF r1 = src; Ref<TBase> r2 = r1; Variant v = r1; RefPtr p = r1.get_ref_ptr(); r1.unref(); REF r3 = v; v = Variant(); if (r3.ptr() != src.ptr() || ObjectDB::get_instance(src.ptr()->get_instance_id()) != src.ptr()) wrong++; Vector<REF> l; l.push_back(r3); l.push_back(r3); Vector<REF> l2 = l; l2.write[0] = REF(); }
	});
	for (auto &t : th) t.join();
	return wrong ? "wrong" : "ok";
}
OP("L.push") { Slot &x = g(a[0]); if (x.k == "arr") x.a.push_back(tov(g(a[1]))); else x.l.push_back(tob(g(a[1]))); return "ok"; }
static int len(Slot &x) { return x.k == "arr" ? x.a.size() : x.l.size(); }
OP("L.set") { Slot &x = g(a[0]); if (a[1].i() >= len(x)) return "none"; if (x.k == "arr") x.a[a[1].i()] = tov(g(a[2])); else x.l.write[a[1].i()] = tob(g(a[2])); return "ok"; }
OP("L.get") { Slot &x = g(a[1]); int i = a[2].i(); if (i >= len(x)) return "none"; with(g(a[0]), [&](auto &p) { if (x.k == "arr") { Variant v = x.a[i]; asg(p, v); } else { Ref<TBase> r = x.l[i]; asg(p, r); } }); return "ok"; }
OP("L.remove") { Slot &x = g(a[0]); if (a[1].i() >= len(x)) return "none"; if (x.k == "arr") x.a.remove(a[1].i()); else x.l.remove(a[1].i()); return "ok"; }
OP("L.clear") { Slot &x = g(a[0]); if (x.k == "arr") x.a.clear(); else x.l.clear(); return "ok"; }
OP("L.copy") { g(a[0]).l = g(a[1]).l; return "ok"; }
OP("O.new") { nextid = a[0].i(); memnew(TPlain); note(nextid); return "ok"; }
static J freeit(int id, bool keep) { if (!live.count(id)) return "none"; TPlain *p = Object::cast_to<TPlain>(live[id]); p->keep = keep; memdelete(p); return live.count(id) ? "kept" : "gone"; }
OP("O.free") { return freeit(a[0].i(), false); }
OP("O.nofree") { return freeit(a[0].i(), true); }
OP("O.var") { if (!live.count(a[1].i())) return "none"; g(a[0]).v = live[a[1].i()]; return "ok"; }
OP("O.mset") { if (!live.count(a[0].i())) return "none"; live[a[0].i()]->set_meta("m", tov(g(a[1]))); return "ok"; }
