// Signals: connections are read back through a subclass, callbacks run little programs.
#include "drv.h"
#include "platform/sfw.h"
#include <map>
#include <memory>
#include <vector>
struct Obs { int n; };
static Obs obs[3] = { { 0 }, { 1 }, { 2 } };
static J LOG; static std::vector<std::pair<std::string, J>> PR;
static std::string nameof(Signal *s); static void act(const J &a);
static std::map<Object *, std::string> EM; static Object *em(const std::string &n) { for (auto &p : EM) if (p.second == n) return p.first; Object *o = memnew(Object); EM[o] = n; return o; }
static J params(Signal *s) { J r = J::arr(); for (int i = 0; i < s->params.size(); i++) r.add(s->params[i].get_type() == Variant::INT ? J((int)s->params[i]) : J("?")); return r; }
static void hit(const std::string &c, Signal *s) {
	J e = J::arr(); std::string en = EM.count(s->emitter) ? EM[s->emitter] : "?"; J ps = params(s);
	e.add(c).add(nameof(s)).add(en).add(ps); LOG.add(e); int at = LOG.size() - 1;
	for (size_t i = 0; i < PR.size(); i++) if (PR[i].first == c) { J p = PR[i].second; PR.erase(PR.begin() + i); for (auto &x : p.a) act(x); break; }
	// what this callback sees must not change under it
	if (params(s).dump() != ps.dump() || (EM.count(s->emitter) ? EM[s->emitter] : "?") != en) LOG.a[at].add("changed");
}
static void s0(Signal *s) { hit("s0", s); }
static void s1(Signal *s) { hit("s1", s); }
static void s2(Signal *s) { hit("s2", s); }
static void m0(Obs *o, Signal *s) { hit("o" + std::to_string(o->n) + "m0", s); }
static void m1(Obs *o, Signal *s) { hit("o" + std::to_string(o->n) + "m1", s); }
typedef void (*SF)(Signal *); typedef void (*MF)(Obs *, Signal *);
static SF sf(const std::string &c) { return c[1] == '0' ? s0 : c[1] == '1' ? s1 : s2; }
static MF mf(const std::string &c) { return c[3] == '0' ? m0 : m1; }
struct TS : Signal {
	J list() { J r = J::arr(); for (int i = 0; i < entries.size(); i++) { SignalEntry *e = entries[i]; if (e->type == SIGNAL_ENTRY_TYPE_STATIC) { SF f = ((StaticSignalEntry *)e)->func; r.add(f == s0 ? "s0" : f == s1 ? "s1" : f == s2 ? "s2" : "?"); } else { auto *c = (ClassSignalEntrySpec<Obs> *)e; r.add(c->obj >= obs && c->obj < obs + 3 ? "o" + std::to_string(c->obj->n) + (c->func == m0 ? "m0" : c->func == m1 ? "m1" : "?") : "?"); } } return r; }
};
static std::map<std::string, std::unique_ptr<TS>> S;
static Ref<Resource> RES; // the slot "res" is the changed signal of a resource
static Signal &g(const std::string &n) { return n == "res" ? RES->changed : *S[n]; }
static std::string nameof(Signal *s) { for (auto &p : S) if (p.second.get() == s) return p.first; if (RES.is_valid() && s == &RES->changed) return "res"; return "?"; }
void dom_reset() { if (!MemoryPool::allocs) SFWCore::setup(); S.clear(); for (auto &p : EM) memdelete(p.first); EM.clear(); RES.unref(); LOG = J::arr(); PR.clear(); }
J dom_state() { J r = J::obj(); for (auto &p : S) r.set(p.first, p.second->list()); if (RES.is_valid()) r.set("res", ((TS *)&RES->changed)->list()); return r; }
static void con(const std::string &s, const std::string &c) { if (c[0] == 's') g(s).connect_static(sf(c)); else g(s).connect(&obs[c[1] - '0'], mf(c)); }
static void dis(const std::string &s, const std::string &c) { if (c[0] == 's') g(s).disconnect_static(sf(c)); else g(s).disconnect(&obs[c[1] - '0'], mf(c)); }
static void emi(const std::string &s, const std::string &e, const J &p) {
	Signal &x = g(s);
	if (s == "res") { EM[RES.ptr()] = e; RES->emit_changed(); return; }
	Object *o = em(e); Variant v[5]; for (int i = 0; i < p.size() && i < 5; i++) v[i] = p[i].i();
	switch (p.size()) { case 0: x.emit(o); break; case 1: x.emit(o, v[0]); break; case 2: x.emit(o, v[0], v[1]); break; case 3: x.emit(o, v[0], v[1], v[2]); break; case 4: x.emit(o, v[0], v[1], v[2], v[3]); break; default: x.emit(o, v[0], v[1], v[2], v[3], v[4]); }
}
static void act(const J &a) { if (a[0].s == "c") con(a[1].s, a[2].s); else if (a[0].s == "d") dis(a[1].s, a[2].s); else emi(a[1].s, a[2].s, a[3]); }
OP("S.new") { if (a[0].s == "res") { RES.instance(); return "ok"; } S[a[0].s].reset(new TS); return "ok"; }
OP("S.copy") { if (S.count(a[0].s)) *S[a[0].s] = *S[a[1].s]; else S[a[0].s].reset(new TS(*S[a[1].s])); return "ok"; }
OP("S.del") { S.erase(a[0].s); return "ok"; }
OP("S.connect") { con(a[0].s, a[1].s); return "ok"; }
OP("S.disconnect") { dis(a[0].s, a[1].s); return "ok"; }
OP("S.is") { const std::string &c = a[1].s; return c[0] == 's' ? g(a[0].s).is_connected_static(sf(c)) : g(a[0].s).is_connected(&obs[c[1] - '0'], mf(c)); }
OP("S.emit") { LOG = J::arr(); PR.clear(); for (auto &p : a[3].a) PR.push_back({ p[0].s, p[1] }); emi(a[0].s, a[1].s, a[2]); PR.clear(); if (EM.count(RES.ptr())) EM.erase(RES.ptr()); return LOG; }
