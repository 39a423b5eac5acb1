// Byte pools and paged allocators, read back through their public calls.
#include "drv.h"
#include "platform/sfw.h"
#include <map>
#include <memory>
struct Cell { static int live, bad; int v = 7; unsigned mark = 0xbeef; Cell() { live++; } ~Cell() { if (mark != 0xbeef) bad++; mark = 0; live--; } };
int Cell::live = 0, Cell::bad = 0;
struct Plain { int v; };
struct PoolH {
	std::unique_ptr<PoolAllocator> a; std::unique_ptr<unsigned char, void (*)(void *)> mem{ nullptr, ::free }; unsigned char *base = nullptr; int size, al, max; bool need; std::map<std::string, int> id; std::map<std::string, bool> dead; std::map<std::string, int> lk;
	unsigned char *at(int i) { if (!need) return (unsigned char *)a->get(i); bool w = a->is_locked(i); if (a->lock(i) != OK) return nullptr; unsigned char *p = (unsigned char *)a->get(i); a->unlock(i); (void)w; return p; }
	// how often it is locked: unlock until it is not, and lock it again as often
	int locks(int i) { int k = 0; while (a->is_locked(i) && k < 100) { a->unlock(i); k++; } for (int j = 0; j < k; j++) a->lock(i); return k; }
};
template <class T> struct PageH { std::unique_ptr<PagedAllocator<T>> a; std::map<std::string, T *> c; std::map<T *, int> ids; int ps(); };
static std::unique_ptr<PoolH> P; static std::unique_ptr<PageH<Cell>> GE; static std::unique_ptr<PageH<Plain>> GP; static int PS;
static void drop() { P.reset(); if (GE) { for (auto &c : GE->c) GE->a->free(c.second); GE.reset(); } if (GP) { for (auto &c : GP->c) GP->a->free(c.second); GP.reset(); } }
void dom_reset() { drop(); Cell::live = Cell::bad = 0; }
template <class G> static J page(G &g, bool tr) {
	J r = J::obj(); J c = J::obj(); for (auto &x : g.c) { J e = J::obj(); e.set("id", g.ids[x.second]); e.set("v", x.second->v); c.set(x.first, e); }
	r.set("ps", PS); r.set("tr", tr); r.set("c", c); r.set("seen", (int)g.ids.size()); r.set("n", tr ? 0 : Cell::live); r.set("bad", Cell::bad); return r;
}
J dom_state() {
	J r = J::obj();
	if (P) {
		J p = J::obj(), c = J::obj(), d = J::arr();
		for (auto &x : P->id) { J b = J::obj(), y = J::arr(); int i = x.second; unsigned char *m = P->at(i); int n = P->a->get_size(i); for (int k = 0; k < n && m; k++) y.add((int)m[k]); b.set("pos", m ? (int)(m - P->base) : -1); b.set("len", n); b.set("lk", P->need ? P->locks(i) : 0); b.set("d", y); c.set(x.first, b); }
		for (auto &x : P->dead) d.add(x.first);
		p.set("size", P->size); p.set("al", P->al); p.set("need", P->need); p.set("max", P->max); p.set("c", c); p.set("free", P->a->get_free_mem()); p.set("used", P->a->get_used_mem()); p.set("peak", P->a->get_free_peak()); p.set("dead", d);
		r.set("p", p);
	}
	if (GE) r.set("g", page(*GE, false)); if (GP) r.set("g", page(*GP, true));
	return r;
}
static std::map<std::string, int> old; // the identifiers of freed slots
#define O(n, ...) static OpReg OP_CAT(rg, __COUNTER__)(n, []([[maybe_unused]] const J &a) -> J __VA_ARGS__)
static int ID(const J &s) { return P->id.count(s.s) ? P->id[s.s] : old.count(s.s) ? old[s.s] : -1; }
static const char *W(Error e) { return e == OK ? "ok" : "no"; }
O("A.new", {
	P.reset(new PoolH); old.clear(); PoolH &p = *P; int size = a[1].i(), al = a[2].i(); bool need = a[3].b; p.max = a[4].i(); p.need = need; p.al = al;
	if (a[0].s == "own") { p.a.reset(new PoolAllocator(size, need, p.max)); p.al = 1; }
	else if (a[0].s == "align") p.a.reset(new PoolAllocator(al, size, need, p.max));
	else { int off = a[5].i(); void *raw = nullptr; if (posix_memalign(&raw, 64, size + off)) return "?"; p.mem.reset((unsigned char *)raw); memset(p.mem.get(), 0xee, size + off); unsigned char *m = p.mem.get() + off; p.a.reset(new PoolAllocator(m, size, al, need, p.max)); int d = al > 1 ? (al - off % al) % al : 0; p.base = m + d; }
	p.size = p.a->get_free_mem();
	if (!p.base) { int i = p.a->alloc(size); p.base = p.at(i); p.a->free(i); }
	if (((uintptr_t)p.base) % p.al) return "misaligned";
	return "ok"; });
O("A.alloc", { int i = P->a->alloc(a[1].i()); if (i == -1) return "no"; unsigned char *m = P->at(i); if (!m) return "null"; memset(m, a[2].i(), a[1].i()); P->id[a[0].s] = i; P->dead.erase(a[0].s); return "ok"; });
O("A.free", { bool was = P->id.count(a[0].s); int i = ID(a[0]); if (i == -1) return "ok"; P->a->free(i); if (was && P->at(i) == nullptr) { old[a[0].s] = i; P->id.erase(a[0].s); P->dead[a[0].s] = true; } return "ok"; });
O("A.resize", { int i = ID(a[0]); if (i == -1) return "no"; int n = P->a->get_size(i); Error e = P->a->resize(i, a[1].i()); if (e == OK && a[1].i() > n) { unsigned char *m = P->at(i); if (!m) return "null"; memset(m + n, a[2].i(), a[1].i() - n); } return W(e); });
O("A.lock", { int i = ID(a[0]); if (i == -1) return P->need ? "no" : "ok"; return W(P->a->lock(i)); });
O("A.unlock", { int i = ID(a[0]); if (i != -1) P->a->unlock(i); return "ok"; });
O("A.islocked", { int i = ID(a[0]); return i != -1 && P->a->is_locked(i); });
O("A.get", { int i = ID(a[0]); const PoolAllocator &c = *P->a; if (i == -1) return false; return (P->a->get(i) != nullptr) == (c.get(i) != nullptr) ? J(c.get(i) != nullptr) : J("?"); });
O("A.size", { int i = ID(a[0]); return i == -1 ? 0 : P->a->get_size(i); });
O("A.write", { int i = ID(a[0]); if (i == -1) return "ok"; unsigned char *m = P->at(i); if (m && a[1].i() < P->a->get_size(i)) m[a[1].i()] = a[2].i(); return "ok"; });
#define EACH(g, ...) { if (GE) { auto &g = *GE; __VA_ARGS__ } else { auto &g = *GP; __VA_ARGS__ } }
static int p2(int n) { int k = 1; while (k < n) k *= 2; return k; }
O("G.new", { if (GE) { for (auto &c : GE->c) GE->a->free(c.second); GE.reset(); } if (GP) { for (auto &c : GP->c) GP->a->free(c.second); GP.reset(); } PS = p2(a[1].i()); if (a[0].b) { GP.reset(new PageH<Plain>); GP->a.reset(new PagedAllocator<Plain>(a[1].i())); } else { GE.reset(new PageH<Cell>); GE->a.reset(new PagedAllocator<Cell>(a[1].i())); } return "ok"; });
O("G.alloc", { EACH(g, auto *p = g.a->alloc(); if (GP) p->v = 0; if (!g.ids.count(p)) { int k = g.ids.size() + 1; g.ids[p] = k; } g.c[a[0].s] = p;) return "ok"; });
O("G.put", { EACH(g, g.c[a[0].s]->v = a[1].i();) return "ok"; });
O("G.free", { EACH(g, g.a->free(g.c[a[0].s]); g.c.erase(a[0].s);) return "ok"; });
O("G.reset", { EACH(g, bool live = !g.c.empty(); bool ok = !live || (GP && a[0].b); g.a->reset(a[0].b); if (ok) { g.c.clear(); g.ids.clear(); }) return "ok"; });
O("G.configure", { bool c = false; EACH(g, bool empty = g.ids.empty(); g.a->configure(a[0].i()); c = g.a->is_configured(); if (empty && a[0].i()) PS = p2(a[0].i());) return c; });
