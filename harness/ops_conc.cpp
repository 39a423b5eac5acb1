// Runs small concurrent programs over the real synchronisation classes, names, references and shared containers under
// schedules chosen here (all with few preemptions, or random), and returns the distinct histories of calls and returns.
#include "drv.h"
#include "platform/sfw.h"
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#ifdef VS_FREE // no control: the threads really run at the same time (under the thread sanitizer)
#include <thread>
#include <atomic>
namespace vs { static bool dead = false, rnd = false; static unsigned rng; static std::vector<int> prefix; struct Dec { std::vector<int> opt; int pick; bool pre; }; static std::vector<Dec> decs;
static std::atomic<int> gate{ 0 };
void point() {}
}
extern "C" const char *__tsan_default_options() { return "halt_on_error=1:exitcode=77:history_size=4"; }
namespace vs {
static void run(int threads, std::function<void(int)> body) {
	std::vector<std::thread> ts; gate = 0;
	for (int i = 0; i < threads; i++) ts.emplace_back([&, i]() { gate.fetch_add(1, std::memory_order_relaxed); while (gate.load(std::memory_order_relaxed) < threads) {} body(i); });
	for (auto &t : ts) t.join();
}
}
#else
namespace vs {
enum St { READY, BLOCKED, DONE };
struct Th { sem_t go; St st; const void *on; };
static Th th[8]; static int n = 0, cur = -1; static sem_t back; static thread_local int my = -1;
static bool dead; static long steps;
struct Dec { std::vector<int> opt; int pick; bool pre; };
static std::vector<Dec> decs; static std::vector<int> prefix; static unsigned rng; static bool rnd; static int spin;
bool me() { return my >= 0; }
int self() { return my; }
static unsigned next() { rng = rng * 1664525u + 1013904223u; return rng >> 8; }
bool spurious() { return my >= 0 && rnd && next() % 6 == 0; }
// the running thread hands over to a chosen runnable thread
static void handover(bool canstay) {
	int from = my; std::vector<int> opt;
	if (canstay && th[from].st == READY) opt.push_back(from);
	for (int i = 0; i < n; i++) if (i != from && th[i].st == READY) opt.push_back(i);
	if (opt.empty()) { bool all = true; for (int i = 0; i < n; i++) if (th[i].st != DONE) all = false; if (!all) dead = true; sem_post(&back); if (th[from].st != DONE) for (;;) sem_wait(&th[from].go); return; }
	if (++steps > 200000) { fprintf(stderr, "no progress\n"); abort(); }
	bool stay = opt[0] == from; int k = 0;
	if (stay && ++spin > 300 && opt.size() > 1) { k = 1; spin = 0; } // busy waiting: let somebody else run
	else if (opt.size() > 1) {
		if (rnd) k = stay ? (next() % 3 == 0 ? 1 + next() % (opt.size() - 1) : 0) : next() % opt.size();
		else if (decs.size() < prefix.size()) k = prefix[decs.size()];
		decs.push_back({ opt, k, stay });
	}
	int to = opt[k]; if (to != from) spin = 0;
	if (to == from) return;
	cur = to; sem_post(&th[to].go);
	if (th[from].st != DONE) while (cur != from) sem_wait(&th[from].go);
}
void point() { if (my >= 0) handover(true); }
void block(const void *w) { th[my].st = BLOCKED; th[my].on = w; handover(false); }
void wake(const void *w) { if (my < 0) return; for (int i = 0; i < n; i++) if (th[i].st == BLOCKED && th[i].on == w) th[i].st = READY; }
static void run(int threads, std::function<void(int)> body) {
	n = threads; decs.clear(); dead = false; steps = 0; spin = 0; sem_init(&back, 0, 0);
	for (int i = 0; i < n; i++) { sem_init(&th[i].go, 0, 0); th[i].st = READY; }
	std::vector<std::thread> ts;
	cur = -1;
	for (int i = 0; i < n; i++) ts.emplace_back([&, i]() { while (cur != i) sem_wait(&th[i].go); my = i; body(i); th[i].st = DONE; handover(false); my = -1; });
	cur = 0; sem_post(&th[0].go);
	for (;;) { sem_wait(&back); bool all = true; for (int i = 0; i < n; i++) if (th[i].st != DONE) all = false; if (all || dead) break; }
	if (dead) { for (auto &t : ts) t.detach(); } else for (auto &t : ts) t.join();
	for (int i = 0; i < n && !dead; i++) sem_destroy(&th[i].go);
}
}
#endif
// ---- what the programs work on ----
static int dtors = 0, badn = 0;
class CObj : public Reference { SFW_OBJECT(CObj, Reference); public: unsigned mark = 0xfeed; ~CObj() { if (mark != 0xfeed) badn++; mark = 0; dtors++; } };
class CPlain : public Object { SFW_OBJECT(CPlain, Object); };
struct Cell { int v; Cell() { v = 7; } ~Cell() { v = -1; } };
struct World {
	SafeNumeric<int32_t> num; SafeNumeric<uint64_t> big; SafeFlag flag; SafeRefCount rc; Mutex mut; BinaryMutex bin; SpinLock spin; RWLock rw; int guarded = 0, gx = 0, gy = 0;
	Ref<CObj> ref[4]; ObjectID iid = 0; CPlain *plain = nullptr; ObjectID pid = 0; Variant pv[4]; std::map<int, StringName> nm[4]; Vector<int> vec[4]; PoolVector<int> pv_[4]; RefPtr rp[4]; Variant rv[4]; bool got[4] = {};
	PagedAllocator<Cell, true> pages{ 2 }; std::map<int, Cell *> cell[4];
	~World() { for (auto &m : cell) for (auto &c : m) pages.free(c.second); }
};
#ifdef VS_FREE
#define TICK(c) c.fetch_add(1, std::memory_order_relaxed)
#else
static int ticks; // only one thread runs at a time
#define TICK(c) ticks++
#endif
static World *W; static std::vector<const void *> idents;
static void nonatomic(int &x, int by) { int v = x; vs::point(); vs::point(); x = v + by; }
static J ident(const StringName &s) { char b[32]; if (!s.data_unique_pointer()) return 0; snprintf(b, 32, "#%p", s.data_unique_pointer()); return J(b); } // numbered when the history is put together
static void number(J &r) { if (r.t != J::STR || r.s[0] != '#') return; void *p; sscanf(r.s.c_str() + 1, "%p", &p); for (size_t i = 0; i < idents.size(); i++) if (idents[i] == p) { r = J((int)i + 1); return; } idents.push_back(p); r = J((int)idents.size()); }
static const char *texts[] = { "", "Aa", "BB", "C#", "long_name_with_text", "%unique", "caf\xe9" }; static const int NT = 7; static StringName &nmof(int t, int x); // Aa, BB and C# have the same hash
static J ints(const Vector<int> &v) { J r = J::arr(); for (int i = 0; i < v.size(); i++) r.add(J(v[i])); return r; }
static J ints(const PoolVector<int> &v) { J r = J::arr(); for (int i = 0; i < v.size(); i++) r.add(J(v[i])); return r; }
static StringName &nmof(int t, int x) { return W->nm[t][x]; }
static J exec(int t, const J &o) {
	const std::string &f = o[0].s; int x = o[1].i(), y = o[2].i(); World &w = *W;
	if (f == "n.set") { w.num.set(x); return "ok"; } if (f == "n.get") return w.num.get(); if (f == "n.inc") return w.num.increment(); if (f == "n.pinc") return w.num.postincrement(); if (f == "n.dec") return w.num.decrement(); if (f == "n.pdec") return w.num.postdecrement();
	if (f == "n.add") return w.num.add(x); if (f == "n.padd") return w.num.postadd(x); if (f == "n.sub") return w.num.sub(x); if (f == "n.psub") return w.num.postsub(x); if (f == "n.xgt") return w.num.exchange_if_greater(x); if (f == "n.cinc") return w.num.conditional_increment();
	if (f == "f.set") { w.flag.set(); return "ok"; } if (f == "f.clear") { w.flag.clear(); return "ok"; } if (f == "f.to") { w.flag.set_to(o[1].b); return "ok"; } if (f == "f.get") return w.flag.is_set();
	if (f == "r.ref") return w.rc.ref(); if (f == "r.refval") return w.rc.refval(); if (f == "r.unref") return w.rc.unref(); if (f == "r.unrefval") return w.rc.unrefval(); if (f == "r.get") return w.rc.get();
	if (f == "m.lock") { w.mut.lock(); return "ok"; } if (f == "m.unlock") { w.mut.unlock(); return "ok"; } if (f == "m.try") return w.got[t] = w.mut.try_lock() == OK; if (f == "m.rel") { bool g = w.got[t]; w.got[t] = false; if (g) w.mut.unlock(); return g; } if (f == "m.cs") { MutexLock l(w.mut); MutexLock l2(w.mut); nonatomic(w.guarded, 1); return w.guarded; }
	if (f == "b.lock") { w.bin.lock(); return "ok"; } if (f == "b.unlock") { w.bin.unlock(); return "ok"; } if (f == "b.try") return w.got[t] = w.bin.try_lock() == OK; if (f == "b.rel") { bool g = w.got[t]; w.got[t] = false; if (g) w.bin.unlock(); return g; } if (f == "b.cs") { MutexLock l(w.bin); nonatomic(w.guarded, 1); return w.guarded; }
	if (f == "p.lock") { w.spin.lock(); return "ok"; } if (f == "p.unlock") { w.spin.unlock(); return "ok"; } if (f == "p.cs") { w.spin.lock(); nonatomic(w.guarded, 1); int r = w.guarded; w.spin.unlock(); return r; }
	if (f == "w.rl") { w.rw.read_lock(); return "ok"; } if (f == "w.ru") { w.rw.read_unlock(); return "ok"; } if (f == "w.rt") return w.got[t] = w.rw.read_try_lock() == OK; if (f == "w.rrel") { bool g = w.got[t]; w.got[t] = false; if (g) w.rw.read_unlock(); return g; } if (f == "w.wl") { w.rw.write_lock(); return "ok"; } if (f == "w.wu") { w.rw.write_unlock(); return "ok"; } if (f == "w.wt") return w.got[t] = w.rw.write_try_lock() == OK; if (f == "w.wrel") { bool g = w.got[t]; w.got[t] = false; if (g) w.rw.write_unlock(); return g; }
	if (f == "g.inc") { nonatomic(w.guarded, 1); return w.guarded; } // with a lock held
	if (f == "w.put") { RWLockWrite l(w.rw); nonatomic(w.gx, x); nonatomic(w.gy, x); return w.gx; } if (f == "w.see") { RWLockRead l(w.rw); int p = w.gx; vs::point(); int q = w.gy; return J::arr().add(J(p)).add(J(q)); }
	// names: register x, text y, how
	if (f == "s.make") { StringName s = o[3].s == "str" ? StringName(String(texts[y])) : o[3].s == "static" ? StringName(StaticCString::create(texts[y])) : StringName(texts[y]); w.nm[t][x] = s; return ident(w.nm[t][x]); }
	if (f == "s.copy") { w.nm[t][y] = w.nm[t][x]; return ident(w.nm[t][y]); } if (f == "s.drop") { w.nm[t].erase(x); return "ok"; } if (f == "s.search") { StringName s = o[3].s == "str" ? StringName::search(String(texts[y])) : o[3].s == "wide" ? StringName::search(String(texts[y]).get_data()) : StringName::search(texts[y]); w.nm[t][x] = s; return ident(w.nm[t][x]); }
	if (f == "s.text") { String s = w.nm[t][x]; for (int i = 0; i < NT; i++) if (s == texts[i]) return J(i); return "?"; }
	if (f == "s.eq") { const StringName &p = nmof(t, x), &q = nmof(t, y); if ((p == q) == (p != q) || (p == q) != (q == p) || (p < q && q < p) || (p == q && (p < q || q < p || p.hash() != q.hash()))) return "?"; return p == q; }
	if (f == "s.eqt") { const StringName &p = nmof(t, x); String u = texts[y]; bool a = p == u, b = p == texts[y]; if (a != b || (p != u) == a) return "?"; return a; }
	if (f == "s.alph") return StringName::AlphCompare()(nmof(t, x), nmof(t, y));
	if (f == "s.hash") { const StringName &p = nmof(t, x); String u = p; return p.hash() == (u.empty() ? 0 : u.hash()) && StringName(u).hash() == p.hash(); }
	if (f == "s.some") return (const void *)nmof(t, x) != nullptr;
	if (f == "s.node") return nmof(t, x).is_node_unique_name();
	if (f == "s.ctor") { StringName c(nmof(t, x)); return ident(c); }
	if (f == "s.var") { Variant v(nmof(t, x)); StringName c = v; return ident(c); }
	// references to one counted object: per-thread Ref, RefPtr, Variant
	if (f == "o.copy") { w.rp[t] = w.ref[t].get_ref_ptr(); return w.ref[t].is_valid(); } if (f == "o.var") { w.rv[t] = w.ref[t]; return w.ref[t].is_valid(); } if (f == "o.take") { w.ref[t] = w.rv[t]; return w.ref[t].is_valid(); }
	if (f == "o.drop") { w.ref[t].unref(); return "ok"; } if (f == "o.dropp") { w.rp[t].unref(); return "ok"; } if (f == "o.dropv") { w.rv[t] = Variant(); return "ok"; } if (f == "o.find") return ObjectDB::get_instance(w.iid) != nullptr;
	// Variants of one plain object
	if (f == "v.make") { w.pv[t] = (Object *)w.plain; return w.pv[t].get_object_instance_id() == w.pid && (Object *)w.pv[t] == w.plain; } if (f == "v.drop") { w.pv[t] = Variant(); return "ok"; } if (f == "v.new") { CPlain *p = memnew(CPlain); ObjectID i = p->get_instance_id(); bool ok = ObjectDB::get_instance(i) == p; memdelete(p); return ok && !ObjectDB::get_instance(i); }
	// vectors sharing storage
	if (f == "c.write") { if (x < w.vec[t].size()) w.vec[t].write[x] = y; return ints(w.vec[t]); } if (f == "c.push") { w.vec[t].push_back(x); return ints(w.vec[t]); } if (f == "c.read") return ints(w.vec[t]); if (f == "c.copy") { Vector<int> c = w.vec[t]; c.push_back(x); return ints(c); } if (f == "c.drop") { w.vec[t] = Vector<int>(); return "ok"; }
	if (f == "d.write") { if (x < w.pv_[t].size()) w.pv_[t].set(x, y); return ints(w.pv_[t]); } if (f == "d.push") { w.pv_[t].push_back(x); return ints(w.pv_[t]); } if (f == "d.read") return ints(w.pv_[t]); if (f == "d.copy") { PoolVector<int> c = w.pv_[t]; c.push_back(x); return ints(c); } if (f == "d.drop") { w.pv_[t] = PoolVector<int>(); return "ok"; }
	// cells of one paged allocator
	if (f == "a.alloc") { Cell *c = w.pages.alloc(); w.cell[t][x] = c; char b[32]; snprintf(b, 32, "#%p", (void *)c); return J(b); } if (f == "a.free") { w.pages.free(w.cell[t][x]); w.cell[t].erase(x); return "ok"; } if (f == "a.put") { w.cell[t][x]->v = y; return "ok"; } if (f == "a.get") return w.cell[t][x]->v;
	return "?";
}
static J once(const J &init, const J &progs) {
	W = new World; World &w = *W; idents.clear(); dtors = badn = 0; int n = progs.size();
	w.num.set(init["n"].i()); w.flag.set_to(init["f"].b); w.rc.init(init["r"].i());
	int pooled = MemoryPool::allocs_used;
	{ Ref<CObj> o; o.instance(); w.iid = o->get_instance_id(); for (int i = 0; i < n; i++) w.ref[i] = o; }
	w.plain = memnew(CPlain); w.pid = w.plain->get_instance_id();
	{ Vector<int> v; v.push_back(1); v.push_back(2); for (int i = 0; i < n; i++) w.vec[i] = v; PoolVector<int> p; p.push_back(1); p.push_back(2); for (int i = 0; i < n; i++) w.pv_[i] = p; }
	// every call and every return takes a number; the number says nothing about the memory order of anything else
	struct Ev { int at, t, k; bool ret; J r; }; std::vector<std::vector<Ev>> log(n); std::atomic<int> clock{ 0 };
	vs::run(n, [&](int t) {
		for (int k = 0; k < progs[t].size(); k++) {
			log[t].push_back({ TICK(clock), t, k, false, J() });
			J r = exec(t, progs[t][k]);
			log[t].push_back({ TICK(clock), t, k, true, r });
		}
	});
	std::map<int, Ev *> order; for (auto &l : log) for (auto &e : l) order[e.at] = &e;
	J h = J::arr(); for (auto &o : order) { Ev &e = *o.second; J x = J::arr().add(J(e.t + 1)).add(J(e.k + 1)); if (e.ret) { number(e.r); x.add(e.r); } h.add(x); }
	if (vs::dead) { fprintf(stderr, "deadlock after %s\n", h.dump().c_str()); abort(); }
	// what is left when everything is released
	memdelete(w.plain); for (int i = 0; i < n; i++) if (w.pv[i].get_type() == Variant::OBJECT && !w.pv[i].is_invalid_object()) badn++;
	delete W; W = nullptr;
	if (badn || dtors != 1 || ObjectDB::get_instance(0) || (int)MemoryPool::allocs_used != pooled) h.add(J::arr().add("left").add(J(badn)).add(J(dtors)).add(J((int)MemoryPool::allocs_used - pooled)));
	for (int i = 1; i < NT; i++) if (StringName::search(texts[i]).data_unique_pointer()) h.add("name left");
	return h;
}
void dom_reset() {}
J dom_state() { return J(); }
// [initial values, one program per thread, ["all", preemptions, most runs] or ["random", seed, runs]]
OP("C.run") {
	std::set<std::string> seen; J out = J::arr(); int runs = 0;
	auto one = [&]() { J h = once(a[0], a[1]); runs++; if (seen.insert(h.dump()).second) out.add(h); return !vs::dead; };
	if (a[2][0].s == "random") { vs::rnd = true; vs::prefix.clear(); for (int i = 0; i < a[2][2].i(); i++) { vs::rng = (unsigned)(a[2][1].i() * 7919 + i * 104729 + 1); if (!one()) break; } return out; }
	vs::rnd = false; int bound = a[2][1].i(), most = a[2][2].i(); vs::prefix.clear();
	for (;;) {
		if (!one() || runs >= most) break;
		// next schedule, depth first, at most `bound` preemptions
		std::vector<vs::Dec> d = vs::decs; bool found = false;
		while (!d.empty() && !found) {
			vs::Dec &l = d.back(); int used = 0; for (size_t i = 0; i + 1 < d.size(); i++) if (d[i].pre && d[i].pick) used++;
			if (l.pick + 1 < (int)l.opt.size() && (!l.pre || used < bound)) { l.pick++; found = true; } else d.pop_back();
		}
		if (!found) break;
		vs::prefix.clear(); for (auto &x : d) vs::prefix.push_back(x.pick);
	}
	return out;
}
// Thread: start, identity, join.  [iterations] -> number of wrong observations per kind
struct Job { std::atomic<int> ran{ 0 }; uint64_t id = 0; bool main = true; int after = 0; };
static void job(void *p) { Job *j = (Job *)p; j->id = Thread::get_caller_id(); j->main = Thread::is_main_thread(); for (volatile int i = 0; i < 2000; i++) {} j->after = 7; j->ran++; }
OP("C.thread") {
	int wid = 0, wmain = 0, wjoin = 0, wstart = 0, wdup = 0;
	for (int i = 0; i < a[0].i(); i++) {
		Job j[3]; Thread t[3]; std::set<uint64_t> ids;
		for (int k = 0; k < 3; k++) { if (t[k].is_started()) wstart++; t[k].start(job, &j[k]); if (!t[k].is_started()) wstart++; ids.insert(t[k].get_id()); }
		if (ids.size() != 3) wdup++;
		uint64_t want[3]; for (int k = 0; k < 3; k++) want[k] = t[k].get_id();
		for (int k = 0; k < 3; k++) { t[k].wait_to_finish(); if (j[k].ran != 1 || j[k].after != 7) wjoin++; if (t[k].is_started()) wstart++; if (j[k].id != want[k]) wid++; if (j[k].main) wmain++; }
		// a finished Thread can be started again
		Job q; t[0].start(job, &q); t[0].wait_to_finish(); if (q.ran != 1) wjoin++;
	}
	if (!Thread::is_main_thread() || Thread::get_caller_id() != Thread::get_main_id()) wmain += 1000;
	return J::arr().add(J(wid)).add(J(wmain)).add(J(wjoin)).add(J(wstart)).add(J(wdup));
}
