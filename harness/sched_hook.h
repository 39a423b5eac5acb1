// Force-included before everything when a driver is built for controlled scheduling: the synchronisation
// primitives of the standard library that the sources name are replaced by ones with the same meaning whose
// every step is a scheduling point, so that the real code runs under schedules chosen by the harness.
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <cassert>
#include <chrono>
#include <cmath>
#include <condition_variable>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <future>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <random>
#include <set>
#include <shared_mutex>
#include <sstream>
#include <string>
#include <thread>
#include <tuple>
#include <unordered_map>
#include <vector>
#include <semaphore.h>
namespace vs {
bool me(); // is this thread under control
int self();
void point(); // another thread may run here
void block(const void *what); // not runnable until somebody wakes it
void wake(const void *what);
bool spurious(); // may a weak compare-exchange fail here
}
namespace std {
template <class T> class vatomic {
	atomic<T> v;
public:
	vatomic() noexcept = default;
	constexpr vatomic(T x) noexcept : v(x) {}
	vatomic(const vatomic &) = delete; vatomic &operator=(const vatomic &) = delete;
	T load(memory_order m = memory_order_seq_cst) const noexcept { vs::point(); return v.load(m); }
	void store(T x, memory_order m = memory_order_seq_cst) noexcept { vs::point(); v.store(x, m); vs::wake(this); }
	operator T() const noexcept { return load(); }
	T operator=(T x) noexcept { store(x); return x; }
	T exchange(T x, memory_order m = memory_order_seq_cst) noexcept { vs::point(); return v.exchange(x, m); }
	bool compare_exchange_weak(T &e, T d, memory_order m = memory_order_seq_cst) noexcept { vs::point(); if (vs::spurious()) { e = v.load(); return false; } return v.compare_exchange_strong(e, d, m); }
	bool compare_exchange_weak(T &e, T d, memory_order m, memory_order f) noexcept { return compare_exchange_weak(e, d, m); }
	bool compare_exchange_strong(T &e, T d, memory_order m = memory_order_seq_cst) noexcept { vs::point(); return v.compare_exchange_strong(e, d, m); }
	bool compare_exchange_strong(T &e, T d, memory_order m, memory_order f) noexcept { return compare_exchange_strong(e, d, m); }
	T fetch_add(T x, memory_order m = memory_order_seq_cst) noexcept { vs::point(); return v.fetch_add(x, m); }
	T fetch_sub(T x, memory_order m = memory_order_seq_cst) noexcept { vs::point(); return v.fetch_sub(x, m); }
	T fetch_or(T x, memory_order m = memory_order_seq_cst) noexcept { vs::point(); return v.fetch_or(x, m); }
	T fetch_and(T x, memory_order m = memory_order_seq_cst) noexcept { vs::point(); return v.fetch_and(x, m); }
	T fetch_xor(T x, memory_order m = memory_order_seq_cst) noexcept { vs::point(); return v.fetch_xor(x, m); }
	T operator++() noexcept { return fetch_add(1) + 1; } T operator++(int) noexcept { return fetch_add(1); }
	T operator--() noexcept { return fetch_sub(1) - 1; } T operator--(int) noexcept { return fetch_sub(1); }
	T operator+=(T x) noexcept { return fetch_add(x) + x; } T operator-=(T x) noexcept { return fetch_sub(x) - x; }
	bool is_lock_free() const noexcept { return true; }
};
typedef vatomic<bool> vatomic_bool; typedef vatomic<int> vatomic_int; typedef vatomic<unsigned> vatomic_uint;
struct vatomic_flag {
	bool v = false;
	vatomic_flag() = default; constexpr vatomic_flag(int x) : v(x) {}
	// a failed attempt to take a flag waits for somebody to clear it: a spinning thread makes no other progress
	bool test_and_set(memory_order = memory_order_seq_cst) noexcept { if (!vs::me()) return __atomic_test_and_set(&v, __ATOMIC_SEQ_CST); vs::point(); if (v) { vs::block(this); return true; } v = true; return false; }
	void clear(memory_order = memory_order_seq_cst) noexcept { if (!vs::me()) { __atomic_clear(&v, __ATOMIC_SEQ_CST); return; } vs::point(); v = false; vs::wake(this); }
};
template <class REAL, bool REC> struct vmutexT {
	REAL real; int owner = -1, count = 0;
	void lock() { if (!vs::me()) { real.lock(); return; } vs::point(); while (count && !(REC && owner == vs::self())) vs::block(this); owner = vs::self(); count++; }
	bool try_lock() { if (!vs::me()) return real.try_lock(); vs::point(); if (count && !(REC && owner == vs::self())) return false; owner = vs::self(); count++; return true; }
	void unlock() { if (!vs::me()) { real.unlock(); return; } vs::point(); if (owner != vs::self() || !count) { fprintf(stderr, "unlock of a mutex that is not held\n"); abort(); } if (!--count) { owner = -1; vs::wake(this); } }
};
typedef vmutexT<mutex, false> vmutex; typedef vmutexT<recursive_mutex, true> vrecursive_mutex; typedef vmutexT<timed_mutex, false> vtimed_mutex; typedef vmutexT<recursive_timed_mutex, true> vrecursive_timed_mutex;
struct vshared_timed_mutex {
	shared_timed_mutex real; int writer = -1, readers = 0;
	void lock() { if (!vs::me()) { real.lock(); return; } vs::point(); while (writer >= 0 || readers) vs::block(this); writer = vs::self(); }
	bool try_lock() { if (!vs::me()) return real.try_lock(); vs::point(); if (writer >= 0 || readers) return false; writer = vs::self(); return true; }
	void unlock() { if (!vs::me()) { real.unlock(); return; } vs::point(); if (writer != vs::self()) { fprintf(stderr, "write unlock of a lock that is not held\n"); abort(); } writer = -1; vs::wake(this); }
	void lock_shared() { if (!vs::me()) { real.lock_shared(); return; } vs::point(); while (writer >= 0) vs::block(this); readers++; }
	bool try_lock_shared() { if (!vs::me()) return real.try_lock_shared(); vs::point(); if (writer >= 0) return false; readers++; return true; }
	void unlock_shared() { if (!vs::me()) { real.unlock_shared(); return; } vs::point(); if (!readers) { fprintf(stderr, "read unlock of a lock that is not held\n"); abort(); } readers--; vs::wake(this); }
};
typedef vshared_timed_mutex vshared_mutex;
struct vcondition_variable {
	condition_variable_any real;
	template <class L> void wait(L &l) { if (!vs::me()) { real.wait(l); return; } l.unlock(); vs::block(this); l.lock(); }
	template <class L, class P> void wait(L &l, P p) { while (!p()) wait(l); }
	void notify_one() { if (!vs::me()) { real.notify_one(); return; } vs::point(); vs::wake(this); }
	void notify_all() { if (!vs::me()) { real.notify_all(); return; } vs::point(); vs::wake(this); }
};
typedef vcondition_variable vcondition_variable_any;
}
#define atomic vatomic
#define atomic_bool vatomic_bool
#define atomic_int vatomic_int
#define atomic_uint vatomic_uint
#define atomic_flag vatomic_flag
#define mutex vmutex
#define recursive_mutex vrecursive_mutex
#define timed_mutex vtimed_mutex
#define recursive_timed_mutex vrecursive_timed_mutex
#define shared_timed_mutex vshared_timed_mutex
#define shared_mutex vshared_mutex
#define condition_variable vcondition_variable
#define condition_variable_any vcondition_variable_any
