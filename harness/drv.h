// Script interpreter that runs operations on the real pmlpp objects and records a trace.
#pragma once
#include "sfw.h"
#include <cmath>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>

struct J {
	enum T { NUL, BOO, NUM, STR, ARR, OBJ } t = NUL;
	bool b = false;
	double n = 0;
	std::string s;
	std::vector<J> a;
	std::vector<std::pair<std::string, J>> o;
	J() {}
	J(bool x) : t(BOO), b(x) {}
	J(int x) : t(NUM), n(x) {}
	J(long x) : t(NUM), n((double)x) {}
	J(unsigned x) : t(NUM), n(x) {}
	J(unsigned long x) : t(NUM), n((double)x) {}
	J(long long x) : t(NUM), n((double)x) {}
	J(double x) : t(NUM), n(x) {}
	J(float x) : t(NUM), n(x) {}
	J(const char *x) : t(STR), s(x) {}
	J(const std::string &x) : t(STR), s(x) {}
	template <class X> J(const std::vector<X> &v) : t(ARR) { for (const X &x : v) a.push_back(J(x)); }
	static J arr() { J j; j.t = ARR; return j; }
	static J obj() { J j; j.t = OBJ; return j; }
	J &add(const J &x) { t = ARR; a.push_back(x); return *this; }
	J &set(const std::string &k, const J &x) { t = OBJ; for (auto &p : o) if (p.first == k) { p.second = x; return *this; } o.emplace_back(k, x); return *this; }
	const J &operator[](int i) const { static J nul; return i >= 0 && i < (int)a.size() ? a[i] : nul; }
	const J &operator[](const char *k) const { static J nul; for (auto &p : o) if (p.first == k) return p.second; return nul; }
	int i() const { return (int)n; }
	double d() const;
	int size() const { return (int)a.size(); }
	std::string dump() const { std::string r; dump(r); return r; }
	void dump(std::string &r) const;
	static J parse(const std::string &s);
};

typedef std::function<J(const J &a)> OpFn;
struct OpReg {
	OpReg(const char *n, OpFn f);
};
#define OP_CAT2(a, b) a##b
#define OP_CAT(a, b) OP_CAT2(a, b)
#define OP(name) \
	static J OP_CAT(op_, __LINE__)(const J &a); \
	static OpReg OP_CAT(opr_, __LINE__)(name, OP_CAT(op_, __LINE__)); \
	static J OP_CAT(op_, __LINE__)([[maybe_unused]] const J &a)

// Hooks a domain file provides
extern void dom_reset(); // drop every object of the previous script
extern J dom_state(); // projection of the abstract state after a call (null: omitted)
extern const char *dom_scratch(); // scratch directory of this process

int op_count(const std::string &n);
