// Small property-based testing engine: choice sequences, fork per case, shrinking, replay.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>

namespace pbt {

struct Shared; // one per worker, in shared memory; survives a crash of the case

class Ctx {
public:
	Ctx(Shared *s, bool replay, uint64_t seed, bool thorough) : sh(s), replay_(replay), rng(seed), thorough(thorough) {}
	// ---- choices; 0 is always the simplest ----
	uint64_t below(uint64_t n);
	int range(int lo, int hi) { return lo + (int) below((uint64_t) (hi - lo) + 1); }
	bool chance(int num, int den) { return (int) below(den) >= den - num; }
	double unit() { return below(1 << 20) / (double) (1 << 20); }            // [0,1)
	double real(double lo, double hi) { return lo + (hi - lo) * unit(); }
	double logreal(double lo, double hi) { return lo * std::pow(hi / lo, unit()); }
	template <class T> T pick(std::initializer_list<T> l) { return l.begin()[below(l.size())]; }
	// ---- reporting ----
	void note(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
	void label(const char *name);
	void nontrivial() ;
	void count(uint64_t n);                                                  // oracle comparisons made
	void exclude(const char *why);                                           // counted, case goes on
	[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
	[[noreturn]] void discard(const char *why);
	void digest(const void *p, size_t n);
	bool thor() const { return thorough; }
private:
	uint64_t next();
	Shared *sh; bool replay_; uint64_t rng; bool thorough;
};

struct Stop { int status; };

typedef void (*PropFn)(Ctx &);

struct Prop {
	const char *id;
	PropFn fn;
	long quick, thorough;       // cases
	const char *rule;           // how cases are made, what is non-trivial
	std::vector<const char *> assumptions;
	int cpu_s = 60;             // per case
};

struct Known {                  // a listed genuine defect: fixed input, re-tried on every run
	const char *property, *what;
	PropFn fn;                  // fails (ctx.fail) while the defect is there
};

std::vector<Prop> &props();
std::vector<Known> &knowns();
struct Reg { Reg(const Prop &p) { props().push_back(p); } };
struct RegK { RegK(const Known &k) { knowns().push_back(k); } };

} // namespace pbt
