// Choice-sequence property-based testing engine (Hypothesis-style).
// Every case is a pure function of a finite sequence of bounded choices; choices are
// drawn from a PRNG seeded by (seed, sub-property, case index), or replayed from a file.
// Cases run in forked workers so that crashes, sanitizer reports, assertion failures and
// hangs are attributed to a case; failures are shrunk over the choice sequence.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace pbt {

struct Failure { std::string tag, msg; };
struct Discard { };

class Ctx {
public:
	// --- choices. 0 is always the simplest choice.
	uint64_t draw(uint64_t n);                       // uniform in [0,n)
	int range(int lo, int hi) { return lo + (int)draw((uint64_t)(hi - lo) + 1); } // inclusive
	bool chance(unsigned num, unsigned den) { return draw(den) >= den - num && num > 0; } // 0 => false
	unsigned weighted(std::initializer_list<unsigned> w);  // index by weight
	template <class T> const T &pick(const std::vector<T> &v) { return v[draw(v.size())]; }
	size_t small(size_t max);                        // geometric-ish length, mostly small

	// --- verdicts
	[[noreturn]] void fail(const std::string &tag, const std::string &msg);
	void check(bool ok, const char *tag, const std::string &msg) { if (!ok) fail(tag, msg); }
	[[noreturn]] void discard() { throw Discard(); }
	void nontrivial() { nontriv = true; }
	void count(const std::string &label) { counters.insert(label); }
	// description of the case; only evaluated for samples and replays
	template <class F> void describe(F f) { if (want_desc) { std::ostringstream o; f(o); if (verbose) { printf("case: %s\n", o.str().c_str()); fflush(stdout); } desc += o.str(); desc += "\n"; } }
	void note(const std::string &s) { desc += s; desc += "\n"; }

	// --- engine state
	bool replaying = false;
	std::vector<uint64_t> rep;
	size_t pos = 0;
	uint64_t rng[4] = {0,0,0,0};
	uint64_t *shm = nullptr; size_t shm_cap = 0; uint64_t *shm_n = nullptr;
	std::vector<uint64_t> rec;
	bool nontriv = false, want_desc = false, verbose = false;
	int tier = 0;                                    // 0 quick, 1 thorough
	std::set<std::string> counters;
	std::string desc;
	std::string scratch;                             // per-worker scratch directory
	uint64_t case_hash() const;
private:
	uint64_t next();
};

typedef void (*CaseFn)(Ctx &);
struct Sub { const char *name; CaseFn fn; unsigned weight; const char *rule; };
void add(const char *name, unsigned weight, CaseFn fn, const char *rule);
struct Reg { Reg(const char *n, unsigned w, CaseFn f, const char *rule) { add(n, w, f, rule); } };

// optional hook: run once in the parent before any worker is forked
extern void (*global_setup)(const std::string &scratch);

std::string show(const std::string &bytes);          // printable, escaped

} // namespace pbt

#define PBT_CASE(NAME, WEIGHT, RULE) \
	static void case_##NAME(pbt::Ctx &c); \
	static pbt::Reg reg_##NAME(#NAME, WEIGHT, case_##NAME, RULE); \
	static void case_##NAME(pbt::Ctx &c)
