// A small property-based testing engine.
//
// A case is a *tape*: a byte string from which a property draws every random
// choice.  prop(Tape&) is a function of the tape and the code under test only.
// Tapes are generated from VERIF_SEED, run in forked workers (so a crash, a
// sanitizer report or a hang is just another kind of failure), shrunk by
// deleting/zeroing/decreasing bytes, and the shrunk tape is the replay file.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <stdexcept>

struct PropFail : std::runtime_error { using std::runtime_error::runtime_error; };
struct PropDiscard {};

std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
#define CHECK(cond, ...) do { if (!(cond)) fail(__VA_ARGS__); } while (0)

class Tape {
public:
	Tape(const uint8_t *d, size_t n) : d_(d), n_(n) {}
	uint8_t byte() { return pos_ < n_ ? d_[pos_++] : (over_ = true, 0); }
	bool exhausted() const { return over_; }
	size_t pos() const { return pos_; }
	// fingerprint of what is left (for descriptions)
	uint32_t rest() const { uint32_t h = 2166136261u; for (size_t i = pos_; i < n_; i++) h = (h ^ d_[i]) * 16777619u; return h; }
	uint64_t raw(int nbytes) { uint64_t v = 0; for (int i = 0; i < nbytes; i++) v = v << 8 | byte(); return v; }
	// uniform-ish in [lo, hi]
	uint64_t range(uint64_t lo, uint64_t hi) {
		uint64_t span = hi - lo;
		int nb = span < 0x100 ? 1 : span < 0x10000 ? 2 : span < 0x100000000ull ? 4 : 8;
		uint64_t v = raw(nb);
		if (span == UINT64_MAX) return v;
		return lo + v % (span + 1);
	}
	bool flip() { return byte() & 1; }
	// true with probability num/256 (0 on an exhausted tape => false)
	bool chance(unsigned num256) { return byte() >= 256 - num256; }
	template <class T> const T &pick(const std::vector<T> &v) { return v[range(0, v.size() - 1)]; }
	size_t weighted(std::initializer_list<unsigned> w) {
		unsigned tot = 0; for (auto x : w) tot += x;
		unsigned r = range(0, tot - 1); size_t i = 0;
		for (auto x : w) { if (r < x) return i; r -= x; i++; }
		return 0;
	}
	// length skewed to small with boundary values; <= max
	size_t len(size_t max);
	std::string bytes(size_t n);   // n bytes: each drawn from the tape
	std::string fill(size_t n);    // n bytes expanded from a 2-byte seed
private:
	const uint8_t *d_; size_t n_; size_t pos_ = 0; bool over_ = false;
};

// Reporting, callable from within a property.
void label(const char *name);              // classify this case
void nontrivial();                         // mark this case non-trivial
void describe(const std::string &s);       // human-readable text of the case
bool verbose();                            // replaying with -v
#define NOTE(...) do { if (verbose()) fprintf(stderr, __VA_ARGS__); } while (0)

struct PropInfo {
	const char *id;
	const char *rule;           // evidence "rule"
	const char *level;          // exploration | fault_enumeration
	unsigned quick_cases;       // per run (all workers together)
	unsigned thorough_cases;
	unsigned max_tape;          // bytes
	unsigned workers;           // default 8
	int racy;                   // 0 deterministic; 1 real threads: any of 60 replays; 2 processes: 2 of 10 replays
	double case_limit_s;        // hang limit per case
	std::vector<const char *> assumptions;
};
// Provided by each harness.
extern const PropInfo prop_info;
void prop(Tape &t);
void prop_setup();              // once per worker process
