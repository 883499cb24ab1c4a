// Exhaustive bounded exploration runtime shared by all harnesses.
//
// A harness defines "spaces".  A space is a finite, totally enumerated set of
// executions 0..n-1; body(i) runs execution i against the real library and
// throws mc::Violation when the oracle disagrees.  The runtime executes every
// index of every space (in parallel worker processes), detects crashes, hangs
// and reference leaks, re-executes anything it is about to report in a fresh
// process ("replay before report") and writes a JSON summary.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <algorithm>
#include <stdexcept>
#include <sstream>
#include <isl/ctx.h>
#include <isl/options.h>

namespace mc {

typedef long long ll;

struct Violation { std::string key, msg; };
[[noreturn]] void fail(const std::string &key, const std::string &msg);

extern isl_ctx *ctx;     // context of the current worker
extern bool replaying;   // true when re-executing single items
extern bool thorough;    // tier
extern int tier_level;   // 0 quick, 1 thorough
extern long seed;

// --- coverage accounting (shared between workers) ---
void note_state(uint64_t fingerprint);   // distinct states/objects reached
void note_transition(uint64_t n = 1);    // library operations executed on the path
void note_validated(uint64_t n = 1);     // executions compared with the oracle
void note_outcome(const char *name, uint64_t n = 1); // named outcome counters
uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 1469598103934665603ull);
inline uint64_t hash_str(const std::string &s) { return hash_bytes(s.data(), s.size()); }
inline uint64_t hash_mix(uint64_t a, uint64_t b) {
	uint64_t x = a ^ (b + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2));
	x ^= x >> 31; x *= 0xbf58476d1ce4e5b9ull; x ^= x >> 29; return x;
}

struct SpaceDef {
	std::string name;
	uint64_t n = 0;
	std::function<void(uint64_t)> body;
	std::function<std::string(uint64_t)> desc;   // description of item i
	double item_timeout = 20;                    // seconds
	uint64_t chunk = 0;                          // 0: automatic
	bool fresh_ctx_per_item = false;
	SpaceDef() {}
	SpaceDef(std::string nm, uint64_t n_, std::function<void(uint64_t)> b,
	         std::function<std::string(uint64_t)> d = nullptr)
		: name(std::move(nm)), n(n_), body(std::move(b)), desc(std::move(d)) {}
};

// Breadth-first frontier shared between workers: fixed size records.
struct Frontier {
	struct Rec { uint16_t len; uint16_t op[15]; };
	Rec *rec; uint64_t *count; uint64_t cap;
	explicit Frontier(uint64_t cap);
	bool push(const Rec &r);
	uint64_t size() const;
};
// Shared set of fingerprints; true if newly inserted.
struct SharedSet {
	uint64_t *tab; uint64_t mask; uint64_t *cnt;
	explicit SharedSet(int log2cap);
	bool insert(uint64_t h);
	uint64_t size() const;
};

struct Harness {
	std::string property;
	std::function<void()> setup;      // in every worker, mc::ctx is set
	std::function<void()> teardown;   // before the context is freed
	// Spaces are built lazily, in order (a later space may depend on the
	// frontier produced by an earlier one).
	std::vector<std::function<SpaceDef()>> spaces;
	bool check_leaks = true;
	void add(SpaceDef s) { spaces.push_back([s]() { return s; }); }
	std::map<std::string, std::string> bounds;  // free-form description for the evidence
	std::string rule;
};

int run(int argc, char **argv, Harness &h);

// --- mixed radix helpers ---
struct Radix {
	std::vector<uint64_t> r;
	Radix(std::initializer_list<uint64_t> l) : r(l) {}
	explicit Radix(std::vector<uint64_t> l) : r(std::move(l)) {}
	uint64_t size() const { uint64_t s = 1; for (auto x : r) s *= x; return s; }
	std::vector<uint64_t> at(uint64_t i) const {
		std::vector<uint64_t> v(r.size());
		for (size_t k = r.size(); k-- > 0;) { v[k] = i % r[k]; i /= r[k]; }
		return v;
	}
};

// Clear the context's error state; returns whether an error was recorded.
inline bool take_error() {
	bool e = isl_ctx_last_error(ctx) != isl_error_none;
	isl_ctx_reset_error(ctx);
	return e;
}
inline std::string str(char *s) { std::string r = s ? s : "(null)"; free(s); return r; }

template <class... A> std::string cat(const A &...a) {
	std::ostringstream o; (void)std::initializer_list<int>{((o << a), 0)...}; return o.str();
}

} // namespace mc
