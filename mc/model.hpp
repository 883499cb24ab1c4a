// Reference model: plain integer/rational point semantics, independent of isl's
// own algorithms.  Objects are decoded through isl's public accessors and then
// evaluated here.
#pragma once
#include "mc.hpp"
#include <isl/val.h>
#include <isl/mat.h>
#include <isl/vec.h>
#include <isl/space.h>
#include <isl/set.h>
#include <isl/map.h>
#include <isl/aff.h>
#include <isl/point.h>
#include <isl/local_space.h>
#include <isl/constraint.h>
#include <isl/union_set.h>
#include <isl/union_map.h>
#include <isl/id.h>
#include <isl/printer.h>

namespace mdl {
using mc::ll;
typedef __int128 i128;
typedef __int128 I;          // all model integers: wide enough for inputs translated beyond 2^64
inline std::string S(I x) { if (x < 0) return "-" + S(-x); std::string r; do { r.insert(r.begin(), char('0' + (int) (x % 10))); x /= 10; } while (x); return r; }

struct Overflow {};

inline bool small(I x) { return x == (ll) x; }
inline ll gcd64(ll a, ll b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { ll t = a % b; a = b; b = t; } return a; }
inline I gcdll(I a, I b) { if (small(a) && small(b)) return gcd64((ll) a, (ll) b); if (a < 0) a = -a; if (b < 0) b = -b; while (b) { I t = a % b; a = b; b = t; } return a; }
inline I fdiv(I a, I b) {
	if (small(a) && small(b)) { ll x = (ll) a, y = (ll) b; ll q = x / y; if (x % y && ((x < 0) != (y < 0))) --q; return q; }
	I q = a / b; if (a % b && ((a < 0) != (b < 0))) --q; return q;
}
inline I cdiv(I a, I b) { return -fdiv(-a, b); }
inline I mod(I a, I b) { return a - b * fdiv(a, b); }
inline I iabs(I a) { return a < 0 ? -a : a; }
inline ll narrow64(I x) { if (!small(x)) throw Overflow(); return (ll) x; }
// guarded arithmetic: __builtin overflow on 128 bits
inline I mul(I a, I b) { I r; if (__builtin_mul_overflow(a, b, &r)) throw Overflow(); return r; }
inline I add(I a, I b) { I r; if (__builtin_add_overflow(a, b, &r)) throw Overflow(); return r; }

// exact rational with infinities and NaN excluded
struct Rat {
	I n, d;
	Rat(I n_ = 0, I d_ = 1) : n(n_), d(d_) { if (d != 1) norm(); }
	static Rat mk(I n, I d) { Rat r; r.n = n; r.d = d; r.norm(); return r; }
	void norm() { if (d < 0) { n = -n; d = -d; } if (d == 1) return; I g = gcdll(n, d); if (g > 1) { n /= g; d /= g; } }
	Rat operator+(const Rat &o) const { if (d == 1 && o.d == 1) return mk(add(n, o.n), 1); return mk(add(mul(n, o.d), mul(o.n, d)), mul(d, o.d)); }
	Rat operator-(const Rat &o) const { return *this + (-o); }
	Rat operator*(const Rat &o) const { return mk(mul(n, o.n), mul(d, o.d)); }
	Rat operator/(const Rat &o) const { return mk(mul(n, o.d), mul(d, o.n)); }
	Rat operator-() const { Rat r; r.n = -n; r.d = d; return r; }
	bool operator==(const Rat &o) const { return n == o.n && d == o.d; }
	bool operator!=(const Rat &o) const { return !(*this == o); }
	bool operator<(const Rat &o) const { return mul(n, o.d) < mul(o.n, d); }
	bool operator>(const Rat &o) const { return o < *this; }
	bool operator<=(const Rat &o) const { return !(o < *this); }
	bool operator>=(const Rat &o) const { return !(*this < o); }
	I floor() const { return fdiv(n, d); }
	I ceil() const { return cdiv(n, d); }
	bool isint() const { return d == 1; }
	std::string s() const { return d == 1 ? S(n) : S(n) + "/" + S(d); }
};

struct Div { bool known; Rat c; std::vector<Rat> coef; };   // floor(c + coef . (vars, divs)) when known

// conjunction over nv variables and nd integer divisions; rows: [cst, vars, divs]
struct Basic {
	int nv = 0, nd = 0;
	std::vector<Div> divs;
	std::vector<std::vector<I>> eq, ineq;
};
struct Pts { int np = 0, ni = 0, no = 0; std::vector<Basic> b; };

// integer feasibility of a small system in k unknowns, rows [cst, k coefs]
enum Feas { INFEAS = 0, FEAS = 1, UNKNOWN = 2 };
Feas feasible(std::vector<std::vector<I>> eq, std::vector<std::vector<I>> ineq, int k);

// rational feasibility (exact, Fourier-Motzkin); UNKNOWN when the elimination grows too large
Feas rat_feasible(std::vector<std::vector<I>> eq, std::vector<std::vector<I>> ineq, int k);

// membership; throws Overflow, returns UNKNOWN only if existential search is inconclusive
Feas contains_f(const Basic &b, const I *x);
inline bool contains(const Basic &b, const I *x) {
	Feas f = contains_f(b, x);
	if (f == UNKNOWN) { mc::note_outcome("inconclusive_membership"); throw Overflow(); }
	return f == FEAS;
}
inline bool contains(const Pts &p, const I *x) { for (auto &b : p.b) if (contains(b, x)) return true; return false; }

Basic read_basic_map(isl_basic_map *bmap);
inline Basic read_basic_set(isl_basic_set *b) { return read_basic_map((isl_basic_map *) b); }
Pts read_map(isl_map *m);
inline Pts read_set(isl_set *s) { return read_map((isl_map *) s); }

I int_from_val(isl_val *v);              // consumes; throws Overflow beyond 127 bits
Rat rat_from_val(isl_val *v);            // consumes; throws Overflow when not a small rational
struct Aff { bool nan = false; Rat c; std::vector<Rat> coef; std::vector<Div> divs; int nv = 0; };   // vars: params, in
Aff read_aff(isl_aff *a);
bool eval_divs(const std::vector<Div> &d, int nv, const I *x, std::vector<I> &out);
Rat eval(const Aff &a, const I *x);
struct PwAff { std::vector<std::pair<Pts, Aff>> p; };
PwAff read_pw_aff(isl_pw_aff *a);
// returns number of pieces containing x; value of first in r
int eval(const PwAff &a, const I *x, Rat &r);
struct PMA { std::vector<std::pair<Pts, std::vector<Aff>>> p; };
PMA read_pma(isl_pw_multi_aff *a);
int eval(const PMA &a, const I *x, std::vector<Rat> &r);

// enumeration of integer points of the box lo..hi ^ n (points are stored flat)
struct Window {
	int n = 0; std::vector<I> pts; int count = 0;
	Window() {}
	Window(std::vector<std::pair<I, I>> range) : n(range.size()) {
		std::vector<I> x(n); count = 0;
		for (int i = 0; i < n; ++i) x[i] = range[i].first;
		for (;;) {
			pts.insert(pts.end(), x.begin(), x.end()); ++count;
			int k = n - 1;
			for (; k >= 0; --k) { if (++x[k] <= range[k].second) break; x[k] = range[k].first; }
			if (k < 0) break;
		}
	}
	static Window cube(int n, I lo, I hi) { return Window(std::vector<std::pair<I, I>>(n, {lo, hi})); }
	const I *at(int i) const { return &pts[(size_t) i * n]; }
};
typedef std::vector<uint64_t> Bits;
inline bool bit(const Bits &b, int i) { return b[i >> 6] >> (i & 63) & 1; }
inline void setbit(Bits &b, int i) { b[i >> 6] |= 1ull << (i & 63); }
void bits_basic(const Basic &b, const Window &w, Bits &r);   // or the points of b into r
inline Bits bits(const Basic &p, const Window &w) { Bits r((w.count + 63) / 64, 0); bits_basic(p, w, r); return r; }
inline Bits bits(const Pts &p, const Window &w) { Bits r((w.count + 63) / 64, 0); for (auto &b : p.b) bits_basic(b, w, r); return r; }
inline Bits bits_set(isl_set *s, const Window &w) { return bits(read_set(s), w); }
inline Bits bits_map(isl_map *m, const Window &w) { return bits(read_map(m), w); }
std::string show(const Window &w, const Bits &got, const Bits &want);
inline int popcount(const Bits &b) { int c = 0; for (auto x : b) c += __builtin_popcountll(x); return c; }
inline uint64_t hash_bits(const Bits &b, uint64_t h = 7) { return mc::hash_bytes(b.data(), b.size() * 8, h | 1); }

// model -> text
std::string basic_text(const Basic &b, const std::vector<std::string> &names);
} // namespace mdl
