// Shared helpers: alphabets bound to library objects and expectation checks.
#pragma once
#include "shapes.hpp"
#include <isl/union_set.h>
#include <isl/union_map.h>

using namespace shp;
using mc::fail; using mc::ctx; using mc::note_state; using mc::note_transition; using mc::note_validated; using mc::note_outcome;
using std::set; using std::string; using std::vector;

inline bool tier_thorough(int argc, char **argv) { for (int i = 1; i + 1 < argc; ++i) if (!strcmp(argv[i], "--tier") && !strcmp(argv[i + 1], "thorough")) return true; return false; }

template <class F> inline Bits comb(const Bits &a, const Bits &b, int n, F f) {
	Bits r(a.size(), 0);
	for (int i = 0; i < n; ++i) if (f(bit(a, i), bit(b, i))) setbit(r, i);
	return r;
}
inline Bits band(const Bits &a, const Bits &b) { Bits r(a); for (size_t i = 0; i < r.size(); ++i) r[i] &= b[i]; return r; }
inline Bits bor(const Bits &a, const Bits &b) { Bits r(a); for (size_t i = 0; i < r.size(); ++i) r[i] |= b[i]; return r; }
inline Bits bdiff(const Bits &a, const Bits &b) { Bits r(a); for (size_t i = 0; i < r.size(); ++i) r[i] &= ~b[i]; return r; }
inline bool bany(const Bits &a) { for (auto x : a) if (x) return true; return false; }
inline Bits bnot(const Bits &a, int n) { Bits r(a.size(), 0); for (int i = 0; i < n; ++i) if (!bit(a, i)) setbit(r, i); return r; }
inline Bits bzero(int n) { return Bits((n + 63) / 64, 0); }
// indicator of a predicate on window points
template <class F> inline Bits where(const Window &w, F f) { Bits r = bzero(w.count); for (int i = 0; i < w.count; ++i) if (f(w.at(i))) setbit(r, i); return r; }

inline isl_set *SC(isl_set *s) { return isl_set_copy(s); }
inline isl_map *MC_(isl_map *s) { return isl_map_copy(s); }

// takes r
inline void expect_set(const string &op, isl_set *r, const Window &w, const Bits &want, const string &who, int np = -1) {
	note_transition();
	if (!r) { mc::take_error(); fail(cat(op, "|", who), "NULL result"); }
	if (isl_set_dim(r, isl_dim_param) + isl_set_dim(r, isl_dim_set) != w.n || (np >= 0 && isl_set_dim(r, isl_dim_param) != np)) {
		string s = mc::str(isl_set_to_str(r)); isl_set_free(r); fail(cat(op, "|", who), cat("wrong dimensions: ", s));
	}
	Bits got;
	try { got = bits_set(r, w); } catch (Overflow &) { note_outcome("inconclusive"); isl_set_free(r); return; }
	if (got != want) {
		string s = mc::str(isl_set_to_str(r)); isl_set_free(r);
		fail(cat(op, "|", who), cat("wrong points ", show(w, got, want), " in ", s));
	}
	note_state(mc::hash_mix(hash_bits(got), isl_set_n_basic_set(r)));
	isl_set_free(r);
	note_validated();
}
inline void expect_map(const string &op, isl_map *r, const Window &w, const Bits &want, const string &who, int ni = -1) {
	note_transition();
	if (!r) { mc::take_error(); fail(cat(op, "|", who), "NULL result"); }
	if (isl_map_dim(r, isl_dim_all) != w.n || (ni >= 0 && isl_map_dim(r, isl_dim_in) != ni)) {
		string s = mc::str(isl_map_to_str(r)); isl_map_free(r); fail(cat(op, "|", who), cat("wrong dimensions: ", s));
	}
	Bits got;
	try { got = bits_map(r, w); } catch (Overflow &) { note_outcome("inconclusive"); isl_map_free(r); return; }
	if (got != want) {
		string s = mc::str(isl_map_to_str(r)); isl_map_free(r);
		fail(cat(op, "|", who), cat("wrong pairs ", show(w, got, want), " in ", s));
	}
	note_state(mc::hash_mix(hash_bits(got), isl_map_n_basic_map(r) + 100));
	isl_map_free(r);
	note_validated();
}
inline void expect_bool(const string &op, isl_bool got, bool want, const string &who) {
	note_transition();
	if (got < 0) { mc::take_error(); fail(cat(op, "|", who), "error instead of an answer"); }
	if ((got == isl_bool_true) != want) fail(cat(op, "|", who), cat("answered ", got == isl_bool_true ? "true" : "false", " instead of ", want ? "true" : "false"));
	note_outcome(cat(op, want ? "=true" : "=false").c_str());
	note_validated();
}
inline void expect_implies(const string &op, isl_bool got, bool fact, const string &who) {   // one-sided
	note_transition();
	if (got < 0) { mc::take_error(); fail(cat(op, "|", who), "error instead of an answer"); }
	if (got == isl_bool_true && !fact) fail(cat(op, "|", who), "claimed a fact that does not hold");
	note_outcome(cat(op, got ? "=claimed" : "=silent").c_str());
	note_validated();
}

// An alphabet of sets/relations with lazily created library objects.
struct Alpha {
	int nv, np; Window w; vector<Shape> s; vector<Bits> b; string name;
	vector<isl_set *> so; std::map<int, vector<isl_map *>> mo; vector<isl_union_set *> uso; vector<isl_union_map *> umo;
	Alpha(int nv_, int np_, const Window &w_, vector<Shape> s_, const string &nm = "") : nv(nv_), np(np_), w(w_), s(std::move(s_)), name(nm) {
		for (auto &x : s) b.push_back(shp::bits(x, w));
		reg().push_back(this);
	}
	static vector<Alpha *> &reg() { static vector<Alpha *> r; return r; }
	size_t size() const { return s.size(); }
	string text(size_t i) const { return set_text(s[i], nv - np, np, name); }
	isl_set *set(size_t i) {
		so.resize(s.size(), nullptr);
		if (!so[i]) { so[i] = isl_set_read_from_str(ctx, text(i).c_str()); if (!so[i]) fail("parse", text(i)); }
		return so[i];
	}
	isl_map *map(size_t i, int ni) {
		auto &v = mo[ni]; v.resize(s.size(), nullptr);
		if (!v[i]) { string t = map_text(s[i], ni, nv - np - ni, np); v[i] = isl_map_read_from_str(ctx, t.c_str()); if (!v[i]) fail("parse", t); }
		return v[i];
	}
	isl_basic_set *basic(size_t i) {  // only for single-basic members
		isl_set *x = set(i); isl_basic_set_list *l = isl_set_get_basic_set_list(x);
		isl_basic_set *r = isl_basic_set_list_n_basic_set(l) == 1 ? isl_basic_set_list_get_at(l, 0) : nullptr;
		isl_basic_set_list_free(l); return r;
	}
	void drop() { for (auto x : so) isl_set_free(x); so.clear(); for (auto &kv : mo) for (auto x : kv.second) isl_map_free(x); mo.clear(); }
	static void drop_all() { for (auto a : reg()) a->drop(); }
};

// ---- generic alphabets over nv variables, the first np of which are parameters ----
struct GenOpt { int coef = 1, clo = -2, chi = 3; bool divs = true, unbounded = true, pairs = true; int lo = 0, hi = 3; int pair_step = 7; };
inline vector<Basic> atoms(int nv, int np, const GenOpt &o) {
	vector<Basic> L;
	for (auto &d : dirs(nv, o.coef)) for (int c = o.clo; c <= o.chi; ++c) L.push_back(ineq(nv, lin(c, d)));
	for (auto &d : dirs(nv, 2)) {
		int k = 0; while (!d[k]) ++k; if (d[k] < 0) continue;
		int nz = 0; for (int v : d) nz += v != 0; if (nz > 2 && nv > 2 && std::find(d.begin(), d.end(), 2) != d.end()) continue;
		for (int c = -3; c <= 1; ++c) L.push_back(eq(nv, lin(c, d)));
	}
	return L;
}
inline vector<Basic> divatoms(int nv, int np) {
	vector<Basic> L;
	for (auto &d : dirs(nv, 1)) {
		int k = 0; while (!d[k]) ++k; if (d[k] < 0) continue;
		for (int m = 2; m <= 3; ++m) for (int c = 0; c < m; ++c) L.push_back(stride(nv, lin(c, d), m));
	}
	// couplings through floors for every ordered pair of variables
	for (int p = 0; p < nv; ++p) for (int q = 0; q < nv; ++q) if (p != q) for (int c = 0; c <= 1; ++c) {
		auto R = [&](int k, int a, int b, int e) { vector<int> r(1 + nv + 1, 0); r[0] = k; r[1 + p] = a; r[1 + q] = b; r[1 + nv] = e; return r; };
		L.push_back(exi(nv, 1, {R(c, 1, 0, -2)}, {R(0, 0, -1, 1)}));
		L.push_back(exi(nv, 1, {}, {R(c, 1, 0, -2), R(1 - c, -1, 0, 2), R(0, 0, 1, -1)}));
		L.push_back(exi(nv, 1, {R(0, 0, 1, -1)}, {R(c, 1, 0, -2), R(1 - c, -1, 0, 2)}));
		L.push_back(exi(nv, 1, {}, {R(c, 1, 0, -3), R(2 - c, -1, 0, 3), R(1, 0, 1, -2), R(1, 0, -1, 2)}));
		L.push_back(exi(nv, 1, {}, {R(c, -1, 0, 2), R(0, 0, 1, -3), R(1, 0, 0, 1)}));
		if (p < q) {
			L.push_back(exi(nv, 1, {}, {R(-1, 1, 1, -3), R(c, -1, 0, 2), R(4, 0, 0, -1)}));
			L.push_back(exi(nv, 1, {}, {R(0, 2, 1, -4), R(1 + c, -2, -1, 4)}));
		}
	}
	// nested floors: a = floor(p/2), residues of q + c a modulo 3
	for (int p = 0; p < nv; ++p) for (int q = 0; q < nv; ++q) for (int c = 1; c <= 2; ++c) {
		auto R = [&](int k, int a, int b, int e, int f) { vector<int> r(1 + nv + 2, 0); r[0] = k; r[1 + p] += a; r[1 + q] += b; r[1 + nv] = e; r[2 + nv] = f; return r; };
		L.push_back(exi(nv, 2, {}, {R(0, 1, 0, -2, 0), R(1, -1, 0, 2, 0), R(-1, 0, 1, c, -3), R(2, 0, -1, -c, 3)}));
	}
	return L;
}
inline vector<Shape> basicsN(int nv, int np, const Window &w, int per, const GenOpt &o, size_t cap) {
	Dedup dd(w, per); vector<Shape> out;
	auto push = [&](const Basic &b) { Shape s = mk({b}, nv, np); if (dd.fresh(s)) out.push_back(s); };
	Basic bx = box(nv, o.lo, o.hi, np);
	push(uni(nv)); push(bx); push(ineq(nv, {-1}));
	auto A = atoms(nv, np, o); auto D = o.divs ? divatoms(nv, np) : vector<Basic>();
	for (auto *L : {&A, &D}) for (auto &c : *L) { push(conj(bx, c)); if (o.unbounded) push(c); }
	if (o.pairs) {
		size_t k = 0, total = (A.size() * A.size() + D.size() * D.size()) / 2 + A.size() * D.size(), step = std::max<size_t>(o.pair_step, total / (3 * cap + 1)) | 1;   // no more than about 3 candidates per member
		for (size_t i = 0; i < A.size(); ++i) for (size_t j = i + 1; j < A.size(); ++j) if (k++ % step == 0) push(conj(conj(bx, A[i]), A[j]));
		for (size_t i = 0; i < D.size(); ++i) for (size_t j = 0; j < A.size(); ++j) if (k++ % step == 0) push(conj(conj(bx, D[i]), A[j]));
		for (size_t i = 0; i < D.size(); ++i) for (size_t j = i + 1; j < D.size(); ++j) if (k++ % step == 0) push(conj(conj(bx, D[i]), D[j]));
	}
	return out.size() > cap ? pick(out, cap) : out;
}
// conjunctions with nested floors: l <= (q + c floor((p + k)/m1)) mod m2 <= u over a box
inline vector<Shape> nested2(const Window &w, size_t cap, int np = 0, int lo = 0, int hi = 7) {
	Dedup dd(w, 1); vector<Shape> out; int nv = 2;
	for (int p = 0; p < 2; ++p) for (int q = 0; q < 2; ++q) for (int m1 = 2; m1 <= 3; ++m1) for (int m2 = 2; m2 <= 5; ++m2) if (m2 != 4) for (int c : {-2, -1, 1, 2, 3}) for (int k = 0; k <= 1; ++k) for (int v = 0; v < 3; ++v) {
		int l = v == 0 ? 1 : 0, u = v == 0 ? m2 - 1 : v == 1 ? m2 - 2 : 0;
		auto R = [&](int cst, int a, int b, int e, int f) { vector<int> r(1 + nv + 2, 0); r[0] = cst; r[1 + p] += a; r[1 + q] += b; r[1 + nv] = e; r[2 + nv] = f; return r; };
		Basic b = exi(nv, 2, {}, {R(k, 1, 0, -m1, 0), R(m1 - 1 - k, -1, 0, m1, 0), R(-l, 0, 1, c, -m2), R(u, 0, -1, -c, m2)});
		Shape s = mk({conj(box(nv, lo, hi, np), b)}, nv, np); if (dd.fresh(s)) out.push_back(s);
	}
	return out.size() > cap ? pick(out, cap) : out;
}
// translate every point by t (big constants): x -> x + t
inline Basic translate(Basic b, const vector<I> &t) {
	for (auto *m : {&b.eq, &b.ineq}) for (auto &r : *m) for (int j = 0; j < b.nv; ++j) r[0] -= r[1 + j] * t[j];
	return b;
}
inline Shape translate(const Shape &s, const vector<I> &t, int nv, int np) { vector<Basic> v; for (auto &b : s.b) v.push_back(translate(b, t)); return mk(v, nv, np); }
inline Window translate(const Window &w, const vector<I> &t) { Window r = w; for (int i = 0; i < w.count; ++i) for (int j = 0; j < w.n; ++j) r.pts[(size_t) i * w.n + j] += t[j]; return r; }

inline Window window_np(int np, I plo, I phi, int n, I lo, I hi) {
	vector<std::pair<I, I>> r; for (int i = 0; i < np; ++i) r.push_back({plo, phi}); for (int i = 0; i < n; ++i) r.push_back({lo, hi}); return Window(r);
}
inline std::map<vector<I>, int> index_of(const Window &w) { std::map<vector<I>, int> m; for (int i = 0; i < w.count; ++i) m[vector<I>(w.at(i), w.at(i) + w.n)] = i; return m; }
inline isl_val *valI(I x) { return small(x) ? isl_val_int_from_si(ctx, (long) x) : isl_val_read_from_str(ctx, S(x).c_str()); }
