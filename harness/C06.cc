// C06: hulls contain their input and are as tight as documented.
#include "common.hpp"
#include <isl/fixed_box.h>
#define C isl_set_copy
struct Hull { Pts p; Bits b; string txt; bool ok; };
// reads and frees h; containment of `b`
static Hull contain(const string &op, isl_basic_set *h, const Window &w, const Bits &b, const string &who, bool empty) {
	note_transition(); Hull r; r.ok = false;
	if (!h) { mc::take_error(); fail(cat(op, "|", who), "NULL"); }
	r.txt = mc::str(isl_basic_set_to_str(h));
	isl_bool pe = isl_basic_set_is_empty(h);
	try { r.p.b.push_back(read_basic_set(h)); r.b = bits(r.p, w); } catch (Overflow &) { isl_basic_set_free(h); note_outcome("inconclusive"); return r; }
	isl_basic_set_free(h);
	Bits miss = bdiff(b, r.b);
	if (bany(miss)) fail(cat(op, "|", who), cat("misses ", show(w, r.b, bor(b, r.b)), " hull ", r.txt));
	if (empty && pe != isl_bool_true) fail(cat(op, "|", who), cat("hull of the empty set is ", r.txt));
	note_state(mc::hash_mix(hash_bits(r.b), mc::hash_str(op))); note_validated(); r.ok = true;
	return r;
}
static I dot(const vector<I> &row, const I *p, int n) { I s = row[0]; for (int i = 0; i < n; ++i) s += row[1 + i] * p[i]; return s; }
// is there a rational point of b with a.x + c <= t (row of b's width)
static bool rat_at_most(const Basic &b, const vector<I> &row, I t) {
	auto in = b.ineq; vector<I> r = row; for (auto &x : r) x = -x; r[0] += t; in.push_back(r);
	return rat_feasible(b.eq, in, b.nv + b.nd) != INFEAS;
}
// p/den in the closure of the convex hull of the div-free polyhedra ps
static Feas in_hull(const vector<Basic> &ps, const vector<I> &p, I den, int n) {
	int m = ps.size(), k = (n + 1) * m; vector<vector<I>> eq, in;
	for (int i = 0; i < m; ++i) {
		int o = 1 + (n + 1) * i;
		auto add = [&](const vector<I> &r, vector<vector<I>> &to) { vector<I> q(1 + k, 0); for (int j = 0; j < n; ++j) q[o + j] = r[1 + j]; q[o + n] = r[0]; to.push_back(q); };
		for (auto &r : ps[i].eq) add(r, eq);
		for (auto &r : ps[i].ineq) add(r, in);
		vector<I> q(1 + k, 0); q[o + n] = 1; in.push_back(q);
	}
	for (int j = 0; j <= n; ++j) { vector<I> q(1 + k, 0); for (int i = 0; i < m; ++i) q[1 + (n + 1) * i + j] = den; q[0] = j < n ? -p[j] : -den; eq.push_back(q); }
	return rat_feasible(eq, in, k);
}
static bool rat_in(const Basic &b, const vector<I> &p, I den) {
	for (auto &r : b.eq) { I s = r[0] * den; for (int i = 0; i < b.nv; ++i) s += r[1 + i] * p[i]; if (s) return false; }
	for (auto &r : b.ineq) { I s = r[0] * den; for (int i = 0; i < b.nv; ++i) s += r[1 + i] * p[i]; if (s < 0) return false; }
	return true;
}
// affine span of the window points in b, as integer equality rows
static vector<vector<I>> span(const Window &w, const Bits &b) {
	vector<vector<Rat>> basis; const I *p0 = nullptr;
	int n = w.n;
	for (int i = 0; i < w.count; ++i) if (bit(b, i)) {
		if (!p0) { p0 = w.at(i); continue; }
		vector<Rat> v(n); for (int j = 0; j < n; ++j) v[j] = Rat(w.at(i)[j] - p0[j]);
		for (auto &q : basis) { int l = 0; while (q[l] == Rat(0)) ++l; if (v[l] != Rat(0)) { Rat f = v[l] / q[l]; for (int j = 0; j < n; ++j) v[j] = v[j] - f * q[j]; } }
		bool nz = false; for (auto &x : v) nz |= x != Rat(0);
		if (nz) basis.push_back(v);
		if ((int) basis.size() == n) break;
	}
	// membership is tested by rank, so return generators: p0 then basis scaled to integers
	vector<vector<I>> r; if (!p0) return r;
	r.push_back(vector<I>(p0, p0 + n));
	for (auto &v : basis) { I l = 1; for (auto &x : v) l = l / gcdll(l, x.d) * x.d; vector<I> q(n); for (int j = 0; j < n; ++j) q[j] = v[j].n * (l / v[j].d); r.push_back(q); }
	return r;
}
static bool in_span(const vector<vector<I>> &g, const I *p, int n) {
	if (g.empty()) return false;
	vector<Rat> v(n); for (int j = 0; j < n; ++j) v[j] = Rat(p[j] - g[0][j]);
	for (size_t k = 1; k < g.size(); ++k) { int l = 0; while (!g[k][l]) ++l; if (v[l] != Rat(0)) { Rat f = v[l] / Rat(g[k][l]); for (int j = 0; j < n; ++j) v[j] = v[j] - f * Rat(g[k][j]); } }
	for (auto &x : v) if (x != Rat(0)) return false;
	return true;
}
static void box_check(const string &op, isl_fixed_box *fb, const Window &w, const Bits &b, int nin, const string &who) {   // takes fb; the last w.n-nin dims are boxed
	note_transition();
	isl_bool v = isl_fixed_box_is_valid(fb);
	if (v < 0) { isl_fixed_box_free(fb); fail(cat(op, "|", who), "error"); }
	note_outcome(v ? "box valid" : "box invalid");
	if (!v) { isl_fixed_box_free(fb); return; }
	isl_multi_aff *o = isl_fixed_box_get_offset(fb); isl_multi_val *s = isl_fixed_box_get_size(fb);
	int n = w.n - nin; vector<Aff> off; vector<I> sz; bool bad = false; string t;
	try {
		for (int i = 0; i < n; ++i) { isl_aff *a = isl_multi_aff_get_at(o, i); off.push_back(read_aff(a)); isl_aff_free(a); sz.push_back(int_from_val(isl_multi_val_get_at(s, i))); }
		for (int i = 0; i < w.count; ++i) if (bit(b, i)) for (int j = 0; j < n; ++j) { Rat f = eval(off[j], w.at(i)); Rat x(w.at(i)[nin + j]); if (x < f || !(x - f < Rat(sz[j]))) bad = true; }
	} catch (Overflow &) { note_outcome("inconclusive"); }
	if (bad) t = mc::str(isl_fixed_box_to_str(fb));
	isl_multi_aff_free(o); isl_multi_val_free(s); isl_fixed_box_free(fb);
	if (bad) fail(cat(op, "|", who), cat("element outside of the box ", t));
	note_validated();
}
static void hulls(Alpha &A, const vector<size_t> &ix, bool bounded, bool rat, int nin) {
	const Window &w = A.w; Bits b = bzero(w.count); isl_set *s = nullptr; string who; vector<Basic> ps; bool divs = false; int nd = 0;
	for (size_t i : ix) { b = bor(b, A.b[i]); s = s ? isl_set_union(s, C(A.set(i))) : C(A.set(i)); who += (who.empty() ? "" : " or ") + A.text(i); for (auto &x : A.s[i].b) { ps.push_back(x); divs |= x.nd > 0; nd += x.nd; } }
	struct F { isl_set *s; ~F() { isl_set_free(s); } } fr{s};
	bool empty = bounded && !bany(b);
	int n = A.nv;
	Hull sh = contain("simple", isl_set_simple_hull(C(s)), w, b, who, empty);
	Hull us = contain("unshifted", isl_set_unshifted_simple_hull(C(s)), w, b, who, empty);
	contain("plain_unshifted", isl_set_plain_unshifted_simple_hull(C(s)), w, b, who, false);
	bool heavy = A.nv == 3 && nd > 1;   // lifted dimension too large for an exact hull
	if (!heavy) contain("polyhedral", isl_set_polyhedral_hull(C(s)), w, b, who, empty);
	Hull ah = contain("affine", isl_set_affine_hull(C(s)), w, b, who, empty);
	if (bounded) {
		isl_basic_set *bs = isl_set_bounded_simple_hull(C(s)); isl_bool bd = isl_basic_set_is_bounded(bs);
		contain("bounded_simple", bs, w, b, who, empty);
		expect_bool("bounded_simple is bounded", bd, true, who);
		auto g = span(w, b);
		if (ah.ok && !empty) for (int i = 0; i < w.count; ++i) if (bit(ah.b, i) && !in_span(g, w.at(i), n)) fail(cat("affine|", who), cat("contains ", S(w.at(i)[0]), ",", S(w.at(i)[1]), " outside of the affine span: ", ah.txt));
	}
	if (ix.size() == 1 && A.s[ix[0]].b.size() == 1) { isl_basic_set *q = A.basic(ix[0]); if (q) contain("basic_affine", isl_basic_set_affine_hull(q), w, b, who, empty); }
	if (nin) {   // the same set seen as a relation, and as a parametric set
		isl_set *fl = nullptr; (void) fl;
		isl_map *m = nullptr; for (size_t i : ix) m = m ? isl_map_union(m, isl_map_copy(A.map(i, nin))) : isl_map_copy(A.map(i, nin));
		auto B = [](isl_basic_map *x) { return isl_basic_set_flatten(isl_basic_map_wrap(x)); };
		contain("map_simple", B(isl_map_simple_hull(isl_map_copy(m))), w, b, who, empty); contain("map_unshifted", B(isl_map_unshifted_simple_hull(isl_map_copy(m))), w, b, who, empty);
		contain("map_affine", B(isl_map_affine_hull(isl_map_copy(m))), w, b, who, empty); if (!heavy) contain("map_polyhedral", B(isl_map_polyhedral_hull(isl_map_copy(m))), w, b, who, empty);
		contain("map_plain_unshifted", B(isl_map_plain_unshifted_simple_hull(isl_map_copy(m))), w, b, who, false);
		if (!divs) contain("map_convex", B(isl_map_convex_hull(isl_map_copy(m))), w, b, who, empty);
		box_check("map_box", isl_map_get_range_simple_fixed_box_hull(m), w, b, A.np + nin, who);
		isl_union_map *um = isl_union_map_from_map(m);
		for (int k = 0; k < (heavy ? 2 : 3); ++k) {
			isl_union_map *r = k == 0 ? isl_union_map_simple_hull(isl_union_map_copy(um)) : k == 1 ? isl_union_map_affine_hull(isl_union_map_copy(um)) : isl_union_map_polyhedral_hull(isl_union_map_copy(um));
			isl_map *x = isl_union_map_extract_map(r, isl_map_get_space(A.map(ix[0], nin))); isl_union_map_free(r);
			isl_basic_map_list *l = isl_map_get_basic_map_list(x); isl_map_free(x);
			isl_basic_map *y = isl_basic_map_list_n_basic_map(l) ? isl_basic_map_list_get_at(l, 0) : isl_basic_map_empty(isl_map_get_space(A.map(ix[0], nin))); isl_basic_map_list_free(l);
			contain(cat("umap", k), B(y), w, b, who, empty);
		}
		isl_union_map_free(um);
	}
	box_check("box", isl_set_get_simple_fixed_box_hull(s), w, b, A.np, who);
	// constraints of a given list of sets
	if (ix.size() >= 1) {
		isl_set_list *l = isl_set_list_alloc(ctx, 3);
		for (size_t i : ix) l = isl_set_list_add(l, C(A.set(i)));
		l = isl_set_list_add(l, C(A.set((ix[0] * 7 + 3) % A.size())));
		contain("from_list", isl_set_unshifted_simple_hull_from_set_list(C(s), l), w, b, who, false);
	}
	if (divs) return;
	Hull ch = contain("convex", isl_set_convex_hull(C(s)), w, b, who, empty);
	// tightness against the original constraints
	vector<Basic> live; for (auto &p : ps) if (rat_feasible(p.eq, p.ineq, n) != INFEAS) live.push_back(p);
	if (live.empty()) return;
	// isl may drop a constraint whose removal only adds rational points with a value in (-1,0); tightness is only
	// stated for disjuncts where that cannot happen: full-dimensional, every constraint exactly redundant or violated by 1
	bool plain = bounded;
	for (auto &p : ps) { Bits pb = bits(p, w); if ((int) span(w, pb).size() != n + 1) plain = false; }
	if (plain) for (auto &p : ps) for (size_t k = 0; k < p.ineq.size(); ++k) {
		Basic q = p; q.ineq.erase(q.ineq.begin() + k);
		if (rat_at_most(q, p.ineq[k], -1)) continue;
		auto in = q.ineq; vector<I> r = p.ineq[k]; for (auto &x : r) x = -x * 1000; r[0] -= 1; in.push_back(r);
		if (rat_feasible(q.eq, in, n) != INFEAS) plain = false;
	}
	note_outcome(plain ? "tightness checked" : "containment only");
	if (!plain) return;
	// only facets that survive the removal of (integer) redundant constraints of full-dimensional disjuncts
	vector<vector<I>> cs; bool full = bounded;
	for (auto &p : ps) { Bits pb = bits(p, w); if ((int) span(w, pb).size() != n + 1) full = false; }
	if (full) for (auto &p : ps) for (size_t k = 0; k < p.ineq.size(); ++k) {
		Basic q = p; q.ineq.erase(q.ineq.begin() + k);
		if (rat_at_most(q, p.ineq[k], -1)) cs.push_back(p.ineq[k]);
	}
	std::sort(cs.begin(), cs.end()); cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
	for (auto &c : cs) {
		std::map<ll, bool> reach;    // can a live disjunct rationally attain a value <= t
		auto at_most = [&](I t) { auto it = reach.find((ll) t); if (it != reach.end()) return it->second; bool f = false; for (auto &p : live) f = f || rat_at_most(p, c, t); return reach[(ll) t] = f; };
		I worst = 0; const I *wp = nullptr, *up = nullptr;
		for (int i = 0; i < w.count; ++i) {
			I v = dot(c, w.at(i), n);
			if (sh.ok && bit(sh.b, i) && (!wp || v < worst)) { worst = v; wp = w.at(i); }
			if (us.ok && bit(us.b, i) && v < 0) up = w.at(i);
		}
		if (wp && !at_most(worst)) fail(cat("simple|", who), cat("point ", S(wp[0]), ",", S(wp[1]), " violates the shifted constraint ", basic_text([&] { Basic q = uni(n); q.ineq.push_back(c); return q; }(), names(n - A.np, A.np)), " hull ", sh.txt));
		if (up) {   // c valid for all integer points of bounded sets and rationally for all disjuncts: must be kept
			bool valid = true; for (auto &p : live) { auto in = p.ineq; vector<I> r = c; for (auto &x : r) x = -x * 1000; r[0] -= 1; in.push_back(r); if (rat_feasible(p.eq, in, n) != INFEAS) valid = false; }
			if (valid) fail(cat("unshifted|", who), cat("point ", S(up[0]), ",", S(up[1]), " violates an original constraint valid for all disjuncts; hull ", us.txt));
		}
	}
	if (!ch.ok) return;
	// rational points of the result lie in the closed convex hull of the disjuncts
	const Basic &H = ch.p.b[0];
	if (H.nd) fail(cat("convex|", who), "existentials in the convex hull");
	for (int d = 1; d <= 1; ++d) {   // integer points: the result itself may drop constraints violated by less than 1
		I lo = -2 * d, hi = 5 * d; Window g = n == 2 ? Window::cube(2, lo, hi) : Window::cube(n, -1 * d, 4 * d);
		for (int i = 0; i < g.count; ++i) {
			vector<I> p(g.at(i), g.at(i) + n); bool red = false;
			if (d > 1) { bool all = true; for (I x : p) all = all && x % d == 0; red = all; }
			if (red || !rat_in(H, p, d)) continue;
			bool direct = false; for (auto &q : live) direct = direct || rat_in(q, p, d);
			if (direct) continue;
			if (in_hull(live, p, d, n) == INFEAS) { string t; for (I x : p) t += S(x) + " "; fail(cat("convex|", who), cat("contains ", t, "/ ", d, " outside of the convex hull: ", ch.txt)); }
			note_outcome("hull point inside, outside of every disjunct");
		}
	}
}
int main(int argc, char **argv) {
	mc::Harness h; h.property = "C06"; bool th = tier_thorough(argc, argv);
	Window W2 = Window::cube(2, -3, 6);
	auto bd = basics2(1, 2, th ? -4 : -3, th ? 5 : 4, false, true), ub = basics2(1, 2, th ? -4 : -3, th ? 5 : 4, true, true);
	auto nodiv = [](const vector<Shape> &v) { vector<Shape> r; for (auto &s : v) { bool d = false; for (auto &b : s.b) d |= b.nd > 0; if (!d) r.push_back(s); } return r; };
	// in "bounded" spaces the universe and half planes are dropped
	auto fin = [&](const vector<Shape> &v) { vector<Shape> r; for (auto &s : v) { Bits b = shp::bits(s, W2); bool edge = false; for (int i = 0; i < W2.count; ++i) if (bit(b, i)) for (int j = 0; j < 2; ++j) edge |= W2.at(i)[j] == -3 || W2.at(i)[j] == 6; if (!edge && s.b[0].eq.size() + s.b[0].ineq.size()) r.push_back(s); } return r; };
	static Alpha N(2, 0, W2, pick(fin(nodiv(bd)), th ? 420 : 120));       // bounded, div-free
	static Alpha X(2, 0, W2, pick(fin(bd), th ? 420 : 110));             // bounded, with divisions
	static Alpha U(2, 0, W2, pick(ub, th ? 420 : 110));                  // possibly unbounded
	static Alpha UN(2, 0, W2, pick(nodiv(ub), th ? 200 : 60));
	GenOpt o; o.chi = 2; o.pair_step = 31; Window W3 = Window::cube(3, -1, 4), WP = window_np(1, -2, 4, 2, -2, 5);
	static Alpha D(3, 0, W3, basicsN(3, 0, W3, 1, o, th ? 260 : 50));
	static Alpha P(3, 1, WP, basicsN(3, 1, WP, 1, o, th ? 300 : 64));
	static Alpha T(2, 0, W2, pick(fin(nodiv(bd)), th ? 40 : 14));
	h.teardown = [] { Alpha::drop_all(); };
	auto pairs = [&](const char *nm, Alpha &A, bool bounded, bool rat, int nin) {
		uint64_t k = A.size(); h.bounds[nm] = cat("all unordered pairs of ", k, " conjunctions");
		auto ix = [k](uint64_t i) { uint64_t a = 0; while (i >= k - a) { i -= k - a; ++a; } return a == a + i ? vector<size_t>{a} : vector<size_t>{a, a + i}; };
		auto tx = [&A, ix](uint64_t i) { string s; for (size_t j : ix(i)) s += A.text(j) + " "; return s; };
		h.add(mc::SpaceDef(nm, k * (k + 1) / 2, [=, &A](uint64_t i) { hulls(A, ix(i), bounded, rat, nin); }, tx));
	};
	pairs("bounded-divfree", N, true, true, 0); pairs("bounded-divs", X, true, false, 1); pairs("unbounded", U, false, false, 1); pairs("unbounded-divfree", UN, false, true, 0); pairs("3d", D, false, false, 1); pairs("param", P, false, false, 1);
	uint64_t t = T.size(); h.bounds["triples"] = cat("all unordered triples of ", t);
	h.add(mc::SpaceDef("triples", t * t * t, [t](uint64_t i) { size_t a = i / t / t, b = i / t % t, c = i % t; if (a < b && b < c) hulls(T, {a, b, c}, true, true, 0); }, [t](uint64_t i) { return cat(T.text(i / t / t), T.text(i / t % t), T.text(i % t)); }));
	return mc::run(argc, argv, h);
}
