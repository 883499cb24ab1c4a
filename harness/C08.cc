// C08: integer/rational optimisation, sampling, counting and scanning.
#include "common.hpp"
#include <isl/ilp.h>
#include <isl/lp.h>
#define C isl_set_copy
struct Obj { string t; vector<int> lin; int den; };     // lin empty: use evaluation of the read back expression
static vector<Obj> objs(int nv, bool th) {
	vector<Obj> r; auto &nm = names(nv); string tup = tuple(nv, nm, 0, "");
	auto add = [&](vector<int> l, int den) { string s = S(l[0]); for (int i = 0; i < nv; ++i) if (l[1 + i]) s += cat(l[1 + i] < 0 ? " - " : " + ", abs(l[1 + i]), nm[i]); r.push_back({cat("{ ", tup, " -> [(", s, ")", den > 1 ? cat("/", den) : "", "] }"), l, den}); };
	for (auto &d : dirs(nv, th ? 3 : 2)) if (nv < 3 || (std::count(d.begin(), d.end(), 2) + std::count(d.begin(), d.end(), -2) < 2)) add(lin((d[0] * 5 + d[nv - 1]) % 3, d), 1);
	add(lin(3, vector<int>(nv, 0)), 1); { vector<int> l(1 + nv, 2); l[0] = 1; add(l, 3); l[1] = -3; l[nv] = 1; add(l, 2); l[0] = 0; l[1] = 7; l[nv] = -5; add(l, 1); }
	for (string s : {"floor((x + y)/2)", "x - 3*floor((x + y)/3)", "floor((2x - y)/3) + floor(x/2)", "(y mod 2) - x", "floor((x + floor(y/2))/2)"}) r.push_back({cat("{ ", tup, " -> [", s, "] }"), {}, 1});
	return r;
}
static string vs(isl_val *v) { string s = mc::str(isl_val_to_str(v)); isl_val_free(v); return s; }
static vector<I> neg(vector<I> r) { for (auto &x : r) x = -x; return r; }
// exact optimum over the integer points of the shape: "NaN" (empty), "infty", or a value; "" if undecided
static string truth(const Shape &s, const Window &w, const Bits &b, bool bounded, const Obj &o, const Aff &a, bool mx, int n) {
	bool have = false; Rat best;
	for (int i = 0; i < w.count; ++i) if (bit(b, i)) { Rat v = eval(a, w.at(i)); if (!have || (mx ? v > best : v < best)) best = v; have = true; }
	if (bounded) return have ? best.s() : "NaN";
	if (o.lin.empty() || o.den != 1) return "";
	for (auto &x : s.b) {   // a recession direction that improves the objective, together with an integer point
		int k = x.nv + x.nd; auto e = x.eq, q = x.ineq; for (auto *m : {&e, &q}) for (auto &r : *m) r[0] = 0;
		vector<I> ob(1 + k, 0); for (int i = 0; i < n; ++i) ob[1 + i] = (mx ? 1 : -1) * o.lin[1 + i]; ob[0] = -1; q.push_back(ob);
		Feas f = rat_feasible(e, q, k); if (f == UNKNOWN) return ""; if (f == INFEAS) continue;
		Feas g = feasible(x.eq, x.ineq, k); if (g == UNKNOWN) return ""; if (g == FEAS) return mx ? "infty" : "-infty";
	}
	if (!have) { for (auto &x : s.b) { Feas g = feasible(x.eq, x.ineq, x.nv + x.nd); if (g != INFEAS) return ""; } return "NaN"; }
	for (int step = 0; step < 40; ++step) {   // can it be improved outside of the window?
		bool better = false;
		for (auto &x : s.b) {
			int k = x.nv + x.nd; vector<I> r(1 + k, 0); for (int i = 0; i < n; ++i) r[1 + i] = o.lin[1 + i]; r[0] = o.lin[0] - best.n; if (!mx) r = neg(r); r[0] -= 1;
			auto q = x.ineq; q.push_back(r); Feas f = feasible(x.eq, q, k); if (f == UNKNOWN) return ""; if (f == FEAS) better = true;
		}
		if (!better) return best.s();
		best = best + Rat(mx ? 1 : -1);
	}
	return "";
}
static vector<Obj> O2, O3;
static void opt(Alpha &A, size_t i, bool bounded, const vector<Obj> &O) {
	const Window &w = A.w; isl_set *s = A.set(i); int n = A.nv; string who = A.text(i);
	isl_basic_set *bs = A.basic(i); bool divs = false; for (auto &x : A.s[i].b) divs |= x.nd > 0;
	Basic rb; if (bs) rb = read_basic_set(bs);
	for (auto &o : O) {
		isl_aff *a = isl_aff_read_from_str(ctx, o.t.c_str()); Aff ma = read_aff(a);
		for (int mx = 0; mx < 2; ++mx) {
			string t = truth(A.s[i], w, A.b[i], bounded, o, ma, mx, n);
			if (o.den > 1) {   // only integer objectives are supported: a clean error
				isl_val *v = mx ? isl_set_max_val(s, a) : isl_set_min_val(s, a); bool nul = !v; isl_val_free(v); bool er = mc::take_error(); note_transition();
				if (!nul ? bany(A.b[i]) : !er) fail(cat("set_opt of a rational objective|", who), "not rejected"); if (0 && (!nul || !er)) fail(cat("set_opt of a rational objective|", who), "not rejected");
				t = "";
			} else
			if (t.empty()) { note_outcome("undecided by the model"); continue; }
			if (o.den == 1) {
			auto cmp = [&](const char *op, isl_val *v) { note_transition();
				if (!v && (o.lin.empty() || (op[0] != 's' && op[0] != 'b')) && isl_ctx_last_error(ctx) == isl_error_unsupported) { isl_ctx_reset_error(ctx); note_outcome("integer division rewritten to a rational expression: unsupported"); return; }
				string g = v ? vs(v) : string("NULL"); if (g != t) fail(cat(op, mx ? "max|" : "min|", who), cat(o.t, ": ", g, " instead of ", t)); note_validated(); };
			cmp("set_", mx ? isl_set_max_val(s, a) : isl_set_min_val(s, a));
			if (mx && bs) cmp("bset_", isl_basic_set_max_val(bs, a));
			note_state(mc::hash_mix(mc::hash_str(t), hash_bits(A.b[i])));
			note_outcome(t == "NaN" ? "empty" : t.find("inf") != string::npos ? "unbounded" : "finite");
			isl_pw_aff *pa = isl_pw_aff_intersect_domain(isl_pw_aff_from_aff(isl_aff_copy(a)), C(s));
			if (!(t == "NaN")) {
				cmp("pw_aff_", mx ? isl_pw_aff_max_val(isl_pw_aff_copy(pa)) : isl_pw_aff_min_val(isl_pw_aff_copy(pa)));
				isl_union_pw_aff *up = isl_union_pw_aff_from_pw_aff(isl_pw_aff_copy(pa));
				cmp("upa_", mx ? isl_union_pw_aff_max_val(up) : isl_union_pw_aff_min_val(up));
				isl_pw_multi_aff *pm = isl_pw_multi_aff_range_product(isl_pw_multi_aff_from_pw_aff(isl_pw_aff_copy(pa)), isl_pw_multi_aff_from_pw_aff(isl_pw_aff_neg(isl_pw_aff_copy(pa))));
				isl_multi_val *mv = mx ? isl_pw_multi_aff_max_multi_val(isl_pw_multi_aff_copy(pm)) : isl_pw_multi_aff_min_multi_val(isl_pw_multi_aff_copy(pm));
				cmp("pma_", isl_multi_val_get_at(mv, 0)); isl_multi_val_free(mv);
				isl_multi_pw_aff *mp = isl_multi_pw_aff_from_pw_multi_aff(pm); mv = mx ? isl_multi_pw_aff_min_multi_val(mp) : isl_multi_pw_aff_max_multi_val(mp);
				cmp("mpa_", isl_val_neg(isl_multi_val_get_at(mv, 1))); isl_multi_val_free(mv);
			}
			isl_pw_aff_free(pa);
			}
			// rational optimum: exact for the constraints of the object, and a bound on the integer one
			if (bs && !o.lin.empty()) {
				rb = read_basic_set(bs);   // the description may have been tightened (without changing its integer points) by earlier queries
				isl_val *v = mx ? isl_basic_set_max_lp_val(bs, a) : isl_basic_set_min_lp_val(bs, a); note_transition();
				bool isn = isl_val_is_nan(v), isi = isl_val_is_infty(v) || isl_val_is_neginfty(v); string g = v ? mc::str(isl_val_to_str(v)) : "NULL";
				if (!v) fail(cat("lp|", who), o.t);
				int k = rb.nv + rb.nd; vector<I> ob(1 + k, 0); for (int j = 0; j < n; ++j) ob[1 + j] = o.lin[1 + j]; ob[0] = o.lin[0];
				if (mx) ob = neg(ob);    // from now on: minimise ob.x / den
				auto infeasible = [&](vector<I> extra) { auto q = rb.ineq; q.push_back(extra); return rat_feasible(rb.eq, q, k) == INFEAS; };
				bool none = rat_feasible(rb.eq, rb.ineq, k) == INFEAS;
				if (isn) { if (!none) fail(cat("lp|", who), cat(o.t, " claims empty")); }
				else if (none) { fail(cat("lp|", who), cat(o.t, " is ", g, " although rationally empty")); }
				else if (isi) {
					auto e = rb.eq, q = rb.ineq; for (auto *m : {&e, &q}) for (auto &r : *m) r[0] = 0; vector<I> r = neg(ob); r[0] = -1; q.push_back(r);
					if (rat_feasible(e, q, k) == INFEAS) fail(cat("lp|", who), cat(o.t, " claims unbounded"));
				} else {
					Rat val = rat_from_val(isl_val_copy(v)); if (mx) val = -val;
					vector<I> le(1 + k); for (int j = 0; j <= k; ++j) le[j] = -ob[j] * val.d; le[0] += val.n * o.den;      // ob/den <= val
					if (infeasible(le)) fail(cat("lp|", who), cat(o.t, " = ", g, " is not attained"));
					vector<I> lt(le); for (auto &x : lt) x *= 1000000; lt[0] -= 1;
					if (!infeasible(lt)) fail(cat("lp|", who), cat(o.t, " = ", g, " is not optimal"));
				}
				isl_val_free(v); note_validated();
			}
		}
		isl_aff_free(a);
	}
	isl_basic_set_free(bs);
}
static vector<I> coords(isl_point *p, int n, int np) { vector<I> r; for (int j = 0; j < np; ++j) r.push_back(int_from_val(isl_point_get_coordinate_val(p, isl_dim_param, j))); for (int j = 0; j < n; ++j) r.push_back(int_from_val(isl_point_get_coordinate_val(p, isl_dim_set, j))); return r; }
struct Scan { vector<vector<I>> v; int n; bool bad = false; };
static isl_stat scan_fn(isl_point *p, void *u) { Scan *s = (Scan *) u; s->v.push_back(coords(p, s->n, 0)); isl_point_free(p); return isl_stat_ok; }
static isl_stat scan_stop(isl_point *p, void *u) { Scan *s = (Scan *) u; s->v.push_back(coords(p, s->n, 0)); isl_point_free(p); return s->v.size() == 2 ? isl_stat_error : isl_stat_ok; }
static void points(Alpha &A, size_t i, bool bounded) {
	const Window &w = A.w; isl_set *s = A.set(i); int n = A.nv - A.np; string who = A.text(i); const Bits &b = A.b[i]; int cnt = popcount(b);
	// sampling
	bool empty = !cnt; if (!bounded && empty) for (auto &x : A.s[i].b) { Feas f = feasible(x.eq, x.ineq, x.nv + x.nd); if (f == FEAS) empty = false; if (f == UNKNOWN) { note_outcome("undecided by the model"); return; } }
	auto samp = [&](const char *op, isl_point *p) {
		note_transition(); if (!p) fail(cat(op, "|", who), "NULL");
		bool v = isl_point_is_void(p); vector<I> c; if (!v) c = coords(p, n, A.np); isl_point_free(p);
		if (v != empty) fail(cat(op, "|", who), v ? "void point for a non-empty set" : "point in an empty set");
		if (!v) { string t; for (I x : c) t += S(x) + " "; if (!contains(A.s[i], c.data())) fail(cat(op, "|", who), cat("sample outside of the set: ", t)); }
		note_outcome(v ? "no sample" : "sample"); note_validated();
	};
	samp("set_sample_point", isl_set_sample_point(C(s)));
	isl_basic_set *bs = A.basic(i); if (bs) { samp("bset_sample_point", isl_basic_set_sample_point(isl_basic_set_copy(bs))); isl_basic_set *q = isl_basic_set_sample(bs); samp("bset_sample", isl_basic_set_sample_point(q)); }
	samp("set_sample", isl_basic_set_sample_point(isl_set_sample(C(s))));
	samp("uset_sample", isl_union_set_sample_point(isl_union_set_from_set(C(s))));
	if (A.np == 0 && n > 1) { isl_basic_map *q = isl_map_sample(isl_map_copy(A.map(i, 1))); samp("map_sample", isl_basic_set_sample_point(isl_basic_set_flatten(isl_basic_map_wrap(q)))); }
	if (A.np) return;
	// counting
	isl_val *v = isl_set_count_val(s); note_transition(); string g = v ? vs(v) : string("NULL");
	if (bounded) { if (g != cat(cnt)) fail(cat("count|", who), cat(g, " instead of ", cnt)); note_validated(); }
	else if (g != "NULL" && g != "infty") { bool inf = false; if (atoi(g.c_str()) < cnt) inf = true; if (inf) fail(cat("count|", who), cat(g, " but at least ", cnt)); }
	else if (g == "NULL") mc::take_error();
	if (!bounded) return;
	// scanning
	Scan sc; sc.n = n;
	auto verify = [&](const char *op, vector<vector<I>> got) {
		note_transition(); Bits seen = bzero(w.count); std::map<vector<I>, int> id = index_of(w);
		for (auto &p : got) { auto it = id.find(p); if (it == id.end() || !bit(b, it->second)) fail(cat(op, "|", who), "point outside of the set"); if (bit(seen, it->second)) fail(cat(op, "|", who), "point visited twice"); setbit(seen, it->second); }
		if (seen != b) fail(cat(op, "|", who), cat(got.size(), " points visited instead of ", cnt)); note_validated();
	};
	if (isl_set_foreach_point(s, scan_fn, &sc) < 0) fail(cat("foreach_point|", who), "error"); verify("foreach_point", sc.v);
	Scan su; su.n = n; isl_union_set *u = isl_union_set_from_set(C(s)); isl_stat st = isl_union_set_foreach_point(u, scan_fn, &su); isl_union_set_free(u);
	if (st < 0) fail(cat("uset_foreach_point|", who), "error"); verify("uset_foreach_point", su.v);
	Scan sp; sp.n = n; st = isl_set_foreach_point(s, scan_stop, &sp); isl_ctx_reset_error(ctx);
	if (cnt >= 2 ? (st != isl_stat_error || sp.v.size() != 2) : st != isl_stat_ok) fail(cat("foreach_point stop|", who), cat("callback error ignored: ", sp.v.size(), " of ", cnt)); note_transition(); note_validated();
	// every dimension's extremes
	for (int d = 0; d < n; ++d) {
		I lo = 0, hi = 0; bool f = false; for (int k = 0; k < w.count; ++k) if (bit(b, k)) { I x = w.at(k)[d]; if (!f || x < lo) lo = x; if (!f || x > hi) hi = x; f = true; }
		string mn = vs(isl_set_dim_min_val(C(s), d)), mxv = vs(isl_set_dim_max_val(C(s), d)); note_transition(2);
		if (f ? (mn != S(lo) || mxv != S(hi)) : (mn != "NaN" || mxv != "NaN")) fail(cat("dim_extremes|", who), cat("dimension ", d, ": ", mn, "..", mxv)); note_validated(2);
	}
	isl_set *r = isl_set_empty(isl_set_get_space(s));
	for (auto &p : sc.v) { isl_point *q = isl_point_zero(isl_set_get_space(s)); for (int d = 0; d < n; ++d) q = isl_point_set_coordinate_val(q, isl_dim_set, d, valI(p[d])); r = isl_set_union(r, isl_set_from_point(q)); }
	expect_bool("rebuilt from points", isl_set_is_equal(r, s), true, who); isl_set_free(r);
	if (cnt) {   // box around two of the points
		auto &p = sc.v[0], &q = sc.v.back(); auto mkp = [&](const vector<I> &c) { isl_point *t = isl_point_zero(isl_set_get_space(s)); for (int d = 0; d < n; ++d) t = isl_point_set_coordinate_val(t, isl_dim_set, d, valI(c[d])); return t; };
		auto bx = [&](const I *x) { for (int d = 0; d < n; ++d) if (x[d] < std::min(p[d], q[d]) || x[d] > std::max(p[d], q[d])) return false; return true; };
		expect_set("box_from_points", isl_set_box_from_points(mkp(p), mkp(q)), w, where(w, bx), who);
		expect_set("bbox_from_points", isl_set_from_basic_set(isl_basic_set_box_from_points(mkp(q), mkp(p))), w, where(w, bx), who);
	}
}
int main(int argc, char **argv) {
	mc::Harness h; h.property = "C08"; bool th = tier_thorough(argc, argv);
	O2 = objs(2, th); O3 = objs(3, false); { vector<Obj> r; for (size_t i = 0; i < O3.size(); i += th ? 1 : 3) r.push_back(O3[i]); O3 = r; }
	Window W2 = Window::cube(2, -3, 6), W3 = Window::cube(3, -1, 4), WP = window_np(1, -2, 4, 2, -2, 5), W4 = Window::cube(4, -1, 3);
	auto split = [](const vector<Shape> &v, const Window &w, bool bd) { vector<Shape> r; for (auto &s : v) { bool f = true; for (auto &b : s.b) { if (!b.eq.size() && !b.ineq.size()) f = false; for (int d = 0; d < b.nv; ++d) { bool lo = false, hi = false; for (auto &q : b.ineq) { int nz = 0; for (size_t k = 1; k < q.size(); ++k) nz += q[k] != 0; if (nz == 1 && q[1 + d] == 1) lo = true; if (nz == 1 && q[1 + d] == -1) hi = true; } if (!lo || !hi) f = false; } if (b.ineq.size() == 1 && b.ineq[0][0] < 0 && std::count(b.ineq[0].begin() + 1, b.ineq[0].end(), I(0)) == (long) b.ineq[0].size() - 1) f = true; } if (f == bd) r.push_back(s); } return r; };
	auto base = basics2(1, 2, -4, 4, true, true), bb = split(base, W2, true), ub = split(base, W2, false);
	auto un = unions2(pick(bb, 30), 2, W2, 1, th ? 400 : 160); { auto q = pick(bb, th ? 4000 : 1500); un.insert(un.end(), q.begin(), q.end()); }
	static Alpha B(2, 0, W2, un); auto uu = pick(ub, th ? 800 : 300); { auto q = unions2(pick(ub, 16), 2, W2, 1, 100); uu.insert(uu.end(), q.begin(), q.end()); }
	static Alpha U(2, 0, W2, uu);
	GenOpt o; o.pair_step = 7; o.unbounded = false; GenOpt ou = o; ou.unbounded = true; ou.pairs = false;
	static Alpha D(3, 0, W3, split(basicsN(3, 0, W3, 1, o, th ? 4000 : 900), W3, true));
	static Alpha DU(3, 0, W3, split(basicsN(3, 0, W3, 1, ou, th ? 900 : 200), W3, false));
	GenOpt o4 = o; o4.lo = 0; o4.hi = 2; o4.pair_step = 101; o4.clo = -1; o4.chi = 2; static Alpha Q(4, 0, W4, split(basicsN(4, 0, W4, 1, o4, th ? 1200 : 240), W4, true));
	static Alpha P(3, 1, WP, basicsN(3, 1, WP, 1, ou, th ? 2000 : 500));
	// far away copies: constants beyond 32 and 64 bits
	auto far = [&](int nv, const vector<Shape> &v, vector<I> t) { vector<Shape> r; for (auto &s : v) r.push_back(translate(s, t, nv, 0)); return r; };
	static vector<Alpha *> F; vector<vector<I>> T = {{(I) 1 << 31, -((I) 1 << 33)}, {((I) 1 << 62) + 5, ((I) 1 << 63) + 1}, {-((I) 1 << 40), 7}};
	for (auto &t : T) F.push_back(new Alpha(2, 0, translate(W2, t), far(2, pick(un, th ? 600 : 150), t)));
	// skinny sets: long in one direction, need cuts or basis reduction
	vector<Shape> sk; for (int a = 2; a <= (th ? 40 : 23); ++a) for (int bq = 1; bq < a; bq += th ? 1 : 2) for (int c = 0; c < 3; ++c) { Basic x = box(2, 0, 30); x.ineq.push_back({I(-c - 1), I(a), I(-bq)}); x.ineq.push_back({I(c + 2), I(-a), I(bq)}); sk.push_back(mk({x}, 2)); }
	Window WS = Window::cube(2, -1, 31); static Alpha K(2, 0, WS, sk);
	// narrow 3d parallelepipeds
	vector<Shape> s3; for (int a = 3; a <= 7; ++a) for (int bq = 2; bq <= 6; ++bq) for (int c = 0; c < 3; ++c) { Basic x = box(3, 0, 8); x.ineq.push_back({I(-c - 1), I(a), I(-bq), I(1)}); x.ineq.push_back({I(c + 2), I(-a), I(bq), I(-1)}); x.ineq.push_back({I(-1), I(1), I(a), I(-bq)}); x.ineq.push_back({I(2 + c), I(-1), I(-a), I(bq)}); s3.push_back(mk({x}, 3)); }
	Window WN = Window::cube(3, -1, 9); static Alpha N(3, 0, WN, s3);
	h.teardown = [] { Alpha::drop_all(); };
	auto sp = [&](const char *nm, Alpha &A, bool bd, bool op, const vector<Obj> &O) {
		h.bounds[nm] = cat(A.size(), " sets", op ? cat(" x ", O.size(), " objectives x min/max") : string(""));
		h.add(mc::SpaceDef(nm, A.size(), [&A, bd, op, &O](uint64_t i) { points(A, i, bd); if (op) opt(A, i, bd, O); }, [&A](uint64_t i) { return A.text(i); }));
	};
	sp("bounded 2d", B, true, true, O2); sp("unbounded 2d", U, false, true, O2); sp("bounded 3d", D, true, true, O3); sp("unbounded 3d", DU, false, true, O3);
	sp("skinny 2d", K, true, true, O2); sp("narrow 3d", N, true, true, O3); sp("4d", Q, true, false, O2); sp("parametric", P, false, false, O2);
	for (size_t i = 0; i < F.size(); ++i) { static vector<string> nm = {"far 2^31", "far 2^62", "far -2^40"}; sp(nm[i].c_str(), *F[i], true, i != 1, O2); }
	return mc::run(argc, argv, h);
}
