// C03: queries about sets and relations are answered exactly.
#include "common.hpp"
#include <isl/point.h>
#define C isl_set_copy

static Alpha *A2, *B2, *U2, *P2, *R1;
// "involved in a bound" queries may over-claim (strides count as bounds) but may not deny a bound that exists
static void expect_never_denies(const string &op, isl_bool got, bool fact, const string &who) {
	note_transition();
	if (got < 0) { mc::take_error(); fail(cat(op, "|", who), "error instead of an answer"); }
	if (got == isl_bool_false && fact) fail(cat(op, "|", who), "denied a bound that exists");
	note_outcome(cat(op, got ? "=yes" : "=no").c_str()); note_validated();
}
static string two(Alpha *A, size_t a, size_t b) { return cat("a=", A->text(a), " b=", A->text(b)); }

// exact decision for bounded operands (all points inside the window)
static void bounded_pair(Alpha *A, size_t ia, size_t ib) {
	isl_set *a = A->set(ia), *b = A->set(ib); const Bits &x = A->b[ia], &y = A->b[ib]; string who = two(A, ia, ib);
	bool sub = !bany(bdiff(x, y)), eq = x == y, dis = !bany(band(x, y));
	expect_bool("is_subset", isl_set_is_subset(a, b), sub, who);
	expect_bool("is_equal", isl_set_is_equal(a, b), eq, who);
	expect_bool("is_disjoint", isl_set_is_disjoint(a, b), dis, who);
	expect_bool("is_strict_subset", isl_set_is_strict_subset(a, b), sub && !eq, who);
	expect_implies("plain_is_equal", isl_set_plain_is_equal(a, b), eq, who);
	expect_implies("plain_is_disjoint", isl_set_plain_is_disjoint(a, b), dis, who);
	expect_implies("plain_cmp", isl_bool(isl_set_plain_cmp(a, b) == 0 ? isl_bool_true : isl_bool_false), eq, who);
	note_state(mc::hash_mix(hash_bits(x), hash_bits(y)));
	isl_basic_set *p = A->basic(ia), *q = A->basic(ib);
	if (p && q) {
		expect_bool("basic_is_subset", isl_basic_set_is_subset(p, q), sub, who);
		expect_bool("basic_is_equal", isl_basic_set_is_equal(p, q), eq, who);
		expect_bool("basic_is_disjoint", isl_basic_set_is_disjoint(p, q), dis, who);
		expect_implies("basic_plain_is_equal", isl_basic_set_plain_is_equal(p, q), eq, who);
	}
	isl_basic_set_free(p); isl_basic_set_free(q);
	if ((ia + ib) % 4) return;
	// union sets over two names, and results of operations as operands
	isl_union_set *u = isl_union_set_union(isl_union_set_from_set(isl_set_set_tuple_name(C(a), "S")), isl_union_set_from_set(isl_set_set_tuple_name(C(b), "T")));
	isl_union_set *v = isl_union_set_union(isl_union_set_from_set(isl_set_set_tuple_name(C(b), "S")), isl_union_set_from_set(isl_set_set_tuple_name(C(b), "T")));
	expect_bool("uset_is_subset", isl_union_set_is_subset(u, v), sub, who);
	expect_bool("uset_is_equal", isl_union_set_is_equal(u, v), eq, who);
	expect_bool("uset_is_strict_subset", isl_union_set_is_strict_subset(u, v), sub && !eq, who);
	expect_bool("uset_is_disjoint", isl_union_set_is_disjoint(u, v), dis && !bany(y), who);
	expect_bool("uset_is_empty", isl_union_set_is_empty(u), !bany(x) && !bany(y), who);
	isl_union_set_free(u); isl_union_set_free(v);
	isl_set *d = isl_set_subtract(C(a), C(b)), *i = isl_set_intersect(C(a), C(b)), *s = isl_set_union(C(d), C(i));
	expect_bool("diff_empty", isl_set_is_empty(d), sub, who);
	expect_bool("inter_empty", isl_set_is_empty(i), dis, who);
	expect_bool("recombined_equal", isl_set_is_equal(s, a), true, who);
	expect_bool("recombined_subset", isl_set_is_subset(s, b), sub, who);
	isl_set_free(d); isl_set_free(i); isl_set_free(s);
}
// possibly unbounded: a disagreement needs a witness the model can check
static void witness_pair(Alpha *A, size_t ia, size_t ib) {
	isl_set *a = A->set(ia), *b = A->set(ib); const Bits &x = A->b[ia], &y = A->b[ib]; string who = two(A, ia, ib);
	bool wsub = !bany(bdiff(x, y)), wdis = !bany(band(x, y));
	auto member = [&](isl_set *s, const vector<I> &pt) { return contains(read_set(s), pt.data()); };
	auto sample = [&](isl_set *s, vector<I> &pt) {
		isl_point *p = isl_set_sample_point(s); bool v = isl_point_is_void(p);
		if (!v) { int np = isl_set_dim(a, isl_dim_param), n = isl_set_dim(a, isl_dim_set); for (int k = 0; k < np + n; ++k) pt.push_back(int_from_val(isl_point_get_coordinate_val(p, k < np ? isl_dim_param : isl_dim_set, k < np ? k : k - np))); }
		isl_point_free(p); return !v;
	};
	isl_bool sub = isl_set_is_subset(a, b), dis = isl_set_is_disjoint(a, b), eq = isl_set_is_equal(a, b); note_transition(3);
	if (sub < 0 || dis < 0 || eq < 0) fail(cat("query|", who), "error");
	if (sub && !wsub) fail(cat("is_subset|", who), "claims subset, but window has a counterexample");
	if (dis && !wdis) fail(cat("is_disjoint|", who), "claims disjoint, but a common point exists");
	if (eq && x != y) fail(cat("is_equal|", who), "claims equal, but sets differ in the window");
	try {
		if (!sub && wsub) { vector<I> p; if (!sample(isl_set_subtract(C(a), C(b)), p) || !member(a, p) || member(b, p)) fail(cat("is_subset|", who), "denied without a witness"); }
		if (!dis && wdis) { vector<I> p; if (!sample(isl_set_intersect(C(a), C(b)), p) || !member(a, p) || !member(b, p)) fail(cat("is_disjoint|", who), "denied without a witness"); }
		if (!eq && x == y) { vector<I> p; if (!sample(isl_set_union(isl_set_subtract(C(a), C(b)), isl_set_subtract(C(b), C(a))), p) || member(a, p) == member(b, p)) fail(cat("is_equal|", who), "denied without a witness"); }
	} catch (Overflow &) { note_outcome("inconclusive"); return; }
	expect_implies("plain_is_equal", isl_set_plain_is_equal(a, b), eq == isl_bool_true, who);
	expect_implies("plain_is_disjoint", isl_set_plain_is_disjoint(a, b), dis == isl_bool_true, who);
	note_outcome(cat("pair sub=", (int) sub, " dis=", (int) dis, " eq=", (int) eq).c_str());
	note_validated(3);
}
static void unary(Alpha *A, size_t i, bool bounded) {
	isl_set *a = A->set(i); const Bits &x = A->b[i]; string who = A->text(i);
	const Window &w = A->w; int np = A->np, nv = A->nv;
	bool win = bany(x);
	isl_bool e = isl_set_is_empty(a);
	if (bounded) expect_bool("is_empty", e, !win, who);
	else {
		if (e < 0) fail(cat("is_empty|", who), "error");
		if (e && win) fail(cat("is_empty|", who), "claims empty, but a point exists");
		if (!e && !win) { isl_point *p = isl_set_sample_point(C(a)); bool v = isl_point_is_void(p); isl_point_free(p); if (v) fail(cat("is_empty|", who), "denied, no sample"); }
	}
	bool empty = e == isl_bool_true;
	expect_implies("plain_is_empty", isl_set_plain_is_empty(a), empty, who);
	// universe: window all-true is necessary
	expect_implies("plain_is_universe", isl_set_plain_is_universe(a), !bany(bnot(x, w.count)), who);
	isl_bool bd = isl_set_is_bounded(a); note_transition();
	if (bd < 0) fail(cat("is_bounded|", who), "error");
	if (bounded && !np) expect_bool("is_bounded", bd, true, who);
	// singleton
	isl_bool sg = isl_set_is_singleton(a);
	if (bounded && !np) expect_bool("is_singleton", sg, popcount(x) <= 1, who)   /* single-valuedness of a set: at most one element */;
	else if (sg < 0 || (sg && popcount(x) > 1 && !np)) fail(cat("is_singleton|", who), "wrong");
	for (int k = 0; k < nv - np; ++k) {
		isl_bool b0 = isl_set_dim_is_bounded(a, isl_dim_set, k), hl = isl_set_dim_has_lower_bound(a, isl_dim_set, k), hu = isl_set_dim_has_upper_bound(a, isl_dim_set, k),
		         al = isl_set_dim_has_any_lower_bound(a, isl_dim_set, k), au = isl_set_dim_has_any_upper_bound(a, isl_dim_set, k); note_transition(5);
		if (b0 < 0 || hl < 0 || hu < 0 || al < 0 || au < 0) fail(cat("dim_has_bound|", who), "error");
		if (bounded && !empty && !(b0 && hl && hu && al && au)) fail(cat("dim_has_bound|", who), cat("bounded dimension ", k, " reported unbounded"));
		isl_val *f = isl_set_plain_get_val_if_fixed(a, isl_dim_set, k);
		if (!f) fail(cat("plain_fixed|", who), "NULL");
		if (isl_val_is_int(f)) { I v = int_from_val(isl_val_copy(f)); for (int j = 0; j < w.count; ++j) if (bit(x, j) && w.at(j)[np + k] != v) { isl_val_free(f); fail(cat("plain_fixed|", who), cat("claims dimension ", k, " = ", S(v))); } note_outcome("fixed=claimed"); }
		isl_val_free(f); note_validated(6);
		// fixing / involvement: a dimension reported as not involved does not matter
		isl_bool inv = isl_set_involves_dims(a, isl_dim_set, k, 1);
		if (inv == isl_bool_false) for (int j = 0; j < w.count; ++j) if (bit(x, j)) for (I v = -1; v <= 2; ++v) { vector<I> q(w.at(j), w.at(j) + nv); q[np + k] = v; if (!contains(A->s[i], q.data())) fail(cat("involves_dims|", who), cat("dimension ", k, " matters")); }
	}
	isl_basic_set *p = A->basic(i);
	if (p) {
		if (bounded) expect_bool("basic_is_empty", isl_basic_set_is_empty(p), !win, who);
		expect_implies("basic_plain_is_empty", isl_basic_set_plain_is_empty(p), empty, who);
		expect_implies("basic_is_universe", isl_basic_set_is_universe(p), !bany(bnot(x, w.count)), who);
		isl_bool q = isl_basic_set_is_bounded(p); if (q < 0 || (bounded && !np && !q)) fail(cat("basic_is_bounded|", who), "wrong");
		isl_basic_set_free(p);
	}
}
// boundedness of unbounded conjunctions decided through the model's recession cone: directions with entries in [-2,2]
static bool model_unbounded(const Shape &s, int nv, bool &known) {
	known = true;
	for (auto &b : s.b) {
		// non-empty?
		Basic z = b; vector<vector<I>> eq, in;
		for (int t = 0; t < 2; ++t) for (auto &r : t ? b.ineq : b.eq) (t ? in : eq).push_back(r);
		Feas f = feasible(eq, in, b.nv + b.nd);
		if (f == UNKNOWN) { known = false; return false; }
		if (f == INFEAS) continue;
		// rational recession direction: d != 0 with A d >= 0; scale: some d_k >= 1 or <= -1 for a set variable k
		for (int k = 1; k <= nv; ++k) for (int sg = -1; sg <= 1; sg += 2) {
			auto e2 = eq, i2 = in; for (auto &r : e2) r[0] = 0; for (auto &r : i2) r[0] = 0;
			vector<I> r(1 + b.nv + b.nd, 0); r[k] = sg; r[0] = -1; i2.push_back(r);
			Feas g = feasible(e2, i2, b.nv + b.nd);
			if (g == FEAS) return true;
			if (g == UNKNOWN) known = false;
		}
	}
	return false;
}
static void boundedness(Alpha *A, size_t i) {
	bool known; bool u = model_unbounded(A->s[i], A->nv, known);
	if (!known) { note_outcome("inconclusive"); return; }
	expect_bool("is_bounded", isl_set_is_bounded(A->set(i)), !u, A->text(i));
	note_state(hash_bits(A->b[i]));
	// dimension bounds: unbounded direction per coordinate
	for (int k = 1; k <= A->nv; ++k) {
		bool up = false, lo = false, kn = true, any = false, allup = true, alllo = true;
		for (auto &b : A->s[i].b) {
			vector<vector<I>> eq = b.eq, in = b.ineq; Feas f = feasible(eq, in, b.nv + b.nd); if (f == UNKNOWN) kn = false; if (f != FEAS) continue;
			any = true;
			for (int sg = -1; sg <= 1; sg += 2) {
				auto e2 = eq, i2 = in; for (auto *M : {&e2, &i2}) for (auto &r : *M) { r[0] = 0; for (int j = 1; j <= b.nv; ++j) if (j != k) r[j] = 0; }   // bound in terms of the other dimensions
				vector<I> r(1 + b.nv + b.nd, 0); r[k] = sg; r[0] = -1; i2.push_back(r);
				Feas g = feasible(e2, i2, b.nv + b.nd); if (g == UNKNOWN) kn = false;
				if (g == FEAS) (sg > 0 ? up : lo) = true; else (sg > 0 ? allup : alllo) = false;
			}
		}
		if (!kn || !any) continue;
		expect_never_denies("has_lower", isl_set_dim_has_lower_bound(A->set(i), isl_dim_set, k - 1), !lo, A->text(i));
		expect_never_denies("has_upper", isl_set_dim_has_upper_bound(A->set(i), isl_dim_set, k - 1), !up, A->text(i));
		expect_never_denies("dim_is_bounded", isl_set_dim_is_bounded(A->set(i), isl_dim_set, k - 1), !up && !lo, A->text(i));
	}
}
// relations: functional properties, decided by the table
static void relation(size_t i) {
	isl_map *m = R1->map(i, 1); const Shape &s = R1->s[i]; string who = R1->text(i);
	bool t[3][4][4]; bool sv = true, inj = true, id = true, any = false; bool several = false;
	for (int n = 0; n < 3; ++n) for (int x = 0; x < 4; ++x) for (int y = 0; y < 4; ++y) { I p[3] = {n, x, y}; t[n][x][y] = contains(s, p); if (t[n][x][y]) { any = true; if (x != y) id = false; } }
	{ std::map<int, set<int>> dn; for (int n = 0; n < 3; ++n) for (int x = 0; x < 4; ++x) for (int y = 0; y < 4; ++y) if (t[n][x][y]) dn[n].insert(y - x); for (auto &kv : dn) several |= kv.second.size() > 1; }
	for (int n = 0; n < 3; ++n) for (int x = 0; x < 4; ++x) { int c = 0, d = 0; for (int y = 0; y < 4; ++y) { c += t[n][x][y]; d += t[n][y][x]; } if (c > 1) sv = false; if (d > 1) inj = false; }
	expect_bool("is_single_valued", isl_map_is_single_valued(m), sv, who);
	expect_bool("is_injective", isl_map_is_injective(m), inj, who);
	expect_bool("is_bijective", isl_map_is_bijective(m), sv && inj, who);
	expect_bool("is_identity", isl_map_is_identity(m), id, who);
	expect_bool("map_is_empty", isl_map_is_empty(m), !any, who);
	int tr = (int) isl_map_is_translation(m); if (tr < 0) fail(cat("is_translation|", who), "error");
	if (any && several && tr) fail(cat("is_translation|", who), "claimed with several distances");   // (distances may differ per n only if not a translation)
	expect_implies("plain_is_single_valued", isl_map_plain_is_single_valued(m), sv, who);
	expect_implies("plain_is_injective", isl_map_plain_is_injective(m), inj, who);
	isl_union_map *u = isl_union_map_from_map(isl_map_copy(m));
	expect_bool("umap_is_single_valued", isl_union_map_is_single_valued(u), sv, who);
	expect_bool("umap_is_injective", isl_union_map_is_injective(u), inj, who);
	expect_bool("umap_is_bijective", isl_union_map_is_bijective(u), sv && inj, who);
	expect_bool("umap_is_identity", isl_union_map_is_identity(u), id, who);
	expect_implies("umap_plain_is_injective", isl_union_map_plain_is_injective(u), inj, who);
	isl_union_map_free(u); 
	// combined with another tuple: S[x]->A[y], T[x]->A[y] shares images
	isl_map *m1 = isl_map_set_tuple_name(isl_map_copy(m), isl_dim_in, "S"), *m2 = isl_map_set_tuple_name(isl_map_copy(m), isl_dim_in, "T");
	u = isl_union_map_add_map(isl_union_map_from_map(m1), m2);
	expect_bool("umap2_is_single_valued", isl_union_map_is_single_valued(u), sv, who);
	expect_bool("umap2_is_injective", isl_union_map_is_injective(u), !any, who);
	isl_union_map_free(u);
	m1 = isl_map_set_tuple_name(isl_map_copy(m), isl_dim_out, "S"); m2 = isl_map_set_tuple_name(isl_map_copy(m), isl_dim_out, "T");
	u = isl_union_map_add_map(isl_union_map_from_map(m1), m2);
	expect_bool("umap3_is_single_valued", isl_union_map_is_single_valued(u), !any, who);
	expect_bool("umap3_is_injective", isl_union_map_is_injective(u), inj, who);
	isl_union_map_free(u);
	note_state(mc::hash_mix(hash_bits(R1->b[i]), isl_map_n_basic_map(m)));
}
int main(int argc, char **argv) {
	mc::Harness h; h.property = "C03"; bool th = tier_thorough(argc, argv);
	static Window W2 = Window::cube(2, -3, 6), W2i = Window::cube(2, -1, 4);
	auto unb = basics2(1, 2, -3, 4, true, true); auto bnd0 = basics2(1, 2, th ? -4 : -3, 4, false, true);
	vector<Shape> bnd; { Dedup dd(W2i, 1); for (auto &s : bnd0) { Shape q = mk({conj(box(2, 0, 3), s.b[0])}, 2); if (dd.fresh(q)) bnd.push_back(q); } }
	auto bb = pick(bnd, th ? 900 : 165), uu = unions2(pick(bnd, 60), 2, W2i, 1, th ? 700 : 120);
	bb.insert(bb.end(), uu.begin(), uu.end());
	A2 = new Alpha(2, 0, W2i, bb);
	B2 = new Alpha(2, 0, W2, pick(unb, th ? 1200 : 300));
	auto ub = unions2(pick(unb, 40), 2, W2, 1, th ? 500 : 120);
	U2 = new Alpha(2, 0, W2, ub);
	GenOpt o; o.chi = 2; o.pair_step = 23;
	static Window WP = window_np(1, -2, 4, 2, -2, 5);
	P2 = new Alpha(3, 1, WP, basicsN(3, 1, WP, 1, o, th ? 500 : 130));
	Window wb = window_np(1, 0, 2, 2, 0, 3); Basic bx = conj(box(3, 0, 3, 1), conj(ineq(3, {0, 1}), ineq(3, {2, -1})));
	vector<Shape> rel; { Dedup dd(wb, 2); for (auto &s : basicsN(3, 1, wb, 1, o, 100000)) { Shape q = mk({conj(bx, s.b[0])}, 3, 1); if (dd.fresh(q)) rel.push_back(q); } }
	auto ru = unions2(pick(rel, 60), 3, wb, 1, th ? 1500 : 500, 1); rel.insert(rel.end(), ru.begin(), ru.end());
	R1 = new Alpha(3, 1, wb, rel);
	static Alpha *UB = new Alpha(2, 0, W2, unb);
	GenOpt o3; o3.chi = 2; o3.pair_step = 37;
	static Alpha *U3 = new Alpha(3, 0, Window::cube(3, -2, 4), basicsN(3, 0, Window::cube(3, -2, 4), 1, o3, th ? 3000 : 900));
	h.teardown = [] { Alpha::drop_all(); };
	auto pairs = [&](const char *n, Alpha *A, void (*f)(Alpha *, size_t, size_t)) {
		uint64_t k = A->size(); h.bounds[n] = cat(k, "^2 pairs");
		h.add(mc::SpaceDef(n, k * k, [=](uint64_t i) { f(A, i / k, i % k); }, [=](uint64_t i) { return two(A, i / k, i % k); }));
	};
	auto single = [&](const char *n, Alpha *A, bool b) { h.bounds[n] = cat(A->size(), " sets"); h.add(mc::SpaceDef(n, A->size(), [=](uint64_t i) { unary(A, i, b); }, [=](uint64_t i) { return A->text(i); })); };
	pairs("bounded-pairs", A2, bounded_pair); pairs("unbounded-pairs", B2, witness_pair); pairs("unbounded-union-pairs", U2, witness_pair); pairs("parametric-pairs", P2, witness_pair);
	static Alpha *NA = new Alpha(2, 0, Window::cube(2, -1, 8), nested2(Window::cube(2, -1, 8), th ? 500 : 60)); pairs("nested-pairs", NA, bounded_pair); single("nested-unary", NA, true);
	single("bounded-unary", A2, true); single("unbounded-unary", UB, false); single("parametric-unary", P2, false); single("3d-unary", U3, false);
	h.add(mc::SpaceDef("boundedness", UB->size(), [=](uint64_t i) { boundedness(UB, i); }, [=](uint64_t i) { return UB->text(i); }));
	h.add(mc::SpaceDef("boundedness3", U3->size(), [=](uint64_t i) { boundedness(U3, i); }, [=](uint64_t i) { return U3->text(i); }));
	h.add(mc::SpaceDef("boundedness-unions", U2->size(), [=](uint64_t i) { boundedness(U2, i); }, [=](uint64_t i) { return U2->text(i); }));
	h.bounds["relations"] = cat(R1->size(), " bounded parametric relations");
	h.add(mc::SpaceDef("relations", R1->size(), [](uint64_t i) { relation(i); }, [](uint64_t i) { return R1->text(i); }));
	return mc::run(argc, argv, h);
}
