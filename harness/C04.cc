// C04: changing the representation of a set never changes the set.
#include "common.hpp"
#define C isl_set_copy
static void disjoint_check(const string &op, isl_set *s, const Window &w, const string &who) {   // keeps s
	Pts p; try { p = read_set(s); } catch (Overflow &) { return; }
	try { for (size_t i = 0; i < p.b.size(); ++i) for (size_t j = i + 1; j < p.b.size(); ++j) if (bany(band(bits(p.b[i], w), bits(p.b[j], w)))) fail(cat(op, "|", who), "disjuncts overlap"); } catch (Overflow &) {}
}
static void coalesce(isl_set *u, const Window &w, const Bits &b, const string &who) {   // keeps u
	int n = isl_set_n_basic_set(u);
	isl_set *c = isl_set_coalesce(C(u));
	if (c && isl_set_n_basic_set(c) > n) { isl_set_free(c); fail(cat("coalesce|", who), "more disjuncts than before"); }
	if (c) note_outcome(cat("coalesce ", n, "->", isl_set_n_basic_set(c)).c_str());
	expect_set("coalesce", c, w, b, who);
}
static void all_ops(isl_set *u, const Window &w, const Bits &b, const string &who, int lvl) {   // keeps u
	int np = isl_set_dim(u, isl_dim_param);
	coalesce(u, w, b, who);
	isl_set *d = isl_set_make_disjoint(C(u));
	if (d) disjoint_check("make_disjoint", d, w, who);
	expect_set("make_disjoint", d, w, b, who);
	expect_set("detect_equalities", isl_set_detect_equalities(C(u)), w, b, who);
	expect_set("remove_redundancies", isl_set_remove_redundancies(C(u)), w, b, who);
	expect_set("compute_divs", isl_set_compute_divs(C(u)), w, b, who);
	expect_set("align_divs", isl_set_align_divs(C(u)), w, b, who);
	if (!lvl) return;
	// chains: each of the operations followed by each other one
	typedef isl_set *(*Op)(isl_set *);
	static const Op op[] = {isl_set_coalesce, isl_set_make_disjoint, isl_set_detect_equalities, isl_set_remove_redundancies, isl_set_compute_divs, isl_set_align_divs};
	for (int i = 0; i < 6; ++i) { isl_set *x = op[i](C(u)); for (int j = 0; j < 6; ++j) if (i != j) expect_set(cat("chain", i, j), op[j](C(x)), w, b, who); isl_set_free(x); }
	// through the list of basic sets
	isl_basic_set_list *l = isl_set_get_basic_set_list(u);
	isl_set *r = isl_set_empty(isl_set_get_space(u)); int n = isl_basic_set_list_n_basic_set(l);
	for (int i = 0; i < n; ++i) {
		isl_basic_set *q = isl_basic_set_list_get_at(l, i);
		Bits qb; bool ok = true; try { qb = bits(read_basic_set(q), w); } catch (Overflow &) { ok = false; }
		if (ok) {
			expect_set("basic.detect_equalities", isl_set_from_basic_set(isl_basic_set_detect_equalities(isl_basic_set_copy(q))), w, qb, who);
			expect_set("basic.remove_redundancies", isl_set_from_basic_set(isl_basic_set_remove_redundancies(isl_basic_set_copy(q))), w, qb, who);
			expect_set("basic.compute_divs", isl_basic_set_compute_divs(isl_basic_set_copy(q)), w, qb, who);
		}
		r = isl_set_union(isl_set_from_basic_set(q), r);
	}
	expect_set("relist", r, w, b, who);
	isl_basic_set_list_free(l);
	isl_set_list *sl = isl_set_list_add(isl_set_list_alloc(ctx, 2), C(u)); sl = isl_set_list_add(sl, isl_set_coalesce(C(u)));
	expect_set("set_list_union", isl_set_list_union(sl), w, b, who);
	isl_union_set *us = isl_union_set_union(isl_union_set_from_set(isl_set_set_tuple_name(C(u), "S")), isl_union_set_from_set(C(u)));
	isl_space *sp = isl_set_get_space(u);
	auto uext = [&](const char *nm, isl_union_set *x) { isl_set *e = isl_union_set_extract_set(x, isl_space_copy(sp)); isl_union_set_free(x); expect_set(nm, e, w, b, who); };
	uext("uset_coalesce", isl_union_set_coalesce(isl_union_set_copy(us))); uext("uset_detect_equalities", isl_union_set_detect_equalities(isl_union_set_copy(us)));
	uext("uset_compute_divs", isl_union_set_compute_divs(isl_union_set_copy(us))); uext("uset_remove_redundancies", isl_union_set_remove_redundancies(isl_union_set_copy(us)));
	isl_union_set_free(us); isl_space_free(sp);
	expect_set("reset_tuple", isl_set_reset_tuple_id(isl_set_set_tuple_name(C(u), "Q")), w, b, who);
	expect_set("reset_user", isl_set_reset_user(C(u)), w, b, who);
	// alignment with an extra parameter in front
	isl_space *model = isl_space_params_alloc(ctx, 1); model = isl_space_set_dim_name(model, isl_dim_param, 0, "zz");
	isl_set *al = isl_set_align_params(C(u), model);
	if (!al || isl_set_dim(al, isl_dim_param) != np + 1) fail(cat("align_params|", who), "wrong parameters");
	isl_set *back = isl_set_project_out_param_id(C(al), isl_set_get_dim_id(al, isl_dim_param, isl_set_find_dim_by_name(al, isl_dim_param, "zz")));
	expect_set("align_params.project", back, w, b, who, np);
	isl_set *dr = isl_set_drop_unused_params(al);
	if (dr && isl_set_dim(dr, isl_dim_param) == np) expect_set("drop_unused_params", dr, w, b, who); else isl_set_free(dr);
	// coalescing options
	for (int o = 0; o < 2; ++o) {
		int old1 = isl_options_get_coalesce_bounded_wrapping(ctx), old2 = isl_options_get_coalesce_preserve_locals(ctx);
		if (o == 0) isl_options_set_coalesce_bounded_wrapping(ctx, !old1); else isl_options_set_coalesce_preserve_locals(ctx, !old2);
		isl_set *c = isl_set_coalesce(C(u));
		isl_options_set_coalesce_bounded_wrapping(ctx, old1); isl_options_set_coalesce_preserve_locals(ctx, old2);
		expect_set(cat("coalesce.opt", o), c, w, b, who);
	}
}
static isl_set *un(Alpha &A, size_t a, size_t b) { return isl_set_union(C(A.set(a)), C(A.set(b))); }
int main(int argc, char **argv) {
	mc::Harness h; h.property = "C04"; bool th = tier_thorough(argc, argv);
	Window W2 = Window::cube(2, -3, 6);
	auto base = basics2(1, 2, th ? -4 : -3, th ? 5 : 4, true, true);
	static Alpha B(2, 0, W2, pick(base, th ? 2500 : 700));
	static Alpha T(2, 0, W2, pick(base, th ? 110 : 44));
	GenOpt o; o.chi = 2; o.pair_step = 31;
	Window W3 = Window::cube(3, -1, 4), WP = window_np(1, -2, 4, 2, -2, 5);
	static Alpha D(3, 0, W3, basicsN(3, 0, W3, 1, o, th ? 900 : 190));
	static Alpha P(3, 1, WP, basicsN(3, 1, WP, 1, o, th ? 900 : 170));
	h.teardown = [] { Alpha::drop_all(); };
	h.bounds["coalesce-pairs"] = cat("all unordered pairs of ", B.size(), " 2-d conjunctions"); h.bounds["triples"] = cat("all unordered triples of ", T.size());
	h.bounds["all-ops"] = cat("pairs of ", T.size(), " (2-d), ", D.size(), " (3-d), ", P.size(), " (parametric)");
	auto pairs = [&](const char *nm, Alpha &A, int lvl) {
		uint64_t k = A.size();
		h.add(mc::SpaceDef(nm, k * (k + 1) / 2, [k, &A, lvl](uint64_t i) {
			uint64_t a = 0, r = i; while (r >= k - a) { r -= k - a; ++a; } uint64_t b = a + r;
			isl_set *u = un(A, a, b); string who = cat("a=", A.text(a), " b=", A.text(b));
			Bits bb = bor(A.b[a], A.b[b]);
			if (lvl < 0) coalesce(u, A.w, bb, who); else all_ops(u, A.w, bb, who, lvl);
			isl_set_free(u);
		}, [k, &A](uint64_t i) { uint64_t a = 0, r = i; while (r >= k - a) { r -= k - a; ++a; } return cat("a=", A.text(a), " b=", A.text(a + r)); }));
	};
	pairs("coalesce-pairs", B, -1); pairs("ops-pairs", T, 1); pairs("ops-3d", D, 0); pairs("ops-param", P, 0);
	static Alpha N(2, 0, Window::cube(2, -1, 8), nested2(Window::cube(2, -1, 8), th ? 400 : 60)); pairs("ops-nested", N, 0);
	uint64_t t = T.size();
	h.add(mc::SpaceDef("triples", t * t * t, [t](uint64_t i) {
		uint64_t a = i / t / t, b = i / t % t, c = i % t; if (!(a < b && b < c)) return;
		isl_set *u = isl_set_union(un(T, a, b), C(T.set(c)));
		coalesce(u, T.w, bor(bor(T.b[a], T.b[b]), T.b[c]), cat("a=", T.text(a), " b=", T.text(b), " c=", T.text(c)));
		isl_set *d = isl_set_make_disjoint(u);
		if (d) disjoint_check("make_disjoint", d, T.w, "triple");
		expect_set("make_disjoint", d, T.w, bor(bor(T.b[a], T.b[b]), T.b[c]), cat("a=", T.text(a), " b=", T.text(b), " c=", T.text(c)));
	}, [t](uint64_t i) { return cat("a=", T.text(i / t / t), " b=", T.text(i / t % t), " c=", T.text(i % t)); }));
	// big constants
	static vector<vector<I>> TR = {{((I) 1 << 33) + 1, (I) 1 << 33}, {((I) 1 << 62) + 3, (I) 5}, {-((I) 1 << 65), ((I) 1 << 64) - 1}};
	for (auto &tr : TR) { vector<Shape> v; for (auto &s : pick(base, th ? 120 : 50)) v.push_back(translate(s, tr, 2, 0)); auto *A = new Alpha(2, 0, translate(W2, tr), v); pairs("translated", *A, 0); }
	return mc::run(argc, argv, h);
}
