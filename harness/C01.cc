// C01: Boolean algebra of sets and relations is exact.
#include "common.hpp"
#define C isl_set_copy

static void boolean_ops(isl_set *a, isl_set *b, const Bits &ba, const Bits &bb, const Window &w, const string &who, bool bas, int depth) {
	int n = w.count;
	auto AND = band(ba, bb), OR = bor(ba, bb), DIFF = bdiff(ba, bb);
	expect_set("intersect", isl_set_intersect(C(a), C(b)), w, AND, who);
	expect_set("union", isl_set_union(C(a), C(b)), w, OR, who);
	expect_set("subtract", isl_set_subtract(C(a), C(b)), w, DIFF, who);
	if (depth) {
		auto XOR = bor(DIFF, bdiff(bb, ba));
		expect_set("complement", isl_set_complement(C(a)), w, bnot(ba, n), who);
		// re-use of results: (a-b) u (b-a), (a u b) - (a n b), a - (a - b)
		isl_set *d1 = isl_set_subtract(C(a), C(b)), *d2 = isl_set_subtract(C(b), C(a));
		expect_set("symdiff1", isl_set_union_disjoint(C(d1), C(d2)), w, XOR, who);
		expect_set("a-(a-b)", isl_set_subtract(C(a), C(d1)), w, AND, who);
		expect_set("(a-b)n(b-a)", isl_set_intersect(d1, d2), w, bzero(n), who);
		isl_set *u = isl_set_union(C(a), C(b));
		isl_set *i = isl_set_intersect(C(a), C(b));
		expect_set("symdiff2", isl_set_subtract(u, i), w, XOR, who);
	}
	if (bas && isl_set_n_basic_set(a) == 1 && isl_set_n_basic_set(b) == 1) {
		isl_basic_set_list *la = isl_set_get_basic_set_list(a), *lb = isl_set_get_basic_set_list(b);
		isl_basic_set *xa = isl_basic_set_list_get_at(la, 0), *xb = isl_basic_set_list_get_at(lb, 0);
		isl_basic_set_list_free(la); isl_basic_set_list_free(lb);
		expect_set("basic_intersect", isl_set_from_basic_set(isl_basic_set_intersect(isl_basic_set_copy(xa), isl_basic_set_copy(xb))), w, AND, who);
		expect_set("basic_union", isl_basic_set_union(xa, xb), w, OR, who);
	}
}
static string two(const Alpha &A, size_t a, size_t b) { return cat("a=", A.text(a), " b=", A.text(b)); }

// relations n -> x,y style: parameter first; restriction operators
static void restriction_ops(Alpha &A, size_t a, size_t b) {
	// variables: n | x -> y ; relation a, and projections of b onto one axis as exact sets (box-bounded unions)
	const Window &w = A.w; string who = two(A, a, b);
	isl_map *m = A.map(a, 1), *m2 = A.map(b, 1); const Bits &ba = A.b[a], &bb = A.b[b];
	expect_map("map_intersect", isl_map_intersect(isl_map_copy(m), isl_map_copy(m2)), w, band(ba, bb), who, 1);
	expect_map("map_subtract", isl_map_subtract(isl_map_copy(m), isl_map_copy(m2)), w, bdiff(ba, bb), who, 1);
	expect_map("map_union", isl_map_union(isl_map_copy(m), isl_map_copy(m2)), w, bor(ba, bb), who, 1);
	// one-dimensional slices of b: fix the other coordinate to 1
	auto slice = [&](int keep, int fixed, I val) {  // window-indicator of { points whose `keep` coordinate c satisfies b(n, .., c with fixed = val) }
		return where(w, [&](const I *p) { I q[3] = {p[0], 0, 0}; q[keep] = p[keep]; q[fixed] = val; return contains(A.s[b], q); });
	};
	isl_set *sx = isl_map_domain(isl_map_fix_si(isl_map_copy(m2), isl_dim_out, 0, 1));
	isl_set *sy = isl_map_range(isl_map_fix_si(isl_map_copy(m2), isl_dim_in, 0, 1));
	Bits fx = slice(1, 2, 1), fy = slice(2, 1, 1);
	expect_map("intersect_domain", isl_map_intersect_domain(isl_map_copy(m), C(sx)), w, band(ba, fx), who, 1);
	expect_map("subtract_domain", isl_map_subtract_domain(isl_map_copy(m), C(sx)), w, bdiff(ba, fx), who, 1);
	expect_map("intersect_range", isl_map_intersect_range(isl_map_copy(m), C(sy)), w, band(ba, fy), who, 1);
	expect_map("subtract_range", isl_map_subtract_range(isl_map_copy(m), C(sy)), w, bdiff(ba, fy), who, 1);
	isl_set *sp = isl_set_params(isl_set_fix_si(C(sx), isl_dim_set, 0, 1));
	Bits fp = where(w, [&](const I *p) { I q[3] = {p[0], 1, 1}; return contains(A.s[b], q); });
	expect_map("intersect_params", isl_map_intersect_params(isl_map_copy(m), C(sp)), w, band(ba, fp), who, 1);
	// union objects over two tuple names: S (a, b) and T (b, a)
	isl_set *S1 = isl_set_set_tuple_name(isl_map_wrap(isl_map_copy(m)), "S"), *S2 = isl_set_set_tuple_name(isl_map_wrap(isl_map_copy(m2)), "S");
	isl_set *T1 = isl_set_set_tuple_name(isl_map_wrap(isl_map_copy(m)), "T"), *T2 = isl_set_set_tuple_name(isl_map_wrap(isl_map_copy(m2)), "T");
	isl_union_set *u1 = isl_union_set_union(isl_union_set_from_set(C(S1)), isl_union_set_from_set(C(T2)));
	isl_union_set *u2 = isl_union_set_union(isl_union_set_from_set(C(S2)), isl_union_set_from_set(C(T1)));
	isl_space *ss = isl_set_get_space(S1), *st = isl_set_get_space(T1);
	auto both = [&](const char *op, isl_union_set *r, const Bits &ws, const Bits &wt) {
		if (!r) fail(cat(op, "|", who), "NULL");
		isl_set *xs = isl_union_set_extract_set(r, isl_space_copy(ss)), *xt = isl_union_set_extract_set(r, isl_space_copy(st));
		isl_union_set_free(r);
		expect_set(cat(op, ".S"), xs, w, ws, who); expect_set(cat(op, ".T"), xt, w, wt, who);
	};
	both("uset_intersect", isl_union_set_intersect(isl_union_set_copy(u1), isl_union_set_copy(u2)), band(ba, bb), band(ba, bb));
	both("uset_union", isl_union_set_union(isl_union_set_copy(u1), isl_union_set_copy(u2)), bor(ba, bb), bor(ba, bb));
	both("uset_subtract", isl_union_set_subtract(isl_union_set_copy(u1), isl_union_set_copy(u2)), bdiff(ba, bb), bdiff(bb, ba));
	both("uset_intersect_params", isl_union_set_intersect_params(isl_union_set_copy(u1), C(sp)), band(ba, fp), band(bb, fp));
	both("uset_subtract1", isl_union_set_subtract(isl_union_set_copy(u1), isl_union_set_from_set(C(T2))), ba, bzero(w.count));
	// union maps S[x] -> A[y], T[x] -> A[y]
	auto nm = [&](isl_map *x, const char *d) { return isl_map_set_tuple_name(isl_map_set_tuple_name(isl_map_copy(x), isl_dim_in, d), isl_dim_out, "A"); };
	isl_union_map *um1 = isl_union_map_union(isl_union_map_from_map(nm(m, "S")), isl_union_map_from_map(nm(m2, "T")));
	isl_union_map *um2 = isl_union_map_union(isl_union_map_from_map(nm(m2, "S")), isl_union_map_from_map(nm(m, "T")));
	isl_map *ms = nm(m, "S"), *mt = nm(m, "T"); isl_space *ps = isl_map_get_space(ms), *pt = isl_map_get_space(mt); isl_map_free(ms); isl_map_free(mt);
	auto bothm = [&](const char *op, isl_union_map *r, const Bits &ws, const Bits &wt) {
		if (!r) fail(cat(op, "|", who), "NULL");
		isl_map *xs = isl_union_map_extract_map(r, isl_space_copy(ps)), *xt = isl_union_map_extract_map(r, isl_space_copy(pt));
		isl_union_map_free(r);
		expect_map(cat(op, ".S"), xs, w, ws, who, 1); expect_map(cat(op, ".T"), xt, w, wt, who, 1);
	};
	isl_union_set *dS = isl_union_set_from_set(isl_set_set_tuple_name(C(sx), "S")), *rA = isl_union_set_from_set(isl_set_set_tuple_name(C(sy), "A"));
	bothm("umap_intersect", isl_union_map_intersect(isl_union_map_copy(um1), isl_union_map_copy(um2)), band(ba, bb), band(ba, bb));
	bothm("umap_union", isl_union_map_union(isl_union_map_copy(um1), isl_union_map_copy(um2)), bor(ba, bb), bor(ba, bb));
	bothm("umap_subtract", isl_union_map_subtract(isl_union_map_copy(um1), isl_union_map_copy(um2)), bdiff(ba, bb), bdiff(bb, ba));
	bothm("umap_intersect_domain", isl_union_map_intersect_domain(isl_union_map_copy(um1), isl_union_set_copy(dS)), band(ba, fx), bzero(w.count));
	bothm("umap_subtract_domain", isl_union_map_subtract_domain(isl_union_map_copy(um1), isl_union_set_copy(dS)), bdiff(ba, fx), bb);
	bothm("umap_intersect_range", isl_union_map_intersect_range(isl_union_map_copy(um1), isl_union_set_copy(rA)), band(ba, fy), band(bb, fy));
	bothm("umap_subtract_range", isl_union_map_subtract_range(isl_union_map_copy(um1), isl_union_set_copy(rA)), bdiff(ba, fy), bdiff(bb, fy));
	bothm("umap_intersect_params", isl_union_map_intersect_params(isl_union_map_copy(um1), C(sp)), band(ba, fp), band(bb, fp));
	// wrapped factors: (x -> n-shifted copy) -> y
	isl_map *mm = isl_map_product(isl_map_copy(m), isl_map_copy(m2));  // [x->x'] -> [y->y']
	isl_map_free(mm);
	isl_space_free(ss); isl_space_free(st); isl_space_free(ps); isl_space_free(pt);
	isl_union_map_free(um1); isl_union_map_free(um2); isl_union_set_free(dS); isl_union_set_free(rA);
	isl_union_set_free(u1); isl_union_set_free(u2); isl_set_free(S1); isl_set_free(S2); isl_set_free(T1); isl_set_free(T2);
	isl_set_free(sx); isl_set_free(sy); isl_set_free(sp);
}

// every sequence of `depth` operations applied to an accumulator, all operands from a small alphabet
static void op_sequence(Alpha &A, uint64_t i, int depth, int nops, const string &who) {
	size_t k = A.size();
	size_t s0 = i % k; i /= k;
	isl_set *acc = C(A.set(s0)); Bits b = A.b[s0];
	for (int d = 0; d < depth; ++d) {
		size_t o = i % nops; i /= nops; size_t s = i % k; i /= k;
		isl_set *x = A.set(s); const Bits &bx = A.b[s];
		switch (o) {
		case 0: acc = isl_set_intersect(acc, C(x)); b = band(b, bx); break;
		case 1: acc = isl_set_union(acc, C(x)); b = bor(b, bx); break;
		case 2: acc = isl_set_subtract(acc, C(x)); b = bdiff(b, bx); break;
		case 3: acc = isl_set_subtract(C(x), acc); b = bdiff(bx, b); break;
		case 4: acc = isl_set_complement(acc); b = bnot(b, A.w.count); break;
		case 5: acc = isl_set_coalesce(isl_set_union(acc, C(x))); b = bor(b, bx); break;
		}
		expect_set(cat("step", d, ".", o), C(acc), A.w, b, who);
	}
	isl_set_free(acc);
}
static string seq_desc(Alpha &A, uint64_t i, int depth, int nops) {
	static const char *nm[] = {"n", "u", "-", "rev-", "compl", "u+coalesce"};
	size_t k = A.size(); string r = A.s[i % k].body; i /= k;
	for (int d = 0; d < depth; ++d) { r += cat(" ; ", nm[i % nops]); i /= nops; r += cat(" ", A.s[i % k].body); i /= k; }
	return r;
}

int main(int argc, char **argv) {
	mc::Harness h; h.property = "C01"; bool th = tier_thorough(argc, argv);
	Window W2 = Window::cube(2, -3, 6);
	auto base2 = basics2(1, 2, th ? -4 : -3, th ? 5 : 4, true, true);
	static Alpha B(2, 0, W2, pick(base2, th ? 2000 : 330));
	static Alpha U(2, 0, W2, unions2(pick(base2, th ? 60 : 30), 2, W2, 1, th ? 900 : 110));
	GenOpt o; o.chi = 2; o.pair_step = 31;
	Window WP = window_np(1, -2, 4, 2, -2, 5);
	auto pv = basicsN(3, 1, WP, 1, o, th ? 400 : 56);
	{ auto u = unions2(pick(pv, 20), 3, WP, 1, th ? 200 : 24, 1); pv.insert(pv.end(), u.begin(), u.end()); }
	static Alpha P(3, 1, WP, pv);
	static Alpha D3(3, 0, Window::cube(3, -1, 4), basicsN(3, 0, Window::cube(3, -1, 4), 1, o, th ? 700 : 130));
	static Alpha S(2, 0, W2, pick(unions2(pick(base2, 11), 2, W2, 1), th ? 22 : 9));
	static Alpha N(2, 0, Window::cube(2, -1, 8), nested2(Window::cube(2, -1, 8), th ? 500 : 70)); uint64_t nn = N.size(); h.bounds["nested-pairs"] = cat(nn, "^2 pairs with nested integer divisions");
	h.teardown = [] { Alpha::drop_all(); };
	uint64_t nb = B.size(), nu = U.size(), np = P.size(), n3 = D3.size(), ns = S.size();
	h.bounds["basic-pairs"] = cat(nb, "^2 pairs of conjunctions in 2 variables (|coef|<=2, consts ", th ? "-4..5" : "-3..4", ", <=1 existential), window 10^2");
	h.bounds["union-pairs"] = cat(nu, "^2 pairs of 2-disjunct sets");
	h.bounds["3d-pairs"] = cat(n3, "^2 pairs in 3 variables, window 6^3");
	h.bounds["relations"] = cat(np, "^2 pairs of parametric relations (1 parameter, 1 input, 1 output), window 7x8x8");
	h.bounds["sequences"] = cat("all operation sequences of length ", th ? 3 : 2, " over ", ns, " operands and 6 operations");
	h.bounds["translated"] = "pairs translated by 2^31, 2^33, 2^62+3, -2^65 (values beyond machine words)";
	h.add(mc::SpaceDef("basic-pairs", nb * nb, [=](uint64_t i) {
		size_t a = i / nb, b = i % nb;
		boolean_ops(B.set(a), B.set(b), B.b[a], B.b[b], B.w, two(B, a, b), true, (a + b) % 7 == 0);
	}, [=](uint64_t i) { return two(B, i / nb, i % nb); }));
	h.add(mc::SpaceDef("union-pairs", nu * nu, [=](uint64_t i) {
		size_t a = i / nu, b = i % nu;
		boolean_ops(U.set(a), U.set(b), U.b[a], U.b[b], U.w, two(U, a, b), false, 1);
	}, [=](uint64_t i) { return two(U, i / nu, i % nu); }));
	h.add(mc::SpaceDef("nested-pairs", nn * nn, [=](uint64_t i) { boolean_ops(N.set(i / nn), N.set(i % nn), N.b[i / nn], N.b[i % nn], N.w, two(N, i / nn, i % nn), true, 0); }, [=](uint64_t i) { return two(N, i / nn, i % nn); }));
	h.add(mc::SpaceDef("3d-pairs", n3 * n3, [=](uint64_t i) {
		size_t a = i / n3, b = i % n3;
		boolean_ops(D3.set(a), D3.set(b), D3.b[a], D3.b[b], D3.w, two(D3, a, b), false, 0);
	}, [=](uint64_t i) { return two(D3, i / n3, i % n3); }));
	h.add(mc::SpaceDef("relations", np * np, [=](uint64_t i) { restriction_ops(P, i / np, i % np); }, [=](uint64_t i) { return two(P, i / np, i % np); }));
	int depth = th ? 3 : 2; uint64_t nseq = ns; for (int d = 0; d < depth; ++d) nseq *= 6 * ns;
	h.add(mc::SpaceDef("sequences", nseq, [=](uint64_t i) { op_sequence(S, i, depth, 6, seq_desc(S, i, depth, 6)); }, [=](uint64_t i) { return seq_desc(S, i, depth, 6); }));
	// large constants
	static vector<vector<I>> T = {{(I) 1 << 31, -((I) 1 << 31)}, {((I) 1 << 33) + 1, (I) 1 << 33}, {((I) 1 << 62) + 3, (I) 5}, {-((I) 1 << 65), ((I) 1 << 64) - 1}};
	static vector<Alpha *> TA;
	auto tb = pick(base2, th ? 300 : 60);
	for (auto &t : T) { vector<Shape> v; for (auto &s : tb) v.push_back(translate(s, t, 2, 0)); TA.push_back(new Alpha(2, 0, translate(W2, t), v)); }
	uint64_t nt = tb.size();
	h.add(mc::SpaceDef("translated", T.size() * nt * nt, [=](uint64_t i) {
		Alpha &A = *TA[i / (nt * nt)]; size_t a = i / nt % nt, b = i % nt;
		boolean_ops(A.set(a), A.set(b), A.b[a], A.b[b], A.w, two(A, a, b), false, 1);
	}, [=](uint64_t i) { return two(*TA[i / (nt * nt)], i / nt % nt, i % nt); }));
	return mc::run(argc, argv, h);
}
