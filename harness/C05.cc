// C05: gist keeps exactly the meaning inside the context.
#include "common.hpp"
#include <isl/polynomial.h>
#define C isl_set_copy
static string two(const Alpha &A, size_t a, size_t b) { return cat("a=", A.text(a), " ctx=", A.text(b)); }
// g intersected (by the model) with the context equals a intersected with the context
static void inside(const string &op, isl_set *g, const Window &w, const Bits &a, const Bits &c, const string &who) {
	note_transition();
	if (!g) { mc::take_error(); fail(cat(op, "|", who), "NULL"); }
	Bits b; try { b = bits_set(g, w); } catch (Overflow &) { isl_set_free(g); note_outcome("inconclusive"); return; }
	Bits x = band(b, c), y = band(a, c);
	note_state(mc::hash_mix(hash_bits(b), hash_bits(c)));
	if (x != y) { string t = mc::str(isl_set_to_str(g)); isl_set_free(g); fail(cat(op, "|", who), cat("differs inside the context ", show(w, x, y), " result ", t)); }
	if (isl_set_plain_is_universe(g) == isl_bool_true) note_outcome(cat(op, "=universe").c_str());
	isl_set_free(g); note_validated();
}
static void pair(Alpha &A, size_t i, size_t j, bool more) {
	isl_set *a = A.set(i), *c = A.set(j); string who = two(A, i, j); const Window &w = A.w;
	inside("gist", isl_set_gist(C(a), C(c)), w, A.b[i], A.b[j], who);
	isl_basic_set *p = A.basic(i), *q = A.basic(j);
	// the basic-set entry points assume explicit divisions (documented: "context has no implicit divs")
	auto known = [](isl_basic_set *x) { if (!x) return false; for (auto &d : read_basic_set(x).divs) if (!d.known) return false; return true; };
	bool qk = known(q), pk = known(p);
	if (qk) inside("gist_basic_set", isl_set_gist_basic_set(C(a), isl_basic_set_copy(q)), w, A.b[i], A.b[j], who);
	if (pk && qk) inside("basic_gist", isl_set_from_basic_set(isl_basic_set_gist(isl_basic_set_copy(p), isl_basic_set_copy(q))), w, A.b[i], A.b[j], who);
	isl_basic_set_free(p); isl_basic_set_free(q);
	if (!more) return;
	isl_union_set *u = isl_union_set_gist(isl_union_set_from_set(isl_set_set_tuple_name(C(a), "S")), isl_union_set_from_set(isl_set_set_tuple_name(C(c), "S")));
	isl_space *sp = isl_space_set_tuple_name(isl_set_get_space(a), isl_dim_set, "S");
	inside("uset_gist", isl_union_set_extract_set(u, sp), w, A.b[i], A.b[j], who); isl_union_set_free(u);
	// gist of a result of an earlier operation, and a gist by its own superset/subset
	isl_set *o = isl_set_union(C(a), C(c)), *n = isl_set_intersect(C(a), C(c));
	inside("gist(a,a|c)", isl_set_gist(C(a), C(o)), w, A.b[i], bor(A.b[i], A.b[j]), who);
	inside("gist(a&c,c)", isl_set_gist(n, C(c)), w, band(A.b[i], A.b[j]), A.b[j], who);
	inside("gist(a|c,c)", isl_set_gist(o, C(c)), w, bor(A.b[i], A.b[j]), A.b[j], who);
}
static void param_pair(Alpha &A, size_t i, size_t j) {
	isl_set *a = A.set(i); isl_map *m = A.map(i, 1), *mj = A.map(j, 1); string who = two(A, i, j); const Window &w = A.w;
	// the context as the exact slice of shape j at fixed coordinates (avoids projections)
	auto slice = [&](int keep) { return where(w, [&](const I *p) { I q[3] = {p[0], 1, 1}; if (keep) q[keep] = p[keep]; return contains(A.s[j], q); }); };
	isl_set *cp = isl_set_params(isl_set_fix_si(isl_set_fix_si(C(A.set(j)), isl_dim_set, 0, 1), isl_dim_set, 1, 1));
	isl_set *cx = isl_map_domain(isl_map_fix_si(isl_map_copy(mj), isl_dim_out, 0, 1)), *cy = isl_map_range(isl_map_fix_si(isl_map_copy(mj), isl_dim_in, 0, 1));
	Bits bp = slice(0), bx = slice(1), by = slice(2);
	auto W = [](isl_map *x) { return isl_set_flatten(isl_map_wrap(x)); };
	inside("gist_params", isl_set_gist_params(C(a), C(cp)), w, A.b[i], bp, who);
	inside("map_gist_params", W(isl_map_gist_params(isl_map_copy(m), C(cp))), w, A.b[i], bp, who);
	inside("map_gist", W(isl_map_gist(isl_map_copy(m), isl_map_copy(mj))), w, A.b[i], A.b[j], who);
	inside("map_gist_domain", W(isl_map_gist_domain(isl_map_copy(m), C(cx))), w, A.b[i], bx, who);
	inside("map_gist_range", W(isl_map_gist_range(isl_map_copy(m), C(cy))), w, A.b[i], by, who);
	auto U = [&](isl_union_map *u) { isl_map *x = isl_union_map_extract_map(u, isl_map_get_space(m)); isl_union_map_free(u); return W(x); };
	inside("umap_gist", U(isl_union_map_gist(isl_union_map_from_map(isl_map_copy(m)), isl_union_map_from_map(isl_map_copy(mj)))), w, A.b[i], A.b[j], who);
	inside("umap_gist_domain", U(isl_union_map_gist_domain(isl_union_map_from_map(isl_map_copy(m)), isl_union_set_from_set(C(cx)))), w, A.b[i], bx, who);
	inside("umap_gist_range", U(isl_union_map_gist_range(isl_union_map_from_map(isl_map_copy(m)), isl_union_set_from_set(C(cy)))), w, A.b[i], by, who);
	inside("umap_gist_params", U(isl_union_map_gist_params(isl_union_map_from_map(isl_map_copy(m)), C(cp))), w, A.b[i], bp, who);
	isl_set_free(cp); isl_set_free(cx); isl_set_free(cy);
}
// expressions
static const char *E[] = {"{ [x,y] -> [x] }", "{ [x,y] -> [x + 2y - 1] }", "{ [x,y] -> [floor(x/2)] }", "{ [x,y] -> [floor((x + y)/3)] }", "{ [x,y] -> [x - 2*floor(x/2) + y] }",
	"{ [x,y] -> [floor((x + 2*floor(y/2))/3)] }", "{ [x,y] -> [2*floor((x+1)/2) - floor(y/3)] }", "{ [x,y] -> [floor((2x - y + 1)/4) + x] }", "{ [x,y] -> [x mod 3] }", "{ [x,y] -> [floor(x/3) - floor((x+1)/3)] }"};
static const int NE = sizeof E / sizeof *E;
static void expr_gist(Alpha &D, Alpha &Cx, uint64_t e, uint64_t d, uint64_t c) {
	string who = cat(E[e], " on ", D.text(d), " ctx ", Cx.text(c)); const Window &w = D.w;
	isl_pw_aff *f = isl_pw_aff_intersect_domain(isl_pw_aff_read_from_str(ctx, E[e]), C(D.set(d)));
	isl_pw_aff *g0 = isl_pw_aff_copy(f);
	isl_aff *af = isl_aff_read_from_str(ctx, E[e]);
	PwAff o, n; Aff a0, a1;
	isl_pw_aff *g = isl_pw_aff_gist(f, C(Cx.set(c))); isl_aff *ag = isl_aff_gist(isl_aff_copy(af), C(Cx.set(c)));
	isl_pw_multi_aff *pm = isl_pw_multi_aff_gist(isl_pw_multi_aff_from_pw_aff(isl_pw_aff_copy(g0)), C(Cx.set(c)));
	isl_pw_qpolynomial *pq = isl_pw_qpolynomial_gist(isl_pw_qpolynomial_from_pw_aff(isl_pw_aff_copy(g0)), C(Cx.set(c)));
	note_transition(4);
	struct F { isl_pw_aff *a, *b; isl_aff *c, *d; isl_pw_multi_aff *e; isl_pw_qpolynomial *q; ~F() { isl_pw_aff_free(a); isl_pw_aff_free(b); isl_aff_free(c); isl_aff_free(d); isl_pw_multi_aff_free(e); isl_pw_qpolynomial_free(q); } } fr{g, g0, af, ag, pm, pq};
	if (!g || !ag || !pm || !pq) fail(cat("expr_gist|", who), "NULL");
	PMA pp;
	try {
		o = read_pw_aff(g0); n = read_pw_aff(g); a0 = read_aff(af); a1 = read_aff(ag); pp = read_pma(pm);
		bool anyc = false, nanok = false;
		for (int i = 0; i < w.count; ++i) anyc |= bit(Cx.b[c], i);
		nanok = !anyc;
		if (a1.nan && !nanok) fail(cat("aff_gist|", who), "NaN");
		for (int i = 0; i < w.count; ++i) if (bit(Cx.b[c], i)) {
			Rat v, r; int k = eval(o, w.at(i), v), m = eval(n, w.at(i), r);
			if (!k != !m || (k && v != r)) fail(cat("pw_aff_gist|", who), cat("at ", S(w.at(i)[0]), ",", S(w.at(i)[1]), ": ", k ? v.s() : "undef", " became ", m ? r.s() : "undef"));
			if (eval(a0, w.at(i)) != eval(a1, w.at(i))) fail(cat("aff_gist|", who), cat("value changed at ", S(w.at(i)[0]), ",", S(w.at(i)[1])));
			vector<Rat> pv; int q = eval(pp, w.at(i), pv);
			if (!k != !q || (k && pv[0] != v)) fail(cat("pma_gist|", who), "value changed");
			if (i % 5 == 0) {
				isl_point *pt = isl_point_zero(isl_set_get_space(Cx.set(c)));
				for (int z = 0; z < 2; ++z) pt = isl_point_set_coordinate_val(pt, isl_dim_set, z, isl_val_int_from_si(ctx, (long) w.at(i)[z]));
				Rat qv = rat_from_val(isl_pw_qpolynomial_eval(isl_pw_qpolynomial_copy(pq), pt));
				if (qv != (k ? v : Rat(0))) fail(cat("pwqp_gist|", who), "value changed");
			}
			note_state(mc::hash_mix(e * 77 + i, mc::hash_mix((uint64_t) v.n, k)));
		}
		note_validated(4);
	} catch (Overflow &) { note_outcome("inconclusive"); }
}
int main(int argc, char **argv) {
	mc::Harness h; h.property = "C05"; bool th = tier_thorough(argc, argv);
	Window W2 = Window::cube(2, -3, 6);
	auto base = basics2(1, 2, th ? -4 : -3, th ? 5 : 4, true, true);
	static Alpha B(2, 0, W2, pick(base, th ? 2000 : 560));
	auto un = unions2(pick(base, 40), 2, W2, 1, th ? 700 : 110); { auto q = pick(base, th ? 200 : 60); un.insert(un.end(), q.begin(), q.end()); }
	static Alpha U(2, 0, W2, un);
	GenOpt o; o.chi = 2; o.pair_step = 31;
	Window W3 = Window::cube(3, -1, 4), WP = window_np(1, -2, 4, 2, -2, 5);
	static Alpha D(3, 0, W3, basicsN(3, 0, W3, 1, o, th ? 900 : 200));
	auto pv = basicsN(3, 1, WP, 1, o, th ? 500 : 90); { auto q = unions2(pick(pv, 16), 3, WP, 1, th ? 100 : 30, 1); pv.insert(pv.end(), q.begin(), q.end()); }
	static Alpha P(3, 1, WP, pv);
	static Alpha ED(2, 0, W2, pick(un, 9)), EC(2, 0, W2, pick(base, th ? 700 : 160));
	h.teardown = [] { Alpha::drop_all(); };
	auto pairs = [&](const char *nm, Alpha &A, bool more) { uint64_t k = A.size(); h.bounds[nm] = cat(k, "^2 (object, context) pairs");
		h.add(mc::SpaceDef(nm, k * k, [k, &A, more](uint64_t i) { pair(A, i / k, i % k, more); }, [k, &A](uint64_t i) { return two(A, i / k, i % k); })); };
	pairs("basic-pairs", B, false); pairs("union-pairs", U, true); pairs("3d-pairs", D, false);
	static Alpha N(2, 0, Window::cube(2, -1, 8), nested2(Window::cube(2, -1, 8), th ? 400 : 70)); pairs("nested-pairs", N, false);
	uint64_t k = P.size(); h.bounds["param-pairs"] = cat(k, "^2 relations with 1 parameter");
	h.add(mc::SpaceDef("param-pairs", k * k, [k](uint64_t i) { param_pair(P, i / k, i % k); }, [k](uint64_t i) { return two(P, i / k, i % k); }));
	uint64_t nd = ED.size(), nc = EC.size(); h.bounds["expressions"] = cat(NE, " expressions x ", nd, " domains x ", nc, " contexts");
	h.add(mc::SpaceDef("expressions", NE * nd * nc, [=](uint64_t i) { expr_gist(ED, EC, i / (nd * nc), i / nc % nd, i % nc); }, [=](uint64_t i) { return cat(E[i / (nd * nc)], " ", ED.text(i / nc % nd), " ctx ", EC.text(i % nc)); }));
	return mc::run(argc, argv, h);
}
