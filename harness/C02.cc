// C02: relational operators compute exact integer images.
#include "common.hpp"
#include <isl/aff.h>
#include <isl/mat.h>
#include <functional>

typedef std::function<bool(const I *)> Pred;
static Window W1, W2, W3, W4, W2b, WN3, WN4;   // parameter + 1..3 variables, nested

static void X(const string &op, isl_map *r, const Window &w, const Pred &p, const string &who, int np, int ni) {
	if (r && isl_map_dim(r, isl_dim_param) != np) { string s = mc::str(isl_map_to_str(r)); isl_map_free(r); fail(cat(op, "|", who), cat("wrong parameters ", s)); }
	expect_map(op, r, w, where(w, p), who, ni);
}
static void XS(const string &op, isl_set *r, const Window &w, const Pred &p, const string &who, int np) { expect_set(op, r, w, where(w, p), who, np); }
#define L(...) [&](const I *p) -> bool { return __VA_ARGS__; }
#define MM(m) isl_map_copy(m)

// table model of a bounded parametric relation n,x,y in [0,2]x[0,3]x[0,3]
struct Tab {
	bool t[3][4][4];
	bool operator()(I n, I x, I y) const { return n >= 0 && n < 3 && x >= 0 && x < 4 && y >= 0 && y < 4 && t[(int) n][(int) x][(int) y]; }
	template <class F> static Tab of(F f) { Tab r; for (int n = 0; n < 3; ++n) for (int x = 0; x < 4; ++x) for (int y = 0; y < 4; ++y) r.t[n][x][y] = f(n, x, y); return r; }
	bool dom(I n, I x) const { for (int y = 0; y < 4; ++y) if ((*this)(n, x, y)) return true; return false; }
	bool ran(I n, I y) const { for (int x = 0; x < 4; ++x) if ((*this)(n, x, y)) return true; return false; }
	bool par(I n) const { for (int x = 0; x < 4; ++x) if (dom(n, x)) return true; return false; }
};
static Tab table(const Shape &s) { return Tab::of([&](int n, int x, int y) { I p[3] = {n, x, y}; return contains(s, p); }); }
static Alpha *A; static vector<Tab> T;
static string two(size_t a, size_t b) { return cat("a=", A->text(a), " b=", A->text(b)); }

static isl_set *ext(isl_union_set *u, isl_space *sp) { isl_set *r = isl_union_set_extract_set(u, isl_space_copy(sp)); isl_union_set_free(u); return r; }
static void unary(size_t i) {
	isl_map *m = A->map(i, 1); const Tab &t = T[i]; string who = A->text(i);
	isl_set *s = isl_set_copy(A->set(i));
	X("reverse", isl_map_reverse(MM(m)), W3, L(t(p[0], p[2], p[1])), who, 1, 1);
	XS("domain", isl_map_domain(MM(m)), W2, L(t.dom(p[0], p[1])), who, 1);
	XS("range", isl_map_range(MM(m)), W2, L(t.ran(p[0], p[1])), who, 1);
	XS("params", isl_map_params(MM(m)), W1, L(t.par(p[0])), who, 1);
	XS("wrap", isl_map_wrap(MM(m)), W3, L(t(p[0], p[1], p[2])), who, 1);
	X("unwrap", isl_set_unwrap(isl_map_wrap(MM(m))), W3, L(t(p[0], p[1], p[2])), who, 1, 1);
	auto delta = [&](I n, I d) { for (int x = 0; x < 4; ++x) if (t(n, x, x + d)) return true; return false; };
	XS("deltas", isl_map_deltas(MM(m)), W2, L(delta(p[0], p[1])), who, 1);
	X("deltas_map", isl_map_deltas_map(MM(m)), W4, L(t(p[0], p[1], p[2]) && p[3] == p[2] - p[1]), who, 1, 2);
	X("domain_map", isl_map_domain_map(MM(m)), W4, L(t(p[0], p[1], p[2]) && p[3] == p[1]), who, 1, 2);
	X("range_map", isl_map_range_map(MM(m)), W4, L(t(p[0], p[1], p[2]) && p[3] == p[2]), who, 1, 2);
	X("project_in", isl_map_project_out(MM(m), isl_dim_in, 0, 1), W2, L(t.ran(p[0], p[1])), who, 1, 0);
	X("project_out", isl_map_project_out(MM(m), isl_dim_out, 0, 1), W2, L(t.dom(p[0], p[1])), who, 1, 1);
	auto anyn = [&](I x, I y) { for (int n = 0; n < 3; ++n) if (t(n, x, y)) return true; return false; };
	X("project_param", isl_map_project_out(MM(m), isl_dim_param, 0, 1), W2b, L(anyn(p[0], p[1])), who, 0, 1);
	X("project_all_params", isl_map_project_out_all_params(MM(m)), W2b, L(anyn(p[0], p[1])), who, 0, 1);
	isl_id *idn = isl_map_get_dim_id(m, isl_dim_param, 0);
	X("project_param_id", isl_map_project_out_param_id(MM(m), idn), W2b, L(anyn(p[0], p[1])), who, 0, 1);
	X("eliminate_in", isl_map_eliminate(MM(m), isl_dim_in, 0, 1), W3, L(t.ran(p[0], p[2])), who, 1, 1);
	X("eliminate_out", isl_map_eliminate(MM(m), isl_dim_out, 0, 1), W3, L(t.dom(p[0], p[1])), who, 1, 1);
	X("eliminate_param", isl_map_eliminate(MM(m), isl_dim_param, 0, 1), W3, L(anyn(p[1], p[2])), who, 1, 1);
	X("insert_in", isl_map_insert_dims(MM(m), isl_dim_in, 0, 1), W4, L(t(p[0], p[2], p[3])), who, 1, 2);
	X("add_out", isl_map_add_dims(MM(m), isl_dim_out, 1), W4, L(t(p[0], p[1], p[2])), who, 1, 1);
	X("move_in_out", isl_map_move_dims(MM(m), isl_dim_out, 0, isl_dim_in, 0, 1), W3, L(t(p[0], p[1], p[2])), who, 1, 0);
	X("move_out_in", isl_map_move_dims(MM(m), isl_dim_in, 0, isl_dim_out, 0, 1), W3, L(t(p[0], p[2], p[1])), who, 1, 2);
	X("move_param", isl_map_move_dims(MM(m), isl_dim_in, 1, isl_dim_param, 0, 1), WN3, L(t(p[1], p[0], p[2])), who, 0, 2);
	X("move_to_param", isl_map_move_dims(MM(m), isl_dim_param, 1, isl_dim_out, 0, 1), W3, L(t(p[0], p[2], p[1])), who, 2, 1);
	for (int v = -1; v <= 4; v += 1) {
		X("fix_in", isl_map_fix_si(MM(m), isl_dim_in, 0, v), W3, L(t(p[0], p[1], p[2]) && p[1] == v), who, 1, 1);
		X("fix_param_val", isl_map_fix_val(MM(m), isl_dim_param, 0, isl_val_int_from_si(ctx, v)), W3, L(t(p[0], p[1], p[2]) && p[0] == v), who, 1, 1);
		X("lower_bound", isl_map_lower_bound_si(MM(m), isl_dim_out, 0, v), W3, L(t(p[0], p[1], p[2]) && p[2] >= v), who, 1, 1);
		X("upper_bound", isl_map_upper_bound_val(MM(m), isl_dim_in, 0, isl_val_int_from_si(ctx, v)), W3, L(t(p[0], p[1], p[2]) && p[1] <= v), who, 1, 1);
	}
	X("equate", isl_map_equate(MM(m), isl_dim_in, 0, isl_dim_out, 0), W3, L(t(p[0], p[1], p[2]) && p[1] == p[2]), who, 1, 1);
	X("equate_param", isl_map_equate(MM(m), isl_dim_param, 0, isl_dim_out, 0), W3, L(t(p[0], p[1], p[2]) && p[0] == p[2]), who, 1, 1);
	X("oppose", isl_map_oppose(MM(m), isl_dim_in, 0, isl_dim_out, 0), W3, L(t(p[0], p[1], p[2]) && p[1] == -p[2]), who, 1, 1);
	X("order_lt", isl_map_order_lt(MM(m), isl_dim_in, 0, isl_dim_out, 0), W3, L(t(p[0], p[1], p[2]) && p[1] < p[2]), who, 1, 1);
	X("order_gt", isl_map_order_gt(MM(m), isl_dim_in, 0, isl_dim_out, 0), W3, L(t(p[0], p[1], p[2]) && p[1] > p[2]), who, 1, 1);
	X("order_le", isl_map_order_le(MM(m), isl_dim_param, 0, isl_dim_out, 0), W3, L(t(p[0], p[1], p[2]) && p[0] <= p[2]), who, 1, 1);
	X("order_ge", isl_map_order_ge(MM(m), isl_dim_param, 0, isl_dim_in, 0), W3, L(t(p[0], p[1], p[2]) && p[0] >= p[1]), who, 1, 1);
	X("neg", isl_map_neg(MM(m)), W3, L(t(p[0], p[1], -p[2])), who, 1, 1);
	for (int d = 2; d <= 3; ++d) {
		auto fl = [&](I n, I x, I y) { for (int v = 0; v < 4; ++v) if (t(n, x, v) && fdiv(v, d) == y) return true; return false; };
		X("floordiv", isl_map_floordiv_val(MM(m), isl_val_int_from_si(ctx, d)), W3, L(fl(p[0], p[1], p[2])), who, 1, 1);
	}
	X("from_domain", isl_map_from_domain(isl_set_copy(s)), W3, L(t(p[0], p[1], p[2])), who, 1, 2);
	X("from_range", isl_map_from_range(isl_set_copy(s)), W3, L(t(p[0], p[1], p[2])), who, 1, 0);
	X("from_dom_ran", isl_map_from_domain_and_range(isl_map_domain(MM(m)), isl_map_range(MM(m))), W3, L(t.dom(p[0], p[1]) && t.ran(p[0], p[2])), who, 1, 1);
	X("set_identity", isl_set_identity(isl_map_domain(MM(m))), W3, L(t.dom(p[0], p[1]) && p[1] == p[2]), who, 1, 1);
	X("project_onto_map", isl_set_project_onto_map(isl_set_copy(s), isl_dim_set, 1, 1), W4, L(t(p[0], p[1], p[2]) && p[3] == p[2]), who, 1, 2);
	XS("set_neg", isl_set_neg(isl_set_copy(s)), W3, L(t(p[0], -p[1], -p[2])), who, 1);
	XS("set_project0", isl_set_project_out(isl_set_copy(s), isl_dim_set, 0, 1), W2, L(t.ran(p[0], p[1])), who, 1);
	XS("set_project1", isl_set_project_out(isl_set_copy(s), isl_dim_set, 1, 1), W2, L(t.dom(p[0], p[1])), who, 1);
	XS("set_eliminate", isl_set_eliminate(isl_set_copy(s), isl_dim_set, 0, 2), W3, L(t.par(p[0])), who, 1);
	XS("set_from_params", isl_set_from_params(isl_set_params(isl_set_copy(s))), W1, L(t.par(p[0])), who, 1);
	XS("split_dims", isl_set_split_dims(isl_set_copy(s), isl_dim_set, 0, 1), W3, L(t(p[0], p[1], p[2])), who, 1);
	{ isl_set *l = isl_set_lift(isl_set_copy(s)); isl_map *u = isl_set_unwrap(isl_set_copy(l)); isl_set_free(l);
	  if (!u) fail(cat("lift|", who), "lift is not a wrapped relation"); XS("lift.domain", isl_map_domain(u), W3, L(t(p[0], p[1], p[2])), who, 1); }
	X("flat", isl_map_flatten(isl_map_domain_map(MM(m))), W4, L(t(p[0], p[1], p[2]) && p[3] == p[1]), who, 1, 2);
	X("curry.uncurry", isl_map_uncurry(isl_map_curry(isl_map_domain_map(MM(m)))), W4, L(t(p[0], p[1], p[2]) && p[3] == p[1]), who, 1, 2);
	X("curry", isl_map_curry(isl_map_range_map(MM(m))), W4, L(t(p[0], p[1], p[2]) && p[3] == p[2]), who, 1, 1);
	// sets of dimension one ordered against each other
	auto bm = [&](isl_map *r, const char *op, const Pred &q, int ni) { X(op, r, W3, q, who, 1, ni); };
	bm(isl_set_lex_lt_set(isl_map_domain(MM(m)), isl_map_range(MM(m))), "lex_lt_set", L(t.dom(p[0], p[1]) && t.ran(p[0], p[2]) && p[1] < p[2]), 1);
	bm(isl_set_lex_ge_set(isl_map_domain(MM(m)), isl_map_range(MM(m))), "lex_ge_set", L(t.dom(p[0], p[1]) && t.ran(p[0], p[2]) && p[1] >= p[2]), 1);
	// bind / unbind
	{ isl_id *id = isl_id_alloc(ctx, "k", 0); isl_multi_id *mi = isl_multi_id_from_id_list(isl_space_range(isl_map_get_space(m)), isl_id_list_from_id(id));
	  XS("bind_range", isl_map_bind_range(MM(m), isl_multi_id_copy(mi)), W3, L(t(p[0], p[2], p[1])), who, 2);
	  XS("bind_domain", isl_map_bind_domain(MM(m), isl_multi_id_copy(mi)), W3, L(t(p[0], p[1], p[2])), who, 2);
	  isl_set *bs = isl_map_bind_range(MM(m), isl_multi_id_copy(mi));
	  X("unbind_insert", isl_set_unbind_params_insert_domain(bs, mi), W3, L(t(p[0], p[2], p[1])), who, 1, 1); }
	// preimages under affine functions  x -> c x + n + d and floor(x/2)
	const char *fn[] = {"[n] -> { [u] -> [2u + n - 1] }", "[n] -> { [u] -> [floor((u + n)/2)] }", "[n] -> { [u] -> [3 - u] }"};
	auto fv = [&](int k, I n, I u) { return k == 0 ? 2 * u + n - 1 : k == 1 ? fdiv(u + n, 2) : 3 - u; };
	for (int k = 0; k < 3; ++k) {
		isl_multi_aff *ma = isl_multi_aff_read_from_str(ctx, fn[k]);
		X("preimage_domain", isl_map_preimage_domain_multi_aff(MM(m), isl_multi_aff_copy(ma)), W3, L(t(p[0], fv(k, p[0], p[1]), p[2])), who, 1, 1);
		X("preimage_range", isl_map_preimage_range_multi_aff(MM(m), isl_multi_aff_copy(ma)), W3, L(t(p[0], p[1], fv(k, p[0], p[2]))), who, 1, 1);
		isl_pw_multi_aff *pma = isl_pw_multi_aff_intersect_domain(isl_pw_multi_aff_from_multi_aff(ma), isl_map_domain(MM(m)));
		X("preimage_domain_pma", isl_map_preimage_domain_pw_multi_aff(MM(m), isl_pw_multi_aff_copy(pma)), W3, L(t.dom(p[0], p[1]) && t(p[0], fv(k, p[0], p[1]), p[2])), who, 1, 1);
		XS("set_preimage_pma", isl_set_preimage_pw_multi_aff(isl_map_range(MM(m)), pma), W2, L(t.dom(p[0], p[1]) && t.ran(p[0], fv(k, p[0], p[1]))), who, 1);
	}
	// over-approximating drops
	struct Sup { const char *n; isl_map *r; };
	for (auto &sp : {Sup{"remove_divs", isl_map_remove_divs(MM(m))}, Sup{"remove_divs_in", isl_map_remove_divs_involving_dims(MM(m), isl_dim_in, 0, 1)}, Sup{"remove_unknown_divs", isl_map_remove_unknown_divs(MM(m))},
	                 Sup{"drop_constraints", isl_map_drop_constraints_involving_dims(MM(m), isl_dim_out, 0, 1)}, Sup{"drop_not", isl_map_drop_constraints_not_involving_dims(MM(m), isl_dim_in, 0, 1)}}) {
		Bits got = bits_map(sp.r, W3); Bits miss = bdiff(A->b[i], got); note_transition(); isl_map_free(sp.r);
		(void) miss; Bits must = where(W3, L(t(p[0], p[1], p[2])));
		if (bany(bdiff(must, got))) fail(cat(sp.n, "|", who), "lost elements"); note_validated();
	}
	isl_set_free(s);
}

static void binary(size_t ia, size_t ib, bool heavy) {
	isl_map *a = A->map(ia, 1), *b = A->map(ib, 1); const Tab &s = T[ia], &t = T[ib]; string who = two(ia, ib);
	auto comp = [&](I n, I x, I z) { for (int y = 0; y < 4; ++y) if (s(n, x, y) && t(n, y, z)) return true; return false; };
	auto compd = [&](I n, I z, I y) { for (int x = 0; x < 4; ++x) if (s(n, x, y) && t(n, x, z)) return true; return false; };
	X("apply_range", isl_map_apply_range(MM(a), MM(b)), W3, L(comp(p[0], p[1], p[2])), who, 1, 1);
	X("apply_domain", isl_map_apply_domain(MM(a), MM(b)), W3, L(compd(p[0], p[1], p[2])), who, 1, 1);
	isl_space *rsp = isl_space_range(isl_map_get_space(b));
	struct FS { isl_space *s; ~FS() { isl_space_free(s); } } fs{rsp};
	auto img = [&](I n, I y) { for (int x = 0; x < 4; ++x) if (s.ran(n, x) && t(n, x, y)) return true; return false; };
	XS("set_apply", isl_set_apply(isl_map_range(MM(a)), MM(b)), W2, L(img(p[0], p[1])), who, 1);
	XS("uset_apply", ext(isl_union_set_apply(isl_union_set_from_set(isl_map_range(MM(a))), isl_union_map_from_map(MM(b))), rsp) , W2, L(img(p[0], p[1])), who, 1);
	auto lexm = [&](I n, I x, I z, int k) { for (int y = 0; y < 4; ++y) for (int v = 0; v < 4; ++v) if (s(n, x, y) && t(n, z, v) && (k == 0 ? y < v : k == 1 ? y <= v : k == 2 ? y > v : y >= v)) return true; return false; };
	auto summ = [&](I n, I x, I z) { for (int y = 0; y < 4; ++y) if (s(n, x, y) && t(n, x, z - y)) return true; return false; };
	X("sum", isl_map_sum(MM(a), MM(b)), W3, L(summ(p[0], p[1], p[2])), who, 1, 1);
	if (!heavy) return;
	X("lex_lt_map", isl_map_lex_lt_map(MM(a), MM(b)), W3, L(lexm(p[0], p[1], p[2], 0)), who, 1, 1);
	X("lex_le_map", isl_map_lex_le_map(MM(a), MM(b)), W3, L(lexm(p[0], p[1], p[2], 1)), who, 1, 1);
	X("lex_gt_map", isl_map_lex_gt_map(MM(a), MM(b)), W3, L(lexm(p[0], p[1], p[2], 2)), who, 1, 1);
	X("lex_ge_map", isl_map_lex_ge_map(MM(a), MM(b)), W3, L(lexm(p[0], p[1], p[2], 3)), who, 1, 1);
	X("domain_product", isl_map_domain_product(MM(a), MM(b)), W4, L(s(p[0], p[1], p[3]) && t(p[0], p[2], p[3])), who, 1, 2);
	X("range_product", isl_map_range_product(MM(a), MM(b)), W4, L(s(p[0], p[1], p[2]) && t(p[0], p[1], p[3])), who, 1, 1);
	X("flat_range_product", isl_map_flat_range_product(MM(a), MM(b)), W4, L(s(p[0], p[1], p[2]) && t(p[0], p[1], p[3])), who, 1, 1);
	X("flat_domain_product", isl_map_flat_domain_product(MM(a), MM(b)), W4, L(s(p[0], p[1], p[3]) && t(p[0], p[2], p[3])), who, 1, 2);
	isl_map *pr = isl_map_product(MM(a), MM(b));
	X("product", MM(pr), WN4, L(s(p[0], p[1], p[3]) && t(p[0], p[2], p[4])), who, 1, 2);
	X("product.zip", isl_map_zip(MM(pr)), WN4, L(s(p[0], p[1], p[2]) && t(p[0], p[3], p[4])), who, 1, 2);
	X("product.factor_domain", isl_map_factor_domain(MM(pr)), W3, L(s(p[0], p[1], p[2]) && t.par(p[0])), who, 1, 1);
	X("product.factor_range", isl_map_factor_range(MM(pr)), W3, L(t(p[0], p[1], p[2]) && s.par(p[0])), who, 1, 1);
	X("flat_product", isl_map_flat_product(MM(a), MM(b)), WN4, L(s(p[0], p[1], p[3]) && t(p[0], p[2], p[4])), who, 1, 2);
	isl_map_free(pr);
	// union versions across two spaces
	auto nm = [&](isl_map *x, const char *d, const char *r) { return isl_map_set_tuple_name(isl_map_set_tuple_name(isl_map_copy(x), isl_dim_in, d), isl_dim_out, r); };
	isl_union_map *u1 = isl_union_map_add_map(isl_union_map_from_map(nm(a, "S", "A")), nm(b, "S", "B"));
	isl_union_map *u2 = isl_union_map_add_map(isl_union_map_from_map(nm(b, "A", "Z")), nm(a, "B", "Z"));
	auto comp2 = [&](I n, I x, I z) { for (int y = 0; y < 4; ++y) if (t(n, x, y) && s(n, y, z)) return true; return false; };
	isl_union_map *u3 = isl_union_map_apply_range(isl_union_map_copy(u1), isl_union_map_copy(u2));
	isl_map *z = nm(a, "S", "Z"); isl_space *zs = isl_map_get_space(z); isl_map_free(z);
	X("umap_apply_range", isl_union_map_extract_map(u3, zs), W3, L(comp(p[0], p[1], p[2]) || comp2(p[0], p[1], p[2])), who, 1, 1);
	isl_union_map_free(u3);
	isl_space *nS = isl_space_set_tuple_name(isl_space_copy(rsp), isl_dim_set, "S"), *nZ = isl_space_set_tuple_name(isl_space_copy(rsp), isl_dim_set, "Z");
	FS fs1{nS}, fs2{nZ};
	isl_union_set *d = isl_union_map_domain(isl_union_map_copy(u1));
	XS("umap_domain", ext(d, nS), W2, L(s.dom(p[0], p[1]) || t.dom(p[0], p[1])), who, 1);
	XS("umap_range_u2", ext(isl_union_map_range(isl_union_map_copy(u2)), nZ), W2, L(s.ran(p[0], p[1]) || t.ran(p[0], p[1])), who, 1);
	isl_union_map *rp = isl_union_map_range_product(isl_union_map_copy(u1), isl_union_map_copy(u1));
	{ isl_map *q = isl_map_range_product(nm(a, "S", "A"), nm(b, "S", "B")); isl_space *qs = isl_map_get_space(q); isl_map_free(q);
	  X("umap_range_product", isl_union_map_extract_map(rp, qs), W4, L(s(p[0], p[1], p[2]) && t(p[0], p[1], p[3])), who, 1, 1); }
	isl_union_map_free(rp); isl_union_map_free(u1); isl_union_map_free(u2);
}

// closed operation sequences on relations over the table
static const int NOPS = 9;
static const char *opn[NOPS] = {"reverse", "apply_range", "apply_domain", "union", "intersect", "subtract", "intersect_domain(range)", "equate_or_id", "dom x ran"};
static void sequence(const vector<size_t> &pick_, uint64_t i, int depth, const string &who) {
	size_t k = pick_.size();
	size_t c0 = pick_[i % k]; i /= k;
	isl_map *m = MM(A->map(c0, 1)); Tab t = T[c0];
	for (int d = 0; d < depth; ++d) {
		int o = i % NOPS; i /= NOPS; size_t c = pick_[i % k]; i /= k;
		isl_map *b = A->map(c, 1); const Tab s = T[c], o_ = t;
		switch (o) {
		case 0: m = isl_map_reverse(m); t = Tab::of([&](int n, int x, int y) { return o_(n, y, x); }); break;
		case 1: m = isl_map_apply_range(m, MM(b)); t = Tab::of([&](int n, int x, int z) { for (int y = 0; y < 4; ++y) if (o_(n, x, y) && s(n, y, z)) return true; return false; }); break;
		case 2: m = isl_map_apply_domain(m, MM(b)); t = Tab::of([&](int n, int y, int z) { /* y -> z: image of x under b, value z of a */ for (int x = 0; x < 4; ++x) if (o_(n, x, z) && s(n, x, y)) return true; return false; }); break;
		case 3: m = isl_map_union(m, MM(b)); t = Tab::of([&](int n, int x, int y) { return o_(n, x, y) || s(n, x, y); }); break;
		case 4: m = isl_map_intersect(m, MM(b)); t = Tab::of([&](int n, int x, int y) { return o_(n, x, y) && s(n, x, y); }); break;
		case 5: m = isl_map_subtract(m, MM(b)); t = Tab::of([&](int n, int x, int y) { return o_(n, x, y) && !s(n, x, y); }); break;
		case 6: m = isl_map_intersect_domain(m, isl_map_range(MM(b))); t = Tab::of([&](int n, int x, int y) { return o_(n, x, y) && s.ran(n, x); }); break;
		case 7: m = isl_map_union(m, isl_set_identity(isl_map_domain(MM(b)))); t = Tab::of([&](int n, int x, int y) { return o_(n, x, y) || (s.dom(n, x) && x == y); }); break;
		case 8: m = isl_map_from_domain_and_range(isl_map_domain(m), isl_map_range(MM(b))); t = Tab::of([&](int n, int x, int y) { return o_.dom(n, x) && s.ran(n, y); }); break;
		}
		X(cat("step", d, ".", opn[o]), MM(m), W3, L(t(p[0], p[1], p[2])), who, 1, 1);
	}
	isl_map_free(m);
}
static string seq_desc(const vector<size_t> &pk, uint64_t i, int depth) {
	string r = A->text(pk[i % pk.size()]); i /= pk.size();
	for (int d = 0; d < depth; ++d) { r += cat(" ; ", opn[i % NOPS]); i /= NOPS; r += cat(" ", A->s[pk[i % pk.size()]].body); i /= pk.size(); }
	return r;
}

// nested relations [A[x]->B[y]] -> [C[z]->D[w]] over [0,2]^4
static Alpha *N4; static vector<vector<char>> N4t;
static void nested_ops(size_t i, size_t j) {
	string who = cat("nested ", N4->text(i)); const auto &tt = N4t[i];
	auto t = [&](I x, I y, I z, I w) { return x >= 0 && y >= 0 && z >= 0 && w >= 0 && x < 3 && y < 3 && z < 3 && w < 3 && tt[(int) (((x * 3 + y) * 3 + z) * 3 + w)]; };
	isl_map *m = isl_map_read_from_str(ctx, cat("{ [A[x]->B[y]] -> [C[z]->D[w]] : ", N4->s[i].body, "}").c_str());
	static Window W = Window::cube(4, -1, 3), Wt = Window::cube(3, -2, 4), Wp = Window::cube(2, -2, 4), Wo = Window::cube(1, -3, 5);
	auto ex = [&](auto f) { for (int u = 0; u < 3; ++u) if (f(u)) return true; return false; };
	auto ex2 = [&](auto f) { for (int u = 0; u < 3; ++u) for (int v = 0; v < 3; ++v) if (f(u, v)) return true; return false; };
	X("n.zip", isl_map_zip(MM(m)), W, L(t(p[0], p[2], p[1], p[3])), who, 0, 2);
	X("n.curry", isl_map_curry(MM(m)), W, L(t(p[0], p[1], p[2], p[3])), who, 0, 1);
	X("n.uncurry", isl_map_uncurry(isl_map_curry(MM(m))), W, L(t(p[0], p[1], p[2], p[3])), who, 0, 2);
	X("n.range_reverse", isl_map_range_reverse(MM(m)), W, L(t(p[0], p[1], p[3], p[2])), who, 0, 2);
	X("n.factor_domain", isl_map_factor_domain(MM(m)), Wp, L(ex2([&](int u, int v) { return t(p[0], u, p[1], v); })), who, 0, 1);
	X("n.factor_range", isl_map_factor_range(MM(m)), Wp, L(ex2([&](int u, int v) { return t(u, p[0], v, p[1]); })), who, 0, 1);
	X("n.domain_factor_domain", isl_map_domain_factor_domain(MM(m)), Wt, L(ex([&](int u) { return t(p[0], u, p[1], p[2]); })), who, 0, 1);
	X("n.domain_factor_range", isl_map_domain_factor_range(MM(m)), Wt, L(ex([&](int u) { return t(u, p[0], p[1], p[2]); })), who, 0, 1);
	X("n.range_factor_domain", isl_map_range_factor_domain(MM(m)), Wt, L(ex([&](int u) { return t(p[0], p[1], p[2], u); })), who, 0, 2);
	X("n.range_factor_range", isl_map_range_factor_range(MM(m)), Wt, L(ex([&](int u) { return t(p[0], p[1], u, p[2]); })), who, 0, 2);
	X("n.flatten", isl_map_flatten(MM(m)), W, L(t(p[0], p[1], p[2], p[3])), who, 0, 2);
	X("n.flatten_domain", isl_map_flatten_domain(MM(m)), W, L(t(p[0], p[1], p[2], p[3])), who, 0, 2);
	X("n.flatten_range", isl_map_flatten_range(MM(m)), W, L(t(p[0], p[1], p[2], p[3])), who, 0, 2);
	X("n.project_in0", isl_map_project_out(isl_map_flatten(MM(m)), isl_dim_in, 0, 1), Wt, L(ex([&](int u) { return t(u, p[0], p[1], p[2]); })), who, 0, 1);
	X("n.project_mix", isl_map_project_out(isl_map_project_out(isl_map_flatten(MM(m)), isl_dim_in, 1, 1), isl_dim_out, 0, 1), Wp, L(ex2([&](int u, int v) { return t(p[0], u, v, p[1]); })), who, 0, 1);
	{ isl_map *q = isl_map_move_dims(isl_map_flatten(MM(m)), isl_dim_out, 1, isl_dim_in, 0, 1); X("n.move", q, W, L(t(p[2], p[0], p[1], p[3])), who, 0, 1); }
	{ isl_map *f = isl_map_flatten(MM(m)); XS("n.deltas", isl_map_deltas(f), Wp, L([&]() { for (int x = 0; x < 3; ++x) for (int y = 0; y < 3; ++y) if (t(x, y, x + p[0], y + p[1])) return true; return false; }()), who, 0); }
	auto RC = isl_set_read_from_str(ctx, "{ T[] }");
	{ isl_map *r = isl_map_from_domain_and_range(isl_set_copy(RC), isl_map_wrap(MM(m)));     // T[] -> [[A->B] -> [C->D]]
	  X("n.range_curry", isl_map_range_curry(r), W, L(t(p[0], p[1], p[2], p[3])), who, 0, 0); }
	isl_set_free(RC);
	// a second relation C -> z' built from shape j used as factor filter
	const auto &uu = N4t[j];
	auto u2 = [&](I x, I y) { if (x < 0 || y < 0 || x > 2 || y > 2) return false; return (bool) uu[(int) (((x * 3 + y) * 3 + 0) * 3 + 1)]; };
	auto mk2 = [&](const char *a, const char *b) { isl_map *q = isl_map_read_from_str(ctx, cat("{ ", a, "[x] -> ", b, "[y] : exists z, w : z = 0 and w = 1 and (", N4->s[j].body, ")}").c_str()); return q; };
	X("n.intersect_range_factor_domain", isl_map_intersect_range_factor_domain(isl_map_curry(MM(m)) , isl_map_from_domain_and_range(isl_map_domain(mk2("A", "Q")), isl_map_range(mk2("Q", "B")))) , W,
	  L(t(p[0], p[1], p[2], p[3]) && ex([&](int v) { return u2(p[0], v); }) && ex([&](int v) { return u2(v, p[1]); })), who, 0, 1);
	X("n.intersect_domain_factor_domain", isl_map_intersect_domain_factor_domain(isl_map_range_factor_domain(MM(m)), mk2("A", "C")), Wt, L(ex([&](int u) { return t(p[0], p[1], p[2], u); }) && u2(p[0], p[2])), who, 0, 2);
	X("n.intersect_domain_factor_range", isl_map_intersect_domain_factor_range(isl_map_range_factor_range(MM(m)), mk2("B", "D")), Wt, L(ex([&](int u) { return t(p[0], p[1], u, p[2]); }) && u2(p[1], p[2])), who, 0, 2);
	X("n.intersect_range_factor_range", isl_map_intersect_range_factor_range(isl_map_domain_factor_range(MM(m)), mk2("B", "D")), Wt, L(ex([&](int u) { return t(u, p[0], p[1], p[2]); }) && u2(p[0], p[2])), who, 0, 1);
	X("n.intersect_domain_wrapped_domain", isl_map_intersect_domain_wrapped_domain(MM(m), isl_map_domain(mk2("A", "Q"))), W, L(t(p[0], p[1], p[2], p[3]) && ex([&](int v) { return u2(p[0], v); })), who, 0, 2);
	X("n.intersect_range_wrapped_domain", isl_map_intersect_range_wrapped_domain(MM(m), isl_map_domain(mk2("C", "Q"))), W, L(t(p[0], p[1], p[2], p[3]) && ex([&](int v) { return u2(p[2], v); })), who, 0, 2);
	XS("n.set_intersect_factor_domain", isl_set_intersect_factor_domain(isl_map_domain(MM(m)), isl_map_domain(mk2("A", "Q"))), Wp, L(ex2([&](int a, int b) { return t(p[0], p[1], a, b); }) && ex([&](int v) { return u2(p[0], v); })), who, 0);
	XS("n.set_intersect_factor_range", isl_set_intersect_factor_range(isl_map_domain(MM(m)), isl_map_range(mk2("Q", "B"))), Wp, L(ex2([&](int a, int b) { return t(p[0], p[1], a, b); }) && ex([&](int v) { return u2(v, p[1]); })), who, 0);
	isl_map_free(m);
}

// unbounded shapes: projection as an extra existential in the model
static Basic exists_var(const Basic &b, int k) {  // variable k becomes an existential
	Basic r; r.nv = b.nv - 1; r.nd = b.nd + 1; r.divs.assign(r.nd, Div()); for (auto &d : r.divs) d.known = false;
	for (int t = 0; t < 2; ++t) for (auto &q : t ? b.ineq : b.eq) { vector<I> n = q; I c = n[1 + k]; n.erase(n.begin() + 1 + k); n.push_back(c); (t ? r.ineq : r.eq).push_back(n); }
	return r;
}
static Alpha *U2, *U3;
static Bits proj_bits(const Shape &s, int k, const Window &w) { Bits r = bzero(w.count); for (auto &b : s.b) bits_basic(exists_var(b, k), w, r); return r; }
static void unbounded(Alpha *U, size_t i) {
	string who = U->text(i); int d = U->nv; Window w = Window::cube(d - 1, -3, 5);
	for (int k = 0; k < d; ++k) {
		Bits want;
		try { want = proj_bits(U->s[i], k, w); } catch (Overflow &) { note_outcome("inconclusive_model"); continue; }
		expect_set(cat("project", k), isl_set_project_out(isl_set_copy(U->set(i)), isl_dim_set, k, 1), w, want, who);
		isl_set *e = isl_set_eliminate(isl_set_copy(U->set(i)), isl_dim_set, k, 1);
		Window wf = Window::cube(d, -2, 4); auto ix = index_of(w);
		expect_set(cat("eliminate", k), e, wf, where(wf, [&](const I *p) { vector<I> q(p, p + d); q.erase(q.begin() + k); return bit(want, ix[q]); }), who);
		if (d == 2) expect_map("apply_unbounded", isl_map_from_range(isl_set_apply(isl_set_universe(isl_space_set_alloc(ctx, 0, 1)), isl_map_copy(U->map(i, 1)))), w, proj_bits(U->s[i], 0, w), who);
	}
}

int main(int argc, char **argv) {
	mc::Harness h; h.property = "C02"; bool th = tier_thorough(argc, argv);
	W1 = window_np(1, -1, 3, 0, 0, 0); W2 = window_np(1, -1, 3, 1, -4, 7); W3 = window_np(1, -1, 3, 2, -4, 7); W4 = window_np(1, -1, 3, 3, -2, 5);
	W2b = Window::cube(2, -2, 5); WN3 = Window::cube(3, -2, 5); WN4 = window_np(1, -1, 3, 4, -1, 4);
	GenOpt o; o.chi = 2; o.pair_step = th ? 11 : 41;
	// bounded relations: every generated shape conjoined with 0 <= n <= 2 and the box
	Window wb = window_np(1, 0, 2, 2, 0, 3);
	vector<Shape> base = basicsN(3, 1, wb, 1, o, 100000), bounded;
	Basic bx = conj(box(3, 0, 3, 1), conj(ineq(3, {0, 1}), ineq(3, {2, -1})));
	{ Dedup dd(wb, 1); for (auto &s : base) { Shape q = mk({conj(bx, s.b[0])}, 3, 1); if (dd.fresh(q)) bounded.push_back(q); } }
	auto pk = pick(bounded, th ? 900 : 500); auto un = unions2(pick(bounded, 30), 3, wb, 1, th ? 400 : 100, 1);
	auto all = pk; all.insert(all.end(), un.begin(), un.end());
	A = new Alpha(3, 1, wb, all);
	for (auto &s : A->s) T.push_back(table(s));
	static size_t nA = A->size(); size_t npair = th ? 420 : 84;
	static vector<size_t> sel, sel2; for (size_t k = 0; k < npair; ++k) sel.push_back(k * nA / npair);
	size_t nsq = th ? 12 : 8; for (size_t k = 0; k < nsq; ++k) sel2.push_back(nA - 1 - k * nA / nsq);
	GenOpt o4; o4.lo = 0; o4.hi = 2; o4.clo = -1; o4.chi = 1; o4.unbounded = false; o4.pair_step = 101;
	static Window w4 = Window::cube(4, 0, 2);
	auto v4 = basicsN(4, 0, w4, 1, o4, th ? 700 : 110);
	for (auto &q : v4) q = mk({conj(box(4, 0, 2), q.b[0])}, 4, 0);
	{ auto u4 = unions2(pick(v4, 10), 4, w4, 1, th ? 100 : 30); v4.insert(v4.end(), u4.begin(), u4.end()); }
	N4 = new Alpha(4, 0, w4, v4);
	for (size_t i = 0; i < N4->size(); ++i) { vector<char> c; for (int k = 0; k < w4.count; ++k) c.push_back(bit(N4->b[i], k)); N4t.push_back(c); }
	U2 = new Alpha(2, 0, Window::cube(2, -3, 6), pick(basics2(1, 2, -3, 4, true, true), th ? 3000 : 900));
	GenOpt o3; o3.chi = 2; o3.pair_step = 37;
	U3 = new Alpha(3, 0, Window::cube(3, -2, 4), basicsN(3, 0, Window::cube(3, -2, 4), 1, o3, th ? 1500 : 400));
	h.teardown = [] { Alpha::drop_all(); };
	h.bounds["unary"] = cat("45 operators on ", nA, " bounded parametric relations (n 0..2, x,y 0..3, <=2 disjuncts, <=2 existentials)");
	h.bounds["binary"] = cat("all ", npair, "^2 pairs, 5-20 operators"); h.bounds["sequences"] = cat("all sequences of length 2 of ", NOPS, " operators over ", sel2.size(), " relations");
	h.bounds["nested"] = cat(N4->size(), " relations between wrapped pairs over [0,2]^4, 24 operators");
	h.bounds["unbounded"] = cat(U2->size(), " 2-d and ", U3->size(), " 3-d possibly unbounded conjunctions, projection decided by the model's exact existential solver");
	h.add(mc::SpaceDef("unary", nA, [](uint64_t i) { unary(i); }, [](uint64_t i) { return A->text(i); }));
	h.add(mc::SpaceDef("binary", npair * npair, [=](uint64_t i) { size_t a = i / npair, b = i % npair; binary(sel[a], sel[b], (a * 31 + b) % 5 == 0); }, [=](uint64_t i) { return two(sel[i / npair], sel[i % npair]); }));
	uint64_t ns = sel2.size(), nseq = ns; for (int d = 0; d < 2; ++d) nseq *= NOPS * ns;
	h.add(mc::SpaceDef("sequences", nseq, [=](uint64_t i) { sequence(sel2, i, 2, seq_desc(sel2, i, 2)); }, [=](uint64_t i) { return seq_desc(sel2, i, 2); }));
	uint64_t n4 = N4->size();
	h.add(mc::SpaceDef("nested", n4 * n4 / (th ? 6 : 3), [=](uint64_t i) { nested_ops(i % n4, (i + i / n4 * 3) % n4); }, [=](uint64_t i) { return N4->text(i % n4); }));
	h.add(mc::SpaceDef("unbounded2", U2->size(), [](uint64_t i) { unbounded(U2, i); }, [](uint64_t i) { return U2->text(i); }));
	h.add(mc::SpaceDef("unbounded3", U3->size(), [](uint64_t i) { unbounded(U3, i); }, [](uint64_t i) { return U3->text(i); }));
	return mc::run(argc, argv, h);
}
