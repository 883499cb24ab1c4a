// C10: tuples and unions of expressions: all operation sequences up to a depth, compared pointwise with the functions they denote.
#include "common.hpp"
#include <isl/union_set.h>
#include <memory>
typedef vector<Rat> T;
typedef std::function<bool(const I *, T &)> G;      // point (n,x,y) -> tuple; false: undefined
static Window W;
static Rat fl(Rat r) { return Rat(r.floor()); }
#define P3 I n = p[0], x = p[1], y = p[2]; (void) n; (void) x; (void) y;
#define LF(c, ...) [](const I *p, T &r) { P3; if (!(c)) return false; r = T __VA_ARGS__; return true; }
struct Leaf { string t; G f; };
static vector<Leaf> LV;
static const int NTOTAL = 3;                        // the first leaves are total and usable as multi_aff
static vector<Leaf> leaves() {
	auto E = [](const string &s) { return "[n] -> { " + s + " }"; };
	return {{E("A[x,y] -> B[(x),(y)]"), LF(true, {Rat(x), Rat(y)})},
		{E("A[x,y] -> B[(y - 2n + 1),(floor((x + y)/2))]"), LF(true, {Rat(y - 2 * n + 1), Rat(fdiv(x + y, 2))})},
		{E("A[x,y] -> B[(x/2),(n + floor(y/3))]"), LF(true, {Rat(x, 2), Rat(n + fdiv(y, 3))})},
		{E("A[x,y] -> B[(x - n),(1)] : x >= 1; A[x,y] -> B[(y),(x + y)] : x <= 0 and y >= 0"), [](const I *p, T &r) { P3; if (x >= 1) { r = {Rat(x - n), Rat(1)}; return true; } if (y >= 0) { r = {Rat(y), Rat(x + y)}; return true; } return false; }},
		{E("A[x,y] -> B[(floor(y/2)),(2)] : x mod 2 = 0"), LF(mod(x, 2) == 0, {Rat(fdiv(y, 2)), Rat(2)})},
		{E("A[x,y] -> B[(x),(y)] : x > y; A[x,y] -> B[(y),(x)] : x <= y - 1"), [](const I *p, T &r) { P3; if (x == y) return false; if (x > y) r = {Rat(x), Rat(y)}; else r = {Rat(y), Rat(x)}; return true; }},
		{E("A[x,y] -> B[(3),(-1)] : n >= 1; A[x,y] -> B[(0),(0)] : n <= 0 and x >= 0"), [](const I *p, T &r) { P3; if (n >= 1) { r = {Rat(3), Rat(-1)}; return true; } if (x >= 0) { r = {Rat(0), Rat(0)}; return true; } return false; }},
		{E("A[x,y] -> B[(0),(0)] : false"), LF(false, {})}};
}
static isl_val *V_(int n, int d = 1) { return isl_val_div(isl_val_int_from_si(ctx, n), isl_val_int_from_si(ctx, d)); }
static isl_multi_val *MV(const string &s) { isl_multi_val *m = isl_multi_val_read_from_str(ctx, s.c_str()); if (!m) fail("parse", s); return m; }
template <class X> struct Tr;
#define TR(N) template <> struct Tr<isl_##N> { typedef isl_##N X; \
	static X *read(const string &s) { X *m = isl_##N##_read_from_str(ctx, s.c_str()); if (!m) fail("parse", s); return m; } \
	static X *copy(X *a) { return isl_##N##_copy(a); } static void free(X *a) { isl_##N##_free(a); } static string str(X *a) { return mc::str(isl_##N##_to_str(a)); } };
TR(multi_aff) TR(pw_multi_aff) TR(multi_pw_aff) TR(union_pw_multi_aff) TR(multi_union_pw_aff) TR(union_pw_aff)
template <class X> X *RD(const string &s) { return Tr<X>::read(s); }
template <> isl_pw_multi_aff *RD<isl_pw_multi_aff>(const string &s);
template <> isl_multi_pw_aff *RD<isl_multi_pw_aff>(const string &s) { return s.find(";") != string::npos ? isl_multi_pw_aff_from_pw_multi_aff(RD<isl_pw_multi_aff>(s)) : Tr<isl_multi_pw_aff>::read(s); }
template <> isl_pw_multi_aff *RD<isl_pw_multi_aff>(const string &s) { return s.find("false") != string::npos ? isl_pw_multi_aff_from_multi_pw_aff(RD<isl_multi_pw_aff>(s)) : Tr<isl_pw_multi_aff>::read(s); }
template <class X> struct Op { string n; std::function<X *(X *)> o; std::function<G(G)> m; };
static G un(G f, std::function<Rat(Rat, int)> g) { return [=](const I *p, T &r) { if (!f(p, r)) return false; for (size_t i = 0; i < r.size(); ++i) r[i] = g(r[i], i); return true; }; }
static G bi(G f, G h, std::function<Rat(Rat, Rat)> g) { return [=](const I *p, T &r) { T s; if (!f(p, r) || !h(p, s)) return false; for (size_t i = 0; i < r.size(); ++i) r[i] = g(r[i], s[i]); return true; }; }
static G uadd(G f, G h) { return [=](const I *p, T &r) { T s; bool a = f(p, r), b = h(p, s); if (!a && !b) return false; if (!a) r = s; else if (b) for (size_t i = 0; i < r.size(); ++i) r[i] = r[i] + s[i]; return true; }; }
static int lexc(const T &a, const T &b) { for (size_t i = 0; i < a.size(); ++i) { if (a[i] < b[i]) return -1; if (b[i] < a[i]) return 1; } return 0; }
static G ulex(G f, G h, int sgn) { return [=](const I *p, T &r) { T s; bool a = f(p, r), b = h(p, s); if (!a && !b) return false; if (!a || (b && lexc(s, r) * sgn < 0)) r = s; return true; }; }
static G on(G f, std::function<bool(I, I, I)> c) { return [=](const I *p, T &r) { return c(p[0], p[1], p[2]) && f(p, r); }; }
struct SetLeaf { const char *t; std::function<bool(I, I, I)> f; };
static vector<SetLeaf> SL = {{"[n] -> { A[x,y] : x >= y }", [](I, I x, I y) { return x >= y; }}, {"[n] -> { A[x,y] : (x + y) mod 3 = 1 or n >= 1 }", [](I n, I x, I y) { return mod(x + y, 3) == 1 || n >= 1; }}, {"[n] -> { A[x,y] : exists e : x = 2e and e >= y }", [](I, I x, I y) { return mod(x, 2) == 0 && x / 2 >= y; }}};
static isl_set *SS(int k) { isl_set *s = isl_set_read_from_str(ctx, SL[k].t); if (!s) fail("parse", SL[k].t); return s; }
static isl_set *PS(const char *t = "[n] -> { : n >= 0 }") { return isl_set_read_from_str(ctx, t); }
// pullbacks A[x,y] -> A[..]
static const char *PBT[] = {"[n] -> { A[x,y] -> A[(y),(x)] }", "[n] -> { A[x,y] -> A[(2x - 1),(floor((x + n)/2))] }", "[n] -> { A[x,y] -> A[(x),(1)] : y >= 0; A[x,y] -> A[(-x),(y)] : y < 0 and x mod 2 = 1 }"};
static bool pbm(int k, const I *p, I *q) { P3; q[0] = n; if (k == 0) { q[1] = y; q[2] = x; } else if (k == 1) { q[1] = 2 * x - 1; q[2] = fdiv(x + n, 2); } else { if (y >= 0) { q[1] = x; q[2] = 1; } else if (mod(x, 2) == 1) { q[1] = -x; q[2] = y; } else return false; } return true; }
static G pb(G f, int k) { return [=](const I *p, T &r) { I q[3]; return pbm(k, p, q) && f(q, r); }; }
#define U(name, expr, mod_) r.push_back({name, [=](X *a) -> X * { return expr; }, [=](G f) -> G { return mod_; }})
#define COMMON(N, KLEAF) \
	U("neg", isl_##N##_neg(a), un(f, [](Rat v, int) { return -v; })); \
	for (int k : KLEAF) { Leaf l = LV[k]; \
		U("add " + l.t, isl_##N##_add(a, RD<X>(l.t)), bi(f, l.f, [](Rat u, Rat v) { return u + v; })); \
		U("sub " + l.t, isl_##N##_sub(a, RD<X>(l.t)), bi(f, l.f, [](Rat u, Rat v) { return u - v; })); } \
	U("scale -3/2", isl_##N##_scale_val(a, V_(-3, 2)), un(f, [](Rat v, int) { return v * Rat(-3, 2); })); \
	U("scale 0", isl_##N##_scale_val(a, V_(0)), un(f, [](Rat, int) { return Rat(0); })); \
	U("scale_down 2", isl_##N##_scale_down_val(a, V_(2)), un(f, [](Rat v, int) { return v / Rat(2); })); \
	U("scale_multi 2,-1", isl_##N##_scale_multi_val(a, MV("[n] -> { B[2,-1] }")), un(f, [](Rat v, int i) { return v * Rat(i ? -1 : 2); })); \
	U("scale_down_multi 3,2", isl_##N##_scale_down_multi_val(a, MV("[n] -> { B[3,2] }")), un(f, [](Rat v, int i) { return v / Rat(i ? 2 : 3); })); \
	U("add_constant 1/2", isl_##N##_add_constant_val(a, V_(1, 2)), un(f, [](Rat v, int) { return v + Rat(1, 2); })); \
	U("add_constant_multi 1,-2", isl_##N##_add_constant_multi_val(a, MV("{ B[1,-2] }")), un(f, [](Rat v, int i) { return v + Rat(i ? -2 : 1); })); \
	U("gist+nothing", isl_##N##_gist(a, isl_set_read_from_str(ctx, "[n] -> { A[x,y] }")), f); \
	U("range product, domain factor", isl_##N##_range_factor_domain(isl_##N##_range_product(a, RD<X>(LV[1].t))), f); \
	U("range product, range factor", isl_##N##_range_factor_range(isl_##N##_range_product(RD<X>(LV[0].t), a)), f); \
	U("flat range product, drop", isl_##N##_reset_tuple_id2(isl_##N##_drop_dims(isl_##N##_flat_range_product(RD<X>(LV[0].t), a), isl_dim_out, 0, 2)), f); \
	U("swap outputs", swap_##N(a), ([f](const I *p, T &r) { if (!f(p, r)) return false; std::swap(r[0], r[1]); return true; })); \
	U("align m,n; drop m", isl_##N##_dropp(isl_##N##_align_params(a, isl_space_params_mn())), f); \
	for (int k = 0; k < 2; ++k) U(cat("pullback ", PBT[k]), isl_##N##_pullback_multi_aff(a, RD<isl_multi_aff>(PBT[k])), pb(f, k));
static isl_space *isl_space_params_mn() { isl_space *s = isl_space_params_alloc(ctx, 2); s = isl_space_set_dim_name(s, isl_dim_param, 0, "m"); return isl_space_set_dim_name(s, isl_dim_param, 1, "n"); }
static isl_id *ID(const char *n) { return isl_id_alloc(ctx, n, nullptr); }
static isl_space *space_of(const char *t) { isl_set *s = isl_set_read_from_str(ctx, t); isl_space *r = isl_set_get_space(s); isl_set_free(s); return r; }
#define EXTRA(N, SET) static isl_##N *isl_##N##_reset_tuple_id2(isl_##N *a) { return isl_##N##_set_tuple_id(a, isl_dim_out, ID("B")); } \
	static isl_##N *isl_##N##_dropp(isl_##N *a) { return isl_##N##_drop_dims(a, isl_dim_param, 0, 1); }
EXTRA(multi_aff, ) EXTRA(pw_multi_aff, ) EXTRA(multi_pw_aff, )
static isl_multi_aff *swap_multi_aff(isl_multi_aff *a) { isl_aff *u = isl_multi_aff_get_at(a, 0), *v = isl_multi_aff_get_at(a, 1); return isl_multi_aff_set_at(isl_multi_aff_set_at(a, 0, v), 1, u); }
static isl_multi_pw_aff *swap_multi_pw_aff(isl_multi_pw_aff *a) { isl_pw_aff *u = isl_multi_pw_aff_get_at(a, 0), *v = isl_multi_pw_aff_get_at(a, 1); return isl_multi_pw_aff_set_at(isl_multi_pw_aff_set_at(a, 0, v), 1, u); }
static isl_pw_multi_aff *swap_pw_multi_aff(isl_pw_multi_aff *a) { isl_pw_aff *u = isl_pw_multi_aff_get_at(a, 0), *v = isl_pw_multi_aff_get_at(a, 1); return isl_pw_multi_aff_set_pw_aff(isl_pw_multi_aff_set_pw_aff(a, 0, v), 1, u); }
static isl_pw_multi_aff *pma_via_upma(isl_pw_multi_aff *a) { isl_space *sp = isl_pw_multi_aff_get_space(a); isl_union_pw_multi_aff *u = isl_pw_multi_aff_to_union_pw_multi_aff(a); a = isl_union_pw_multi_aff_extract_pw_multi_aff(u, sp); isl_union_pw_multi_aff_free(u); return a; }
static isl_multi_id *MI() { return isl_multi_id_read_from_str(ctx, "{ A[i,j] }"); }
static isl_multi_pw_aff *rebind(isl_multi_pw_aff *a) { a = isl_multi_pw_aff_bind_domain(a, MI()); return isl_multi_pw_aff_unbind_params_insert_domain(a, MI()); }
static isl_multi_pw_aff *mpa_via_mupa(isl_multi_pw_aff *a) { isl_space *sp = isl_multi_pw_aff_get_domain_space(a); isl_multi_union_pw_aff *m = isl_multi_union_pw_aff_from_multi_pw_aff(a); a = isl_multi_union_pw_aff_extract_multi_pw_aff(m, sp); isl_multi_union_pw_aff_free(m); return a; }
static isl_multi_aff *relist(isl_multi_aff *a) { isl_aff_list *l = isl_multi_aff_get_list(a); isl_multi_aff *r = isl_multi_aff_from_aff_list(isl_multi_aff_get_space(a), l); isl_multi_aff_free(a); return r; }
static vector<Op<isl_multi_aff>> ma_ops() {
	typedef isl_multi_aff X; vector<Op<X>> r; vector<int> KL = {0, 1, 2}; COMMON(multi_aff, KL)
	U("floor", isl_multi_aff_floor(a), un(f, [](Rat v, int) { return fl(v); }));
	U("mod 3,2", isl_multi_aff_mod_multi_val(a, MV("[n] -> { B[3,2] }")), un(f, [](Rat v, int i) { Rat m(i ? 2 : 3); return v - m * fl(v / m); }));
	U("splice", isl_multi_aff_reset_tuple_id2(isl_multi_aff_drop_dims(isl_multi_aff_range_splice(a, 1, RD<X>(LV[1].t)), isl_dim_out, 1, 2)), f);
	U("via pw", isl_pw_multi_aff_as_multi_aff(isl_multi_aff_to_pw_multi_aff(a)), f);
	U("via mpa", isl_multi_pw_aff_as_multi_aff(isl_multi_aff_to_multi_pw_aff(a)), f);
	U("list", relist(a), f);
	return r;
}
static vector<Op<isl_pw_multi_aff>> pma_ops() {
	typedef isl_pw_multi_aff X; vector<Op<X>> r; vector<int> KL = {1, 3, 4};
	COMMON(pw_multi_aff, KL)
	for (int k : {1, 3, 4, 6}) { Leaf l = LV[k];
		U("union_add " + l.t, isl_pw_multi_aff_union_add(a, RD<X>(l.t)), uadd(f, l.f));
		U("union_lexmin " + l.t, isl_pw_multi_aff_union_lexmin(a, RD<X>(l.t)), ulex(f, l.f, 1));
		U("union_lexmax " + l.t, isl_pw_multi_aff_union_lexmax(RD<X>(l.t), a), ulex(l.f, f, -1)); }
	for (int k = 0; k < (int) SL.size(); ++k) { auto c = SL[k].f;
		U(cat("intersect_domain ", SL[k].t), isl_pw_multi_aff_intersect_domain(a, SS(k)), on(f, c));
		U(cat("subtract_domain ", SL[k].t), isl_pw_multi_aff_subtract_domain(a, SS(k)), on(f, [c](I n, I x, I y) { return !c(n, x, y); }));
		U(cat("restrict, gist ", SL[k].t), isl_pw_multi_aff_intersect_domain(isl_pw_multi_aff_gist(isl_pw_multi_aff_intersect_domain(a, SS(k)), SS(k)), SS(k)), on(f, c)); }
	U("intersect_params", isl_pw_multi_aff_intersect_params(a, PS()), on(f, [](I n, I, I) { return n >= 0; }));
	U("intersect, gist_params", isl_pw_multi_aff_intersect_params(isl_pw_multi_aff_gist_params(a, PS()), PS()), on(f, [](I n, I, I) { return n >= 0; }));
	U("fix n=1", isl_pw_multi_aff_fix_si(a, isl_dim_param, 0, 1), on(f, [](I n, I, I) { return n == 1; }));
	U("coalesce", isl_pw_multi_aff_coalesce(a), f);
	U("pullback pma", isl_pw_multi_aff_pullback_pw_multi_aff(a, RD<X>(PBT[2])), pb(f, 2));
	U("via mpa", isl_pw_multi_aff_from_multi_pw_aff(isl_pw_multi_aff_to_multi_pw_aff(a)), f);
	U("via upma", pma_via_upma(a), f);
	U("bind, unbind", isl_pw_multi_aff_from_multi_pw_aff(rebind(isl_multi_pw_aff_from_pw_multi_aff(a))), f);
	return r;
}
static vector<Op<isl_multi_pw_aff>> mpa_ops() {
	typedef isl_multi_pw_aff X; vector<Op<X>> r; vector<int> KL = {1, 3, 4};
	COMMON(multi_pw_aff, KL)
	for (int k : {1, 3, 6}) { Leaf l = LV[k];
		U("union_add " + l.t, isl_multi_pw_aff_union_add(a, RD<X>(l.t)), uadd(f, l.f));
		U("min " + l.t, isl_multi_pw_aff_min(a, RD<X>(l.t)), bi(f, l.f, [](Rat u, Rat v) { return u < v ? u : v; }));
		U("max " + l.t, isl_multi_pw_aff_max(RD<X>(l.t), a), bi(f, l.f, [](Rat u, Rat v) { return u < v ? v : u; })); }
	U("mod 3,2", isl_multi_pw_aff_mod_multi_val(a, MV("[n] -> { B[3,2] }")), un(f, [](Rat v, int i) { Rat m(i ? 2 : 3); return v - m * fl(v / m); }));
	for (int k = 0; k < (int) SL.size(); ++k) { auto c = SL[k].f;
		U(cat("intersect_domain ", SL[k].t), isl_multi_pw_aff_intersect_domain(a, SS(k)), on(f, c));
		U(cat("restrict, gist ", SL[k].t), isl_multi_pw_aff_intersect_domain(isl_multi_pw_aff_gist(isl_multi_pw_aff_intersect_domain(a, SS(k)), SS(k)), SS(k)), on(f, c)); }
	U("intersect_params", isl_multi_pw_aff_intersect_params(a, PS()), on(f, [](I n, I, I) { return n >= 0; }));
	U("intersect, gist_params", isl_multi_pw_aff_intersect_params(isl_multi_pw_aff_gist_params(a, PS()), PS()), on(f, [](I n, I, I) { return n >= 0; }));
	U("coalesce", isl_multi_pw_aff_coalesce(a), f);
	U("pullback pma", isl_multi_pw_aff_pullback_pw_multi_aff(a, RD<isl_pw_multi_aff>(PBT[2])), pb(f, 2));
	U("splice", isl_multi_pw_aff_reset_tuple_id2(isl_multi_pw_aff_drop_dims(isl_multi_pw_aff_range_splice(a, 1, RD<X>(LV[1].t)), isl_dim_out, 1, 2)), f);
	U("via pma", isl_multi_pw_aff_from_pw_multi_aff(isl_pw_multi_aff_from_multi_pw_aff(a)), f);
	U("via mupa", mpa_via_mupa(a), f);
	U("bind, unbind", rebind(a), f);
	return r;
}
// ---- checks ----
static string pts(const I *p) { return cat("n,x,y = ", S(p[0]), ",", S(p[1]), ",", S(p[2])); }
static string ts(bool d, const T &t) { if (!d) return "undefined"; string s = "("; for (auto &v : t) s += v.s() + ","; return s + ")"; }
static bool isint(const T &t) { for (auto &v : t) if (!v.isint()) return false; return true; }
// keeps a
static void cmp_pma(const string &op, isl_pw_multi_aff *a, const G &f, const Window &w, const string &who) {
	note_transition();
	if (!a) { mc::take_error(); fail(cat(op, "|", who), "NULL result"); }
	string bad; uint64_t h = 11;
	if ((int) isl_pw_multi_aff_dim(a, isl_dim_in) + isl_pw_multi_aff_dim(a, isl_dim_param) != w.n) bad = "wrong dimension";
	try { if (bad.empty()) { PMA m = read_pma(a); for (int i = 0; i < w.count && bad.empty(); ++i) { T want, got; bool d = f(w.at(i), want); int k = eval(m, w.at(i), got);
		if (k > 1) bad = cat("pieces overlap at ", i); else if ((k == 1) != d || (d && got != want)) bad = cat(ts(k, got), " instead of ", ts(d, want), " at ", pts(w.at(i)));
		if (d) for (auto &v : want) h = mc::hash_mix(h, (uint64_t) v.n * 31 + (uint64_t) v.d); else h = mc::hash_mix(h, 5); } }
	} catch (Overflow &) { note_outcome("inconclusive"); return; }
	if (!bad.empty()) fail(cat(op, "|", who), cat(bad, " in ", mc::str(isl_pw_multi_aff_to_str(a))));
	note_state(h); note_validated();
}
static void take_pma(const string &op, isl_pw_multi_aff *a, const G &f, const Window &w, const string &who) { struct Fr { isl_pw_multi_aff *a; ~Fr() { isl_pw_multi_aff_free(a); } } fr{a}; cmp_pma(op, a, f, w, who); }
static void cmp_mpa(const string &op, isl_multi_pw_aff *a, const G &f, const Window &w, const string &who) {
	note_transition();
	if (!a) { mc::take_error(); fail(cat(op, "|", who), "NULL result"); }
	int n = isl_multi_pw_aff_size(a); string bad; vector<PwAff> c;
	try {
		for (int k = 0; k < n; ++k) { isl_pw_aff *e = isl_multi_pw_aff_get_at(a, k); c.push_back(read_pw_aff(e)); isl_pw_aff_free(e); }
		for (int i = 0; i < w.count && bad.empty(); ++i) { T want; bool d = f(w.at(i), want); bool all = true; T got;
			for (int k = 0; k < n; ++k) { Rat v; int q = eval(c[k], w.at(i), v); if (q > 1) bad = "pieces overlap"; if (!q) all = false; got.push_back(v); }
			if (bad.empty() && n && (all != d || (d && got != want))) bad = cat(ts(all, got), " instead of ", ts(d, want), " at ", pts(w.at(i))); }
	} catch (Overflow &) { note_outcome("inconclusive"); return; }
	if (!bad.empty()) fail(cat(op, "|", who), cat(bad, " in ", mc::str(isl_multi_pw_aff_to_str(a))));
	note_validated();
}
static void take_mpa(const string &op, isl_multi_pw_aff *a, const G &f, const Window &w, const string &who) { struct Fr { isl_multi_pw_aff *a; ~Fr() { isl_multi_pw_aff_free(a); } } fr{a}; cmp_mpa(op, a, f, w, who); }
static Window WS, WG;                // small point window, graph window (n,x,y,a,b)
static Bits dom_bits(const G &f, const Window &w) { return where(w, [&](const I *p) { T t; return f(p, t); }); }
static void observe(isl_pw_multi_aff *a, const G &f, const string &who) {
	expect_set("pma_domain", isl_pw_multi_aff_domain(isl_pw_multi_aff_copy(a)), W, dom_bits(f, W), who);
	auto graph = where(WG, [&](const I *p) { T t; return f(p, t) && t[0] == Rat(p[3]) && t[1] == Rat(p[4]); });
	expect_map("as_map", isl_pw_multi_aff_as_map(isl_pw_multi_aff_copy(a)), WG, graph, who, 2);
	isl_pw_multi_aff *b = isl_pw_multi_aff_from_map(isl_pw_multi_aff_as_map(isl_pw_multi_aff_copy(a)));
	take_pma("from_map(as_map)", b, [&](const I *p, T &t) { return f(p, t) && isint(t); }, W, who);
	isl_multi_pw_aff *m = isl_multi_pw_aff_from_pw_multi_aff(isl_pw_multi_aff_copy(a));
	cmp_mpa("to mpa", m, f, W, who);
	expect_map("mpa as_map", isl_multi_pw_aff_as_map(isl_multi_pw_aff_copy(m)), WG, graph, who, 2);
	isl_multi_pw_aff_free(m);
	for (int k = 0; k < 2; ++k) { isl_pw_aff *e = isl_pw_multi_aff_get_at(a, k); PwAff pe = read_pw_aff(e); isl_pw_aff_free(e); note_transition();
		for (int i = 0; i < W.count; ++i) { T t; Rat v; bool d = f(W.at(i), t); int q = eval(pe, W.at(i), v); if (q != (int) d || (d && v != t[k])) fail(cat("get_at|", who), "component differs"); } }
	for (int v = 0; v < 3; ++v) {
		bool dep = false; for (int i = 0; i < W.count && !dep; ++i) { const I *p = W.at(i); I q[3] = {p[0], p[1], p[2]}; q[v] += 1; T s, t; bool c = f(p, s), d = f(q, t); dep = c != d || (c && s != t); }
		isl_bool inv = isl_pw_multi_aff_involves_dims(a, v ? isl_dim_in : isl_dim_param, v ? v - 1 : 0, 1); note_transition();
		if (inv == isl_bool_error || (dep && inv == isl_bool_false)) fail(cat("involves_dims|", who), "dependence denied");
	}
}
// structural operations, all results have other spaces
static void structural(isl_pw_multi_aff *a, const G &f, isl_pw_multi_aff *b, const G &g, const string &who) {
	auto A = [&] { return isl_pw_multi_aff_copy(a); }; auto B = [&] { return isl_pw_multi_aff_copy(b); };
	static Window w5 = Window({{0, 1}, {-1, 3}, {-1, 2}, {-2, 1}, {0, 2}});
	isl_pw_multi_aff *p = isl_pw_multi_aff_product(A(), B());
	take_pma("product", p, [&](const I *q, T &t) { I u[3] = {q[0], q[1], q[2]}, v[3] = {q[0], q[3], q[4]}; T s; if (!f(u, t) || !g(v, s)) return false; t.insert(t.end(), s.begin(), s.end()); return true; }, w5, who);
	G cc = [&](const I *q, T &t) { T s; if (!f(q, t) || !g(q, s)) return false; t.insert(t.end(), s.begin(), s.end()); return true; };
	take_pma("range_product", isl_pw_multi_aff_range_product(A(), B()), cc, WS, who);
	take_pma("flat_range_product", isl_pw_multi_aff_flat_range_product(A(), B()), cc, WS, who);
	// composition b(swap(a)) where a is integral: rename the range of a to the domain of b
	isl_pw_multi_aff *r = isl_pw_multi_aff_set_tuple_id(A(), isl_dim_out, ID("A"));
	take_pma("pullback of b by a", isl_pw_multi_aff_pullback_pw_multi_aff(B(), isl_pw_multi_aff_copy(r)), [&](const I *q, T &t) { T s; if (!f(q, s)) return false; if (!isint(s)) throw Overflow(); I v[3] = {q[0], s[0].n, s[1].n}; return g(v, t); }, WS, who);
	isl_multi_pw_aff *mb = isl_multi_pw_aff_from_pw_multi_aff(B()), *mr = isl_multi_pw_aff_from_pw_multi_aff(r);
	isl_multi_pw_aff *mc_ = isl_multi_pw_aff_pullback_multi_pw_aff(isl_multi_pw_aff_copy(mb), mr);
	// (not restricted to the inner domain where the inner function is not involved)
	mc_ = isl_multi_pw_aff_intersect_domain(mc_, isl_pw_multi_aff_domain(A()));
	take_mpa("pullback_multi_pw_aff", mc_, [&](const I *q, T &t) { T s; if (!f(q, s)) return false; if (!isint(s)) throw Overflow(); I v[3] = {q[0], s[0].n, s[1].n}; return g(v, t); }, WS, who);
	// functions on a wrapped domain [A[x,y] -> C[z]]
	static Window w4 = Window({{0, 1}, {-2, 3}, {-1, 2}, {-1, 2}});
	auto DM = [&](const char *t) { return RD<isl_pw_multi_aff>(t); };
	auto lift = [&] { return isl_pw_multi_aff_pullback_pw_multi_aff(A(), DM("[n] -> { [A[x,y] -> C[z]] -> A[(x),(y)] }")); };
	take_pma("on wrapped", lift(), f, w4, who);
	for (int k = 0; k < (int) SL.size(); ++k) take_pma("intersect_domain_wrapped_domain", isl_pw_multi_aff_intersect_domain_wrapped_domain(lift(), SS(k)), on(f, SL[k].f), w4, who);
	take_pma("intersect_domain_wrapped_range", isl_pw_multi_aff_intersect_domain_wrapped_range(lift(), isl_set_read_from_str(ctx, "[n] -> { C[z] : z >= n }")), [&](const I *q, T &t) { return q[3] >= q[0] && f(q, t); }, w4, who);
	for (int k = 0; k < 3; ++k) take_pma("preimage_domain_wrapped_domain", isl_pw_multi_aff_preimage_domain_wrapped_domain_pw_multi_aff(lift(), DM(PBT[k])), pb(f, k), w4, who);
	static Window wb = Window({{0, 1}, {-2, 3}, {-1, 2}});
	isl_space *al = isl_space_params_alloc(ctx, 3); al = isl_space_set_dim_name(al, isl_dim_param, 0, "n"); al = isl_space_set_dim_name(al, isl_dim_param, 1, "i"); al = isl_space_set_dim_name(al, isl_dim_param, 2, "j");
	take_pma("bind_domain", isl_pw_multi_aff_align_params(isl_pw_multi_aff_bind_domain(A(), MI()), isl_space_copy(al)), f, wb, who);
	take_pma("bind_domain_wrapped_domain", isl_pw_multi_aff_align_params(isl_pw_multi_aff_bind_domain_wrapped_domain(lift(), MI()), al), f, w4, who);
	take_pma("insert_domain", isl_pw_multi_aff_insert_domain(isl_pw_multi_aff_align_params(isl_pw_multi_aff_project_domain_on_params(isl_pw_multi_aff_pullback_pw_multi_aff(A(), DM("[n] -> { A[x,y] -> A[(1),(n)] }"))), isl_space_params_alloc(ctx, 0)), space_of("[n] -> { C[z] }")), [&](const I *q, T &t) { I v[3] = {q[0], 1, q[0]}; return f(v, t); }, Window({{-1, 2}, {0, 1}}), who);
	isl_multi_pw_aff *ma = isl_multi_pw_aff_from_pw_multi_aff(A());
	struct M { const char *n; isl_map *(*s)(isl_multi_pw_aff *, isl_multi_pw_aff *); std::function<bool(int)> t; };
	static vector<M> C = {{"lex_lt_map", isl_multi_pw_aff_lex_lt_map, [](int c) { return c < 0; }}, {"lex_le_map", isl_multi_pw_aff_lex_le_map, [](int c) { return c <= 0; }}, {"lex_gt_map", isl_multi_pw_aff_lex_gt_map, [](int c) { return c > 0; }}, {"lex_ge_map", isl_multi_pw_aff_lex_ge_map, [](int c) { return c >= 0; }}, {"eq_map", isl_multi_pw_aff_eq_map, [](int c) { return c == 0; }}};
	for (auto &c : C) expect_map(c.n, c.s(isl_multi_pw_aff_copy(ma), isl_multi_pw_aff_copy(mb)), w5, where(w5, [&](const I *q) { I u[3] = {q[0], q[1], q[2]}, v[3] = {q[0], q[3], q[4]}; T s, t; return f(u, t) && g(v, s) && c.t(lexc(t, s)); }), who, 2);
	// equality of the functions
	bool same = true; for (int i = 0; i < W.count && same; ++i) { T s, t; bool c = f(W.at(i), s), d = g(W.at(i), t); same = c == d && (!c || s == t); }
	note_transition(); isl_bool eq = isl_pw_multi_aff_is_equal(a, b), me = isl_multi_pw_aff_is_equal(ma, mb), pe = isl_pw_multi_aff_plain_is_equal(a, b);
	isl_multi_pw_aff_free(ma); isl_multi_pw_aff_free(mb);
	if (eq == isl_bool_error || me == isl_bool_error || pe == isl_bool_error) fail(cat("is_equal|", who), "error");
	if (!same && (eq || me || pe)) fail(cat("is_equal|", who), "different functions are reported equal");
	note_validated();
}

// ---- zero-dimensional tuples: only the explicit domain ----
typedef std::function<bool(I, I, I)> D;
struct ZOp { string n; std::function<isl_multi_pw_aff *(isl_multi_pw_aff *)> o; std::function<D(D)> m; };
static isl_multi_pw_aff *Z(int k) { return RD<isl_multi_pw_aff>(string("[n] -> { A[x,y] -> B[] : ") + (strchr(SL[k].t, ':') + 2)); }
static isl_multi_pw_aff *isl_multi_pw_aff_range_product0(isl_multi_pw_aff *a) { isl_multi_pw_aff *r = isl_multi_pw_aff_flat_range_product(a, RD<isl_multi_pw_aff>(LV[0].t)); return isl_multi_pw_aff_reset_tuple_id2(r); }
static isl_multi_pw_aff *reread(isl_multi_pw_aff *a) { string t = mc::str(isl_multi_pw_aff_to_str(a)); isl_multi_pw_aff_free(a); return RD<isl_multi_pw_aff>(t); }
static vector<ZOp> zops() {
	typedef isl_multi_pw_aff X; vector<ZOp> r;
#define ZU(name, expr, mod_) r.push_back({name, [=](X *a) -> X * { return expr; }, [=](D f) -> D { return mod_; }})
	for (int k = 0; k < 3; ++k) { D c = SL[k].f; D both;
		ZU(cat("intersect_domain ", k), isl_multi_pw_aff_intersect_domain(a, SS(k)), ([=](I n, I x, I y) { return f(n, x, y) && c(n, x, y); }));
		ZU(cat("restrict, gist ", k), isl_multi_pw_aff_intersect_domain(isl_multi_pw_aff_gist(isl_multi_pw_aff_intersect_domain(a, SS(k)), SS(k)), SS(k)), ([=](I n, I x, I y) { return f(n, x, y) && c(n, x, y); }));
		ZU(cat("add ", k), isl_multi_pw_aff_add(a, Z(k)), ([=](I n, I x, I y) { return f(n, x, y) && c(n, x, y); }));
		ZU(cat("sub ", k), isl_multi_pw_aff_sub(Z(k), a), ([=](I n, I x, I y) { return f(n, x, y) && c(n, x, y); }));
		ZU(cat("range_product, factor ", k), isl_multi_pw_aff_range_factor_domain(isl_multi_pw_aff_range_product(a, Z(k))), ([=](I n, I x, I y) { return f(n, x, y) && c(n, x, y); }));
		ZU(cat("flat_range_product ", k), isl_multi_pw_aff_set_tuple_name(isl_multi_pw_aff_flat_range_product(Z(k), a), isl_dim_out, "B"), ([=](I n, I x, I y) { return f(n, x, y) && c(n, x, y); }));
		ZU(cat("range_splice ", k), isl_multi_pw_aff_set_tuple_name(isl_multi_pw_aff_range_splice(Z(k), 0, a), isl_dim_out, "B"), ([=](I n, I x, I y) { return f(n, x, y) && c(n, x, y); }));
		ZU(cat("union_add ", k), isl_multi_pw_aff_union_add(a, Z(k)), ([=](I n, I x, I y) { return f(n, x, y) || c(n, x, y); }));
		ZU(cat("pullback pma ", k), isl_multi_pw_aff_pullback_pw_multi_aff(a, RD<isl_pw_multi_aff>(PBT[k])), ([=](I n, I x, I y) { I p[3] = {n, x, y}, q[3]; return pbm(k, p, q) && f(q[0], q[1], q[2]); }));
		ZU(cat("pullback mpa ", k), isl_multi_pw_aff_intersect_domain(isl_multi_pw_aff_pullback_multi_pw_aff(a, RD<X>(PBT[k])), isl_pw_multi_aff_domain(RD<isl_pw_multi_aff>(PBT[k]))), ([=](I n, I x, I y) { I p[3] = {n, x, y}, q[3]; return pbm(k, p, q) && f(q[0], q[1], q[2]); }));
	}
	for (int k = 0; k < 2; ++k) ZU(cat("pullback ma ", k), isl_multi_pw_aff_pullback_multi_aff(a, RD<isl_multi_aff>(PBT[k])), ([=](I n, I x, I y) { I p[3] = {n, x, y}, q[3]; return pbm(k, p, q) && f(q[0], q[1], q[2]); }));
	ZU("intersect_params", isl_multi_pw_aff_intersect_params(a, PS()), ([=](I n, I x, I y) { return f(n, x, y) && n >= 0; }));
	ZU("intersect, gist_params", isl_multi_pw_aff_intersect_params(isl_multi_pw_aff_gist_params(a, PS()), PS()), ([=](I n, I x, I y) { return f(n, x, y) && n >= 0; }));
	ZU("neg", isl_multi_pw_aff_neg(a), f); ZU("scale", isl_multi_pw_aff_scale_val(a, V_(3)), f); ZU("coalesce", isl_multi_pw_aff_coalesce(a), f);
	ZU("via pma", isl_multi_pw_aff_from_pw_multi_aff(isl_pw_multi_aff_from_multi_pw_aff(a)), f);
	ZU("via mupa", mpa_via_mupa(a), f); ZU("bind, unbind", rebind(a), f);
	ZU("rename", isl_multi_pw_aff_set_tuple_name(isl_multi_pw_aff_set_tuple_name(a, isl_dim_out, "Q"), isl_dim_out, "B"), f);
	ZU("align", isl_multi_pw_aff_dropp(isl_multi_pw_aff_align_params(a, isl_space_params_mn())), f);
	ZU("via text", reread(a), f);
	return r;
}
static vector<ZOp> ZO;
static void run_zero(const vector<uint64_t> &d) {
	isl_multi_pw_aff *a = d[0] < 3 ? Z(d[0]) : RD<isl_multi_pw_aff>("[n] -> { A[x,y] -> B[] }"); D f = d[0] < 3 ? SL[d[0]].f : [](I, I, I) { return true; };
	string who = cat("zero-dim ", d[0]);
	for (size_t i = 1; i < d.size(); ++i) { a = ZO[d[i]].o(a); f = ZO[d[i]].m(f); who += "; " + ZO[d[i]].n; note_transition(); }
	struct Fr { isl_multi_pw_aff *a; ~Fr() { isl_multi_pw_aff_free(a); } } fr{a};
	if (!a) fail(cat("zero|", who), "NULL");
	Bits want = where(W, [&](const I *p) { return f(p[0], p[1], p[2]); });
	expect_set("explicit domain", isl_multi_pw_aff_domain(isl_multi_pw_aff_copy(a)), W, want, who);
	isl_map *m = isl_multi_pw_aff_as_map(isl_multi_pw_aff_copy(a)); expect_map("zero as_map", m, W, want, who, 2);
	take_pma("zero to pma", isl_pw_multi_aff_from_multi_pw_aff(isl_multi_pw_aff_copy(a)), [&](const I *p, T &t) { t.clear(); return f(p[0], p[1], p[2]); }, W, who);
	// combined with a one-dimensional tuple, the domain is taken along
	G g = LV[3].f; D f2 = f;
	take_mpa("range_product with values", isl_multi_pw_aff_range_product(isl_multi_pw_aff_copy(a), RD<isl_multi_pw_aff>(LV[3].t)), [&](const I *p, T &t) { return f2(p[0], p[1], p[2]) && g(p, t); }, W, who);
}
template <class X> struct Tab { static vector<Op<X>> v; };
template <class X> vector<Op<X>> Tab<X>::v;
static isl_pw_multi_aff *as_pma(isl_multi_aff *a) { return isl_multi_aff_to_pw_multi_aff(a); }
static isl_pw_multi_aff *as_pma(isl_pw_multi_aff *a) { return a; }
static isl_pw_multi_aff *as_pma(isl_multi_pw_aff *a) { return isl_pw_multi_aff_from_multi_pw_aff(a); }
template <class X> string seq_text(const vector<uint64_t> &d) { string s = LV[d[0]].t; for (size_t i = 1; i < d.size(); ++i) s += "; " + Tab<X>::v[d[i]].n; return s; }
template <class X> void run_seq(const vector<uint64_t> &d, bool obs) {
	X *a = RD<X>(LV[d[0]].t); G f = LV[d[0]].f; string who = seq_text<X>(d);
	for (size_t i = 1; i < d.size(); ++i) { auto &o = Tab<X>::v[d[i]]; a = o.o(a); f = o.m(f); note_transition(); }
	if (!a) { mc::take_error(); fail(cat("seq|", who), "NULL"); }
	if (std::is_same<X, isl_multi_pw_aff>::value) cmp_mpa("mpa", (isl_multi_pw_aff *) Tr<X>::copy(a), f, W, who), Tr<X>::free(a);
	isl_pw_multi_aff *p = as_pma(a); struct Fr { isl_pw_multi_aff *a; ~Fr() { isl_pw_multi_aff_free(a); } } fr{p};
	cmp_pma("seq", p, f, W, who);
	if (obs) observe(p, f, who);
}
template <class X> void add_seqs(mc::Harness &h, const char *nm, uint64_t leaves, int depth, vector<uint64_t> deep) {
	uint64_t n = Tab<X>::v.size(), p = 1;
	for (int len = 0; len <= depth; ++len, p *= n) {
		uint64_t nl = len >= 3 ? deep.size() : leaves, k = len; auto dp = deep;
		auto dec = [=](uint64_t i) { vector<uint64_t> d(1 + k); for (int q = k; q >= 1; --q) { d[q] = i % n; i /= n; } d[0] = k >= 3 ? dp[i] : i; return d; };
		h.add(mc::SpaceDef(cat(nm, "-seq-", len), nl * p, [=](uint64_t i) { run_seq<X>(dec(i), k <= 1 || (k == 2 && (i % 2 == 0 || mc::thorough))); }, [=](uint64_t i) { return seq_text<X>(dec(i)); }));
	}
	h.bounds[nm] = cat("all sequences of up to ", depth, " of ", n, " operations from ", leaves, " leaves (", deep.size(), " leaves at depth 3), ", W.count, " points");
}
#include "C10u.hpp"
int main(int argc, char **argv) {
	mc::Harness h; h.property = "C10"; bool th = tier_thorough(argc, argv);
	W = Window({{-1, 1}, {-3, 4}, {-2, 3}}); WS = Window({{0, 1}, {-2, 3}, {-1, 2}}); WG = Window({{0, 1}, {-2, 3}, {-1, 2}, {-3, 3}, {-2, 2}});
	LV = leaves(); Tab<isl_multi_aff>::v = ma_ops(); Tab<isl_pw_multi_aff>::v = pma_ops(); Tab<isl_multi_pw_aff>::v = mpa_ops(); ZO = zops();
	uint64_t nl = LV.size();
	add_seqs<isl_multi_aff>(h, "multi_aff", NTOTAL, 3, th ? vector<uint64_t>{0, 1, 2} : vector<uint64_t>{1});
	add_seqs<isl_pw_multi_aff>(h, "pw_multi_aff", nl, th ? 3 : 2, {3, 5});
	add_seqs<isl_multi_pw_aff>(h, "multi_pw_aff", nl, th ? 3 : 2, {3, 5});
	uint64_t nz = ZO.size();
	for (int len = 0; len <= (th ? 3 : 2); ++len) { uint64_t k = len, n = 4; for (int q = 0; q < len; ++q) n *= nz; h.add(mc::SpaceDef(cat("zero-seq-", len), n, [=](uint64_t i) { vector<uint64_t> d(1 + k); for (int q = k; q >= 1; --q) { d[q] = i % nz; i /= nz; } d[0] = i; run_zero(d); })); }
	uint64_t no = Tab<isl_pw_multi_aff>::v.size() + 1;
	uint64_t m = th ? no : 1; mc::Radix rp{nl, no, nl, m};
	h.add(mc::SpaceDef("structural", rp.size(), [=](uint64_t i) { auto d = rp.at(i); auto &v = Tab<isl_pw_multi_aff>::v;
		isl_pw_multi_aff *a = RD<isl_pw_multi_aff>(LV[d[0]].t), *b = RD<isl_pw_multi_aff>(LV[d[2]].t); G f = LV[d[0]].f, g = LV[d[2]].f; string who = LV[d[0]].t;
		struct Fr { isl_pw_multi_aff *&a, *&b; ~Fr() { isl_pw_multi_aff_free(a); isl_pw_multi_aff_free(b); } } fr{a, b};
		if (d[1]) { a = v[d[1] - 1].o(a); f = v[d[1] - 1].m(f); who += "; " + v[d[1] - 1].n; } who += " | " + LV[d[2]].t; if (d[3]) { b = v[d[3] - 1].o(b); g = v[d[3] - 1].m(g); who += "; " + v[d[3] - 1].n; }
		structural(a, f, b, g, who); }, [=](uint64_t i) { auto d = rp.at(i); return cat(LV[d[0]].t, " op", d[1], " | ", LV[d[2]].t, " op", d[3]); }));
	union_spaces(h, th);
	return mc::run(argc, argv, h);
}
