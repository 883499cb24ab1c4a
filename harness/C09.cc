// C09: (piecewise) quasi-affine expressions: all operation sequences up to a depth, compared pointwise with exact rational arithmetic.
#include "common.hpp"
#include <memory>
struct V { int k; Rat r; };                    // 0 undefined, 1 value, 2 NaN
typedef std::function<V(const I *)> F;
static const int NV = 3;                       // n | x y
static Window W;
static V val(Rat r) { return {1, r}; }
static string vs(const V &v) { return v.k == 0 ? "undefined" : v.k == 2 ? "NaN" : v.r.s(); }
static Rat fl(Rat r) { return Rat(r.floor()); }
static F un(F f, std::function<Rat(Rat)> g) { return [f, g](const I *x) { V v = f(x); if (v.k == 1) v.r = g(v.r); return v; }; }
static F bin(F f, F g, std::function<V(Rat, Rat)> h) { return [f, g, h](const I *x) { V a = f(x), b = g(x); if (!a.k || !b.k) return V{0, 0}; if (a.k == 2 || b.k == 2) return V{2, 0}; return h(a.r, b.r); }; }
struct Leaf { string t; F f; };                // text of a (piecewise) expression on [n] -> { [x,y] }
static string E(const string &e, const string &c = "") { return "[n] -> { [x,y] -> [(" + e + ")]" + (c.empty() ? "" : " : " + c) + " }"; }
#define L(e) [](const I *p) { I n = p[0], x = p[1], y = p[2]; (void) n; (void) x; (void) y; return val(e); }
static vector<Leaf> leaves() {
	return {{E("x"), L(Rat(x))}, {E("y - 2n + 1"), L(Rat(y - 2 * n + 1))}, {E("(x + 2y)/3"), L(Rat(x + 2 * y, 3))}, {E("floor(x/2)"), L(fl(Rat(x, 2)))},
		{E("n"), L(Rat(n))}, {E("2"), L(Rat(2))}, {E("floor((x + n)/3) - y/2"), L(fl(Rat(x + n, 3)) - Rat(y, 2))}, {E("floor((x + floor(y/2))/2)"), L(fl((Rat(x) + fl(Rat(y, 2))) / Rat(2)))}, {E("x - 3*floor(x/3)"), L(Rat(mod(x, 3)))}};
}
static isl_val *V_(int n, int d = 1) { return isl_val_div(isl_val_int_from_si(ctx, n), isl_val_int_from_si(ctx, d)); }
struct AOp { string n; std::function<isl_aff *(isl_aff *)> o; std::function<F(F)> m; };
static isl_aff *A(const Leaf &l) { isl_aff *a = isl_aff_read_from_str(ctx, l.t.c_str()); if (!a) fail("parse", l.t); return a; }
static vector<Leaf> LV;
static isl_multi_aff *MA(const char *s) { isl_multi_aff *m = isl_multi_aff_read_from_str(ctx, s); if (!m) fail("parse", s); return m; }
struct PB { const char *t; std::function<void(const I *, I *)> f; };
static vector<PB> PBS = {{"[n] -> { [x,y] -> [(y),(x)] }", [](const I *p, I *q) { q[0] = p[0]; q[1] = p[2]; q[2] = p[1]; }},
	{"[n] -> { [x,y] -> [(2x - 1),(x + n)] }", [](const I *p, I *q) { q[0] = p[0]; q[1] = 2 * p[1] - 1; q[2] = p[1] + p[0]; }},
	{"[n] -> { [x,y] -> [(floor(x/2)),(y - 2*floor(y/2) - 1)] }", [](const I *p, I *q) { q[0] = p[0]; q[1] = fdiv(p[1], 2); q[2] = mod(p[2], 2) - 1; }},
	{"[n] -> { [x,y] -> [(3),(floor((x + 2y)/3))] }", [](const I *p, I *q) { q[0] = p[0]; q[1] = 3; q[2] = fdiv(p[1] + 2 * p[2], 3); }}};
static F pb(F f, int k) { auto g = PBS[k].f; return [f, g](const I *p) { I q[3]; g(p, q); return f(q); }; }
static vector<AOp> aops() {
	vector<AOp> r;
	for (int k : {0, 1, 2, 3, 6, 7}) { Leaf l = LV[k];
		r.push_back({"add " + l.t, [l](isl_aff *a) { return isl_aff_add(a, A(l)); }, [l](F f) { return bin(f, l.f, [](Rat a, Rat b) { return val(a + b); }); }});
		if (k % 2 == 0) r.push_back({"sub " + l.t, [l](isl_aff *a) { return isl_aff_sub(a, A(l)); }, [l](F f) { return bin(f, l.f, [](Rat a, Rat b) { return val(a - b); }); }});
		if (k == 2 || k == 7) r.push_back({"rsub " + l.t, [l](isl_aff *a) { return isl_aff_sub(A(l), a); }, [l](F f) { return bin(f, l.f, [](Rat a, Rat b) { return val(b - a); }); }});
	}
	r.push_back({"neg", isl_aff_neg, [](F f) { return un(f, [](Rat a) { return -a; }); }});
	r.push_back({"floor", isl_aff_floor, [](F f) { return un(f, fl); }});
	r.push_back({"ceil", isl_aff_ceil, [](F f) { return un(f, [](Rat a) { return Rat(a.ceil()); }); }});
	for (int m : {1, 2, 3, 4, 6}) r.push_back({cat("mod ", m), [m](isl_aff *a) { return isl_aff_mod_val(a, V_(m)); }, [m](F f) { return un(f, [m](Rat a) { return a - Rat(m) * fl(a / Rat(m)); }); }});
	for (auto q : vector<std::pair<int, int>>{{2, 1}, {-3, 2}, {6, 1}, {1, 3}, {0, 1}}) { int a = q.first, b = q.second; r.push_back({cat("scale ", a, "/", b), [a, b](isl_aff *f) { return isl_aff_scale_val(f, V_(a, b)); }, [a, b](F f) { return un(f, [a, b](Rat v) { return v * Rat(a, b); }); }});
		if (a > 0) r.push_back({cat("scale_down ", a, "/", b), [a, b](isl_aff *f) { return isl_aff_scale_down_val(f, V_(a, b)); }, [a, b](F f) { return un(f, [a, b](Rat v) { return v / Rat(a, b); }); }}); }
	r.push_back({"scale_down_ui 4", [](isl_aff *f) { return isl_aff_scale_down_ui(f, 4); }, [](F f) { return un(f, [](Rat v) { return v / Rat(4); }); }});
	for (auto q : vector<std::pair<int, int>>{{1, 1}, {-1, 2}, {5, 3}}) { int a = q.first, b = q.second; r.push_back({cat("add_constant ", a, "/", b), [a, b](isl_aff *f) { return isl_aff_add_constant_val(f, V_(a, b)); }, [a, b](F f) { return un(f, [a, b](Rat v) { return v + Rat(a, b); }); }}); }
	r.push_back({"add_constant_si -2", [](isl_aff *f) { return isl_aff_add_constant_si(f, -2); }, [](F f) { return un(f, [](Rat v) { return v - Rat(2); }); }});
	r.push_back({"mul -2", [](isl_aff *f) { return isl_aff_mul(f, A(LV[5])); }, [](F f) { return un(f, [](Rat v) { return v * Rat(2); }); }});
	r.push_back({"rmul", [](isl_aff *f) { return isl_aff_mul(isl_aff_neg(A(LV[5])), f); }, [](F f) { return un(f, [](Rat v) { return v * Rat(-2); }); }});
	r.push_back({"div 2/3", [](isl_aff *f) { return isl_aff_div(f, isl_aff_scale_down_ui(A(LV[5]), 3)); }, [](F f) { return un(f, [](Rat v) { return v / Rat(2, 3); }); }});
	r.push_back({"div -2", [](isl_aff *f) { return isl_aff_div(f, isl_aff_neg(A(LV[5]))); }, [](F f) { return un(f, [](Rat v) { return v / Rat(-2); }); }});
	r.push_back({"add_coef n/2", [](isl_aff *f) { return isl_aff_add_coefficient_val(f, isl_dim_param, 0, V_(1, 2)); }, [](F f) -> F { return [f](const I *p) { V v = f(p); v.r = v.r + Rat(p[0], 2); return v; }; }});
	r.push_back({"add_coef -2y", [](isl_aff *f) { return isl_aff_add_coefficient_si(f, isl_dim_in, 1, -2); }, [](F f) -> F { return [f](const I *p) { V v = f(p); v.r = v.r - Rat(2 * p[2]); return v; }; }});
	for (int k = 0; k < (int) PBS.size(); ++k) r.push_back({cat("pullback ", PBS[k].t), [k](isl_aff *a) { return isl_aff_pullback_multi_aff(a, MA(PBS[k].t)); }, [k](F f) { return pb(f, k); }});
	return r;
}
static vector<AOp> AO;
static Rat point_val(isl_val *v, int &k) { k = 1; if (!v) fail("null", "eval"); if (isl_val_is_nan(v)) { isl_val_free(v); k = 2; return 0; } return rat_from_val(v); }
static isl_point *pt(isl_space *sp, const I *p) { isl_point *q = isl_point_zero(sp); q = isl_point_set_coordinate_val(q, isl_dim_param, 0, valI(p[0])); for (int z = 0; z < 2; ++z) q = isl_point_set_coordinate_val(q, isl_dim_set, z, valI(p[1 + z])); return q; }
static void check_aff(isl_aff *a, const F &f, const string &who, bool sets) {   // keeps a
	if (!a) { mc::take_error(); fail(cat("aff|", who), "NULL"); }
	string bad; bool nan = isl_aff_is_nan(a) == isl_bool_true; uint64_t h = 3;
	try {
		Aff m = read_aff(a);
		for (int i = 0; i < W.count && bad.empty(); ++i) { V v = f(W.at(i)); if ((v.k == 2) != (nan || m.nan)) bad = cat("NaN expected: ", v.k == 2); else if (v.k == 1) { Rat g = eval(m, W.at(i)); if (g != v.r) bad = cat(g.s(), " instead of ", v.r.s(), " at n,x,y = ", S(W.at(i)[0]), ",", S(W.at(i)[1]), ",", S(W.at(i)[2])); h = mc::hash_mix(h, (uint64_t) v.r.n * 31 + (uint64_t) v.r.d); } }
	} catch (Overflow &) { note_outcome("inconclusive"); return; }
	if (!bad.empty()) fail(cat("aff|", who), cat(bad, " in ", mc::str(isl_aff_to_str(a))));
	for (int i = 5; i < W.count; i += 41) { int k; Rat g = point_val(isl_aff_eval(isl_aff_copy(a), pt(isl_aff_get_domain_space(a), W.at(i))), k); V v = f(W.at(i)); note_transition(); if (k != v.k || (k == 1 && g != v.r)) fail(cat("aff_eval|", who), cat(g.s(), " instead of ", vs(v))); }
	note_state(h); note_validated();
	if (!sets || nan) return;
	auto bs = [&](const char *n, isl_basic_set *s, std::function<bool(Rat)> t) { expect_set(n, isl_set_from_basic_set(s), W, where(W, [&](const I *p) { return t(f(p).r); }), who); };
	bs("aff_zero_basic_set", isl_aff_zero_basic_set(isl_aff_copy(a)), [](Rat r) { return r == Rat(0); });
	bs("aff_neg_basic_set", isl_aff_neg_basic_set(isl_aff_copy(a)), [](Rat r) { return r < Rat(0); });
}
// the comparison of two expressions
static void cmp_aff(const Leaf *dummy, isl_aff *a, const F &f, isl_aff *b, const F &g, const string &who) {
	struct R { const char *n; isl_set *(*s)(isl_aff *, isl_aff *); isl_basic_set *(*b)(isl_aff *, isl_aff *); std::function<bool(Rat, Rat)> t; };
	static vector<R> T = {{"eq", isl_aff_eq_set, isl_aff_eq_basic_set, [](Rat x, Rat y) { return x == y; }}, {"ge", isl_aff_ge_set, isl_aff_ge_basic_set, [](Rat x, Rat y) { return x >= y; }}, {"gt", isl_aff_gt_set, isl_aff_gt_basic_set, [](Rat x, Rat y) { return x > y; }},
		{"le", isl_aff_le_set, isl_aff_le_basic_set, [](Rat x, Rat y) { return x <= y; }}, {"lt", isl_aff_lt_set, isl_aff_lt_basic_set, [](Rat x, Rat y) { return x < y; }}, {"ne", isl_aff_ne_set, nullptr, [](Rat x, Rat y) { return x != y; }}};
	for (auto &t : T) { Bits w = where(W, [&](const I *p) { return t.t(f(p).r, g(p).r); });
		expect_set(cat("aff_", t.n, "_set"), t.s(isl_aff_copy(a), isl_aff_copy(b)), W, w, who);
		if (t.b) expect_set(cat("aff_", t.n, "_basic_set"), isl_set_from_basic_set(t.b(isl_aff_copy(a), isl_aff_copy(b))), W, w, who); }
}
static void run_aff(const vector<uint64_t> &d, bool sets) {
	isl_aff *a = A(LV[d[0]]); F f = LV[d[0]].f; string who = LV[d[0]].t;
	struct Fr { isl_aff *&a; ~Fr() { isl_aff_free(a); } } fr{a};
	for (size_t i = 1; i < d.size(); ++i) { a = AO[d[i]].o(a); f = AO[d[i]].m(f); who += "; " + AO[d[i]].n; note_transition(); }
	check_aff(a, f, who, sets);
}
// ---- piecewise ----
static vector<Leaf> PL; // piecewise leaves
static vector<Leaf> pleaves() {
	auto on = [](F f, std::function<bool(I, I, I)> c) -> F { return [f, c](const I *p) { return c(p[0], p[1], p[2]) ? f(p) : V{0, 0}; }; };
	vector<Leaf> l = leaves(), r = {l[0], l[2], l[5]};
	r.push_back({E("x - n", "x >= 1"), on(L(Rat(x - n)), [](I, I x, I) { return x >= 1; })});
	r.push_back({E("floor(y/2)", "x mod 2 = 0"), on(L(fl(Rat(y, 2))), [](I, I x, I) { return mod(x, 2) == 0; })});
	r.push_back({"[n] -> { [x,y] -> [(y)] : x > y; [x,y] -> [(2 - x)] : x <= y - 1 }", [](const I *p) { return p[1] > p[2] ? val(Rat(p[2])) : p[1] <= p[2] - 1 ? val(Rat(2 - p[1])) : V{0, 0}; }});
	r.push_back({"[n] -> { [x,y] -> [(x/2)] : n >= 1; [x,y] -> [(-1)] : n <= 0 and y >= 0 }", [](const I *p) { return p[0] >= 1 ? val(Rat(p[1], 2)) : p[2] >= 0 ? val(Rat(-1)) : V{0, 0}; }});
	r.push_back({"[n] -> { [x,y] -> [(0)] : false }", [](const I *) { return V{0, 0}; }});
	r.push_back({"[n] -> { [x,y] -> [NaN] : x >= 2; [x,y] -> [(y + x)] : x <= 1 }", [](const I *p) { return p[1] >= 2 ? V{2, 0} : val(Rat(p[1] + p[2])); }});
	r.push_back({"[n] -> { [x,y] -> [(3)] : x >= 0; [x,y] -> [(-2)] : x < 0 }", [](const I *p) { return val(Rat(p[1] >= 0 ? 3 : -2)); }});
	return r;
}
static isl_pw_aff *P(const Leaf &l) { isl_pw_aff *a = isl_pw_aff_read_from_str(ctx, l.t.c_str()); if (!a) fail("parse", l.t); return a; }
struct SetLeaf { const char *t; std::function<bool(I, I, I)> f; };
static vector<SetLeaf> SL = {{"[n] -> { [x,y] : x >= y }", [](I, I x, I y) { return x >= y; }}, {"[n] -> { [x,y] : (x + y) mod 3 = 1 or n >= 1 }", [](I n, I x, I y) { return mod(x + y, 3) == 1 || n >= 1; }}, {"[n] -> { [x,y] : exists e : x = 2e and e >= y }", [](I, I x, I y) { return mod(x, 2) == 0 && x / 2 >= y; }}};
static isl_set *SS(int k) { isl_set *s = isl_set_read_from_str(ctx, SL[k].t); if (!s) fail("parse", SL[k].t); return s; }
struct POp { string n; std::function<isl_pw_aff *(isl_pw_aff *)> o; std::function<F(F)> m; };
struct BOp { string n; std::function<isl_pw_aff *(isl_pw_aff *, isl_pw_aff *)> o; std::function<F(F, F)> m; };
static F uni2(F f, F g, std::function<Rat(Rat, Rat)> h) { return [=](const I *p) { V a = f(p), b = g(p); if (!a.k) return b; if (!b.k) return a; if (a.k == 2 || b.k == 2) return V{2, 0}; return val(h(a.r, b.r)); }; }
static F NAN2(F f, F g, std::function<V(Rat, Rat)> h) { return bin(f, g, h); }
static vector<BOp> bops() {
	auto mn = [](Rat a, Rat b) { return a < b ? a : b; }; auto mx = [](Rat a, Rat b) { return a < b ? b : a; };
	vector<BOp> r;
	r.push_back({"add", isl_pw_aff_add, [](F f, F g) { return bin(f, g, [](Rat a, Rat b) { return val(a + b); }); }});
	r.push_back({"sub", isl_pw_aff_sub, [](F f, F g) { return bin(f, g, [](Rat a, Rat b) { return val(a - b); }); }});
	r.push_back({"min", isl_pw_aff_min, [mn](F f, F g) { return bin(f, g, [mn](Rat a, Rat b) { return val(mn(a, b)); }); }});
	r.push_back({"max", isl_pw_aff_max, [mx](F f, F g) { return bin(f, g, [mx](Rat a, Rat b) { return val(mx(a, b)); }); }});
	r.push_back({"union_add", isl_pw_aff_union_add, [](F f, F g) { return uni2(f, g, [](Rat a, Rat b) { return a + b; }); }});
	r.push_back({"union_min", isl_pw_aff_union_min, [mn](F f, F g) { return uni2(f, g, mn); }});
	r.push_back({"union_max", isl_pw_aff_union_max, [mx](F f, F g) { return uni2(f, g, mx); }});
	r.push_back({"cond(.,.,n)", [](isl_pw_aff *a, isl_pw_aff *b) { return isl_pw_aff_cond(a, b, P(LV[4])); }, [](F f, F g) -> F { return [f, g](const I *p) { V c = f(p); if (c.k != 1) return c; if (c.r != Rat(0)) return g(p); return val(Rat(p[0])); }; }});
	r.push_back({"list_min", [](isl_pw_aff *a, isl_pw_aff *b) { isl_pw_aff_list *l = isl_pw_aff_list_from_pw_aff(a); l = isl_pw_aff_list_add(l, b); l = isl_pw_aff_list_add(l, P(LV[4])); return isl_pw_aff_list_min(l); }, [mn](F f, F g) { return bin(bin(f, g, [mn](Rat a, Rat b) { return val(mn(a, b)); }), LV[4].f, [mn](Rat a, Rat b) { return val(mn(a, b)); }); }});
	r.push_back({"list_max", [](isl_pw_aff *a, isl_pw_aff *b) { isl_pw_aff_list *l = isl_pw_aff_list_from_pw_aff(a); l = isl_pw_aff_list_add(l, b); l = isl_pw_aff_list_add(l, P(LV[4])); return isl_pw_aff_list_max(l); }, [mx](F f, F g) { return bin(bin(f, g, [mx](Rat a, Rat b) { return val(mx(a, b)); }), LV[4].f, [mx](Rat a, Rat b) { return val(mx(a, b)); }); }});
	return r;
}
static vector<BOp> BO;
static vector<POp> PO;
static vector<POp> pops() {
	vector<POp> r; auto U = [&](const string &n, std::function<isl_pw_aff *(isl_pw_aff *)> o, std::function<Rat(Rat)> g) { r.push_back({n, o, [g](F f) { return un(f, g); }}); };
	U("neg", isl_pw_aff_neg, [](Rat a) { return -a; }); U("floor", isl_pw_aff_floor, fl); U("ceil", isl_pw_aff_ceil, [](Rat a) { return Rat(a.ceil()); });
	for (int m : {1, 2, 3, 6}) U(cat("mod ", m), [m](isl_pw_aff *p) { return isl_pw_aff_mod_val(p, V_(m)); }, [m](Rat a) { return a - Rat(m) * fl(a / Rat(m)); });
	U("scale -3/2", [](isl_pw_aff *p) { return isl_pw_aff_scale_val(p, V_(-3, 2)); }, [](Rat a) { return a * Rat(-3, 2); });
	U("scale_down 2", [](isl_pw_aff *p) { return isl_pw_aff_scale_down_val(p, V_(2)); }, [](Rat a) { return a / Rat(2); });
	U("add_constant 1/2", [](isl_pw_aff *p) { return isl_pw_aff_add_constant_val(p, V_(1, 2)); }, [](Rat a) { return a + Rat(1, 2); });
	U("coalesce", isl_pw_aff_coalesce, [](Rat a) { return a; });
	auto tq = [](Rat a, Rat b) { Rat q = a / b; return q >= Rat(0) ? fl(q) : Rat(q.ceil()); };
	// constant divisors: 2 and the piecewise constant 3/-2
	for (int k : {2, 9}) { Leaf l = PL[k]; string n = k == 2 ? "2" : "pw const";
		r.push_back({"mul " + n, [l](isl_pw_aff *p) { return isl_pw_aff_mul(p, P(l)); }, [l](F f) { return bin(f, l.f, [](Rat a, Rat b) { return val(a * b); }); }});
		r.push_back({"div " + n, [l](isl_pw_aff *p) { return isl_pw_aff_div(p, P(l)); }, [l](F f) { return bin(f, l.f, [](Rat a, Rat b) { return val(a / b); }); }});
		r.push_back({"tdiv_q " + n, [l](isl_pw_aff *p) { return isl_pw_aff_tdiv_q(p, P(l)); }, [l, tq](F f) { return bin(f, l.f, [tq](Rat a, Rat b) { return val(tq(a, b)); }); }});
		r.push_back({"tdiv_r " + n, [l](isl_pw_aff *p) { return isl_pw_aff_tdiv_r(p, P(l)); }, [l, tq](F f) { return bin(f, l.f, [tq](Rat a, Rat b) { return val(a - b * tq(a, b)); }); }});
	}
	for (size_t k = 0; k < SL.size(); ++k) {
		auto c = SL[k].f; F id;
		auto keep = [c](bool in) { return [c, in](F f) -> F { return [f, c, in](const I *p) { return c(p[0], p[1], p[2]) == in ? f(p) : V{0, 0}; }; }; };
		r.push_back({cat("intersect_domain ", SL[k].t), [k](isl_pw_aff *p) { return isl_pw_aff_intersect_domain(p, SS(k)); }, keep(true)});
		if (k != 1) r.push_back({cat("subtract_domain ", SL[k].t), [k](isl_pw_aff *p) { return isl_pw_aff_subtract_domain(p, SS(k)); }, keep(false)});
	}
	for (int k = 0; k < (int) PBS.size(); ++k) {
		r.push_back({cat("pullback ", PBS[k].t), [k](isl_pw_aff *a) { return isl_pw_aff_pullback_multi_aff(a, MA(PBS[k].t)); }, [k](F f) { return pb(f, k); }});
		if (k == 1) r.push_back({"pullback pma on x>=y", [k](isl_pw_aff *a) { return isl_pw_aff_pullback_pw_multi_aff(a, isl_pw_multi_aff_intersect_domain(isl_pw_multi_aff_from_multi_aff(MA(PBS[k].t)), SS(0))); }, [k](F f) -> F { F g = pb(f, k); return [g](const I *p) { return p[1] >= p[2] ? g(p) : V{0, 0}; }; }});
		if (k == 2) r.push_back({"pullback mpa on x even", [k](isl_pw_aff *a) { /* an expression not involving the substituted dimensions is documented not to be restricted to the domain of the substituted function */ return isl_pw_aff_intersect_domain(isl_pw_aff_pullback_multi_pw_aff(a, isl_multi_pw_aff_intersect_domain(isl_multi_pw_aff_from_multi_aff(MA(PBS[k].t)), SS(2))), SS(2)); }, [k](F f) -> F { F g = pb(f, k); return [g](const I *p) { return SL[2].f(p[0], p[1], p[2]) ? g(p) : V{0, 0}; }; }});
	}
	return r;
}
// lenient: the minimum and maximum are documented to be NaN on the whole shared domain if some operand involves a NaN
static void check_pw(isl_pw_aff *a, const F &f, const string &who, bool sets, bool lenient = false) {
	if (!a) { mc::take_error(); fail(cat("pw|", who), "NULL"); }
	string bad; uint64_t h = 5; bool anynan = false;
	try {
		PwAff m = read_pw_aff(a);
		for (int i = 0; i < W.count && bad.empty(); ++i) {
			V v = f(W.at(i)); int n = 0; V g{0, 0};
			for (auto &q : m.p) if (contains(q.first, W.at(i))) { V t = q.second.nan ? V{2, 0} : val(eval(q.second, W.at(i))); if (n && (t.k != g.k || (t.k == 1 && t.r != g.r))) bad = "overlapping pieces differ"; g = t; ++n; }
			if (lenient && ((g.k == 2 && v.k == 1) || (g.k == 1 && v.k == 2))) g = v;
			if (g.k != v.k || (g.k == 1 && g.r != v.r)) bad = cat(vs(g), " instead of ", vs(v), " at n,x,y = ", S(W.at(i)[0]), ",", S(W.at(i)[1]), ",", S(W.at(i)[2]));
			anynan |= v.k == 2; h = mc::hash_mix(h, (uint64_t) v.r.n * 31 + (uint64_t) v.r.d * 4 + v.k);
		}
	} catch (Overflow &) { note_outcome("inconclusive"); return; }
	if (!bad.empty()) fail(cat("pw|", who), cat(bad, " in ", mc::str(isl_pw_aff_to_str(a))));
	note_state(h); note_validated(); note_outcome(anynan ? "with NaN" : "without NaN");
	if (!sets || lenient) return;
	for (int i = 5; i < W.count; i += 41) { int k; Rat g = point_val(isl_pw_aff_eval(isl_pw_aff_copy(a), pt(isl_pw_aff_get_domain_space(a), W.at(i))), k); V v = f(W.at(i)); if (!v.k) v.k = 2; if (k != v.k || (k == 1 && g != v.r)) fail(cat("pw_aff_eval|", who), cat(g.s(), " instead of ", vs(v))); }
	auto S_ = [&](const char *n, isl_set *s, std::function<bool(V)> t) { expect_set(n, s, W, where(W, [&](const I *p) { return t(f(p)); }), who); };
	S_("pw_domain", isl_pw_aff_domain(isl_pw_aff_copy(a)), [](V v) { return v.k != 0; });
	S_("pw_pos_set", isl_pw_aff_pos_set(isl_pw_aff_copy(a)), [](V v) { return v.k == 1 && v.r > Rat(0); });
	S_("pw_zero_set", isl_pw_aff_zero_set(isl_pw_aff_copy(a)), [](V v) { return v.k == 1 && v.r == Rat(0); });
	S_("pw_non_zero_set", isl_pw_aff_non_zero_set(isl_pw_aff_copy(a)), [](V v) { return v.k == 1 && v.r != Rat(0); });
	S_("pw_nonneg_set", isl_pw_aff_nonneg_set(isl_pw_aff_copy(a)), [](V v) { return v.k == 1 && v.r >= Rat(0); });
	Window wp = Window::cube(1, W.at(0)[0], W.at(W.count - 1)[0]); (void) wp;
	expect_implies("pw_is_cst", isl_pw_aff_is_cst(a), [&] { return true; }(), who);
	bool e = true; for (int i = 0; i < W.count; ++i) e &= f(W.at(i)).k == 0; expect_implies("pw_is_empty", isl_pw_aff_is_empty(a), e, who);
	if (anynan) expect_bool("pw_involves_nan", isl_pw_aff_involves_nan(a), true, who);   // may also hold on pieces without points
	if (isl_pw_aff_isa_aff(a) == isl_bool_true) { isl_aff *q = isl_pw_aff_as_aff(isl_pw_aff_copy(a)); struct Fr { isl_aff *q; ~Fr() { isl_aff_free(q); } } fr{q}; if (!anynan) check_aff(q, f, cat("as_aff ", who), false); }
}
static void run_pw(const vector<uint64_t> &d, bool sets) {   // leaf, ops
	isl_pw_aff *a = P(PL[d[0]]); F f = PL[d[0]].f; string who = PL[d[0]].t;
	struct Fr { isl_pw_aff *&a; ~Fr() { isl_pw_aff_free(a); } } fr{a};
	bool nan = d[0] == 8, len = false;
	for (size_t i = 1; i < d.size(); ++i) {
		uint64_t k = d[i]; note_transition();
		if (len) { note_outcome("skipped: operation on conservative NaN"); return; }
		if (k >= PO.size()) { nan |= (k - PO.size()) % PL.size() == 8; uint64_t b = (k - PO.size()) / PL.size() % BO.size(); if (nan && BO[b].n[0] == 'c') { note_outcome("skipped: selection on NaN"); return; } len = nan && BO[b].n.find("m") != string::npos; }
		if (k < PO.size()) { a = PO[k].o(a); f = PO[k].m(f); who += "; " + PO[k].n; continue; }
		k -= PO.size(); uint64_t l = k % PL.size(), b = k / PL.size(); bool rev = b >= BO.size(); b %= BO.size();
		if (rev) { a = BO[b].o(P(PL[l]), a); f = BO[b].m(PL[l].f, f); } else { a = BO[b].o(a, P(PL[l])); f = BO[b].m(f, PL[l].f); }
		who += cat("; ", rev ? "r" : "", BO[b].n, " ", PL[l].t);
	}
	check_pw(a, f, who, sets, len);
}
static uint64_t npw() { return PO.size() + BO.size() * PL.size() + 0; }
// comparisons of two piecewise expressions
struct CmpP { const char *n; isl_set *(*s)(isl_pw_aff *, isl_pw_aff *); isl_set *(*l)(isl_pw_aff_list *, isl_pw_aff_list *); std::function<bool(Rat, Rat)> t; };
static vector<CmpP> CP = {{"eq", isl_pw_aff_eq_set, isl_pw_aff_list_eq_set, [](Rat x, Rat y) { return x == y; }}, {"ge", isl_pw_aff_ge_set, isl_pw_aff_list_ge_set, [](Rat x, Rat y) { return x >= y; }}, {"gt", isl_pw_aff_gt_set, isl_pw_aff_list_gt_set, [](Rat x, Rat y) { return x > y; }},
	{"le", isl_pw_aff_le_set, isl_pw_aff_list_le_set, [](Rat x, Rat y) { return x <= y; }}, {"lt", isl_pw_aff_lt_set, isl_pw_aff_list_lt_set, [](Rat x, Rat y) { return x < y; }}, {"ne", isl_pw_aff_ne_set, isl_pw_aff_list_ne_set, [](Rat x, Rat y) { return x != y; }}};
// one step from leaf l: op o
static isl_pw_aff *step(uint64_t l, uint64_t o, F &f, string &who) { isl_pw_aff *a = P(PL[l]); f = PL[l].f; who = PL[l].t; if (o) { a = PO[o - 1].o(a); f = PO[o - 1].m(f); who += "; " + PO[o - 1].n; } return a; }
static void pair_pw(uint64_t l1, uint64_t o1, uint64_t l2, uint64_t o2) {
	F f, g; string s, t; isl_pw_aff *a = step(l1, o1, f, s), *b = step(l2, o2, g, t); string who = s + " | " + t;
	struct Fr { isl_pw_aff *a, *b; ~Fr() { isl_pw_aff_free(a); isl_pw_aff_free(b); } } fr{a, b};
	for (auto &c : CP) expect_set(cat("pw_", c.n, "_set"), c.s(isl_pw_aff_copy(a), isl_pw_aff_copy(b)), W, where(W, [&](const I *p) { V x = f(p), y = g(p); return x.k == 1 && y.k == 1 && c.t(x.r, y.r); }), who);
	for (auto &b2 : BO) { if (b2.n[0] == 'c' && (l1 == 8 || l2 == 8)) continue; isl_pw_aff *q = b2.o(isl_pw_aff_copy(a), isl_pw_aff_copy(b)); struct Fq { isl_pw_aff *q; ~Fq() { isl_pw_aff_free(q); } } fq{q}; note_transition(); check_pw(q, b2.m(f, g), b2.n + " " + who, false, l1 == 8 || l2 == 8); }
	bool eq = true, nan = false; for (int i = 0; i < W.count; ++i) { V x = f(W.at(i)), y = g(W.at(i)); nan |= x.k == 2 || y.k == 2; eq &= x.k == y.k && (x.k != 1 || x.r == y.r); }
	expect_implies("pw_plain_is_equal", isl_pw_aff_plain_is_equal(a, b), eq && !nan, who);
	if (!nan) { isl_bool e = isl_pw_aff_is_equal(a, b); note_transition(); if (e == isl_bool_true && !eq) fail(cat("pw_is_equal|", who), "claims equality"); if (e != isl_bool_true && l1 == l2 && o1 == o2) fail(cat("pw_is_equal|", who), "not equal to itself"); note_validated(); }
}
// lists and relational comparison (x,y of two copies of the domain)
static void list_cmp(uint64_t i, uint64_t j, uint64_t k) {
	isl_pw_aff_list *l1 = isl_pw_aff_list_from_pw_aff(P(PL[i])), *l2 = isl_pw_aff_list_from_pw_aff(P(PL[k])); l1 = isl_pw_aff_list_add(l1, P(PL[j])); if ((i + k) % 2) l2 = isl_pw_aff_list_add(l2, P(LV[4]));
	string who = cat(PL[i].t, ",", PL[j].t, " vs ", PL[k].t, (i + k) % 2 ? ", n" : "");
	vector<F> A1 = {PL[i].f, PL[j].f}, A2 = {PL[k].f}; if ((i + k) % 2) A2.push_back(LV[4].f);
	for (auto &c : CP) expect_set(cat("list_", c.n), c.l(isl_pw_aff_list_copy(l1), isl_pw_aff_list_copy(l2)), W, where(W, [&](const I *p) { for (auto &f : A1) for (auto &g : A2) { V x = f(p), y = g(p); if (x.k != 1 || y.k != 1 || !c.t(x.r, y.r)) return false; } return true; }), who);
	isl_pw_aff_list_free(l1); isl_pw_aff_list_free(l2);
}
static Window WM;
static void map_cmp(uint64_t i, uint64_t j) {
	struct M { const char *n; isl_map *(*s)(isl_pw_aff *, isl_pw_aff *); std::function<bool(Rat, Rat)> t; };
	static vector<M> T = {{"eq", isl_pw_aff_eq_map, CP[0].t}, {"ge", isl_pw_aff_ge_map, CP[1].t}, {"gt", isl_pw_aff_gt_map, CP[2].t}, {"le", isl_pw_aff_le_map, CP[3].t}, {"lt", isl_pw_aff_lt_map, CP[4].t}};
	for (auto &m : T) expect_map(cat("pw_", m.n, "_map"), m.s(P(PL[i]), P(PL[j])), WM, where(WM, [&](const I *p) { I a[3] = {p[0], p[1], p[2]}, b[3] = {p[0], p[3], p[4]}; V x = PL[i].f(a), y = PL[j].f(b); return x.k == 1 && y.k == 1 && m.t(x.r, y.r); }), cat(PL[i].t, " vs ", PL[j].t), 2);
	// graph of the function, for integer values
	Window WG = window_np(1, -1, 1, 3, -4, 5);
	if (i == j) { isl_map *g = isl_pw_aff_as_map(P(PL[i])); bool nan = i == 8; if (!nan) expect_map("as_map", g, WG, where(WG, [&](const I *p) { V x = PL[i].f(p); return x.k == 1 && x.r == Rat(p[3]); }), PL[i].t, 2); else isl_map_free(g); }
}
// structural operations on a state reached by two operations
static void structural(uint64_t l, uint64_t o1, uint64_t o2) {
	F f = LV[l].f; isl_aff *a = A(LV[l]); string who = LV[l].t;
	for (uint64_t o : {o1, o2}) { a = AO[o].o(a); f = AO[o].m(f); who += "; " + AO[o].n; }
	struct Fr { isl_aff *a; ~Fr() { isl_aff_free(a); } } fr{a};
	if (!a) fail(cat("aff|", who), "NULL");
	auto chk = [&](const char *n, isl_aff *r, const Window &w, std::function<void(const I *, I *)> back) {
		note_transition(); string bad; if (!r) { mc::take_error(); fail(cat(n, "|", who), "NULL"); }
		if (isl_aff_dim(r, isl_dim_in) + isl_aff_dim(r, isl_dim_param) != w.n) bad = "wrong dimension";
		try { if (bad.empty()) { Aff m = read_aff(r); for (int i = 0; i < w.count && bad.empty(); ++i) { I q[3]; back(w.at(i), q); V v = f(q); Rat g = eval(m, w.at(i)); if (g != v.r) bad = cat(g.s(), " instead of ", v.r.s()); } } } catch (Overflow &) { note_outcome("inconclusive"); }
		if (!bad.empty()) bad += " in " + mc::str(isl_aff_to_str(r)); isl_aff_free(r); if (!bad.empty()) fail(cat(n, "|", who), bad); note_validated();
	};
	static Window w4 = window_np(2, -1, 1, 2, -3, 3), w4b = window_np(1, -1, 1, 3, -3, 3), wp = window_np(1, -1, 1, 2, -4, 4);
	chk("insert_dims", isl_aff_insert_dims(isl_aff_copy(a), isl_dim_in, 1, 1), w4b, [](const I *p, I *q) { q[0] = p[0]; q[1] = p[1]; q[2] = p[3]; });
	chk("add_dims", isl_aff_add_dims(isl_aff_copy(a), isl_dim_in, 1), w4b, [](const I *p, I *q) { q[0] = p[0]; q[1] = p[1]; q[2] = p[2]; });
	chk("insert_param", isl_aff_insert_dims(isl_aff_copy(a), isl_dim_param, 0, 1), w4, [](const I *p, I *q) { q[0] = p[1]; q[1] = p[2]; q[2] = p[3]; });
	chk("move in->param", isl_aff_move_dims(isl_aff_copy(a), isl_dim_param, 1, isl_dim_in, 0, 1), wp, [](const I *p, I *q) { q[0] = p[0]; q[1] = p[1]; q[2] = p[2]; });
	chk("move in->param0", isl_aff_move_dims(isl_aff_copy(a), isl_dim_param, 0, isl_dim_in, 1, 1), wp, [](const I *p, I *q) { q[0] = p[1]; q[1] = p[2]; q[2] = p[0]; });
	chk("move param->in", isl_aff_move_dims(isl_aff_copy(a), isl_dim_in, 2, isl_dim_param, 0, 1), wp, [](const I *p, I *q) { q[0] = p[2]; q[1] = p[0]; q[2] = p[1]; });
	isl_space *al = isl_space_params_alloc(ctx, 2); al = isl_space_set_dim_name(al, isl_dim_param, 0, "m"); al = isl_space_set_dim_name(al, isl_dim_param, 1, "n");
	chk("align_params", isl_aff_align_params(isl_aff_copy(a), al), w4, [](const I *p, I *q) { q[0] = p[1]; q[1] = p[2]; q[2] = p[3]; });
	for (int d = 0; d < 2; ++d) {
		bool dep = false; for (int i = 0; i < W.count && !dep; ++i) { I q[3]; for (int j = 0; j < 3; ++j) q[j] = W.at(i)[j]; V v = f(q); q[1 + d] += 1; V u = f(q); dep = u.r != v.r; }
		isl_bool inv = isl_aff_involves_dims(a, isl_dim_in, d, 1); note_transition(); if (inv == isl_bool_error || (inv == isl_bool_false && dep)) fail(cat("involves_dims|", who), "dependence denied"); note_validated();
		if (inv == isl_bool_false) chk("drop_dims", isl_aff_drop_dims(isl_aff_copy(a), isl_dim_in, d, 1), Window::cube(2, -2, 3), [d](const I *p, I *q) { q[0] = p[0]; q[1] = d == 0 ? 1 : p[1]; q[2] = d == 0 ? p[1] : 1; });
	}
	chk("copy intact", isl_aff_copy(a), W, [](const I *p, I *q) { for (int j = 0; j < 3; ++j) q[j] = p[j]; });
	isl_id *id = isl_id_alloc(ctx, "k", nullptr);
	Window wb = window_np(2, -3, 3, 2, -2, 3);
	isl_basic_set *bb = isl_aff_bind_id(isl_aff_copy(a), isl_id_copy(id)); isl_id_free(id);
	expect_set("bind_id", isl_set_align_params(isl_set_from_basic_set(bb), isl_space_set_dim_name(isl_space_set_dim_name(isl_space_params_alloc(ctx, 2), isl_dim_param, 0, "k"), isl_dim_param, 1, "n")), wb, where(wb, [&](const I *p) { I q[3] = {p[1], p[2], p[3]}; return f(q).r == Rat(p[0]); }), who);
}
int main(int argc, char **argv) {
	mc::Harness h; h.property = "C09"; bool th = tier_thorough(argc, argv);
	W = Window({{-1, 1}, {-5, 6}, {-2, 3}}); WM = Window({{0, 1}, {-2, 3}, {-1, 2}, {-2, 3}, {-1, 2}});
	LV = leaves(); AO = aops(); PL = pleaves(); PO = pops(); BO = bops();
	uint64_t na = AO.size(), nl = LV.size(), np = npw(), pl = PL.size();
	h.bounds["aff"] = cat("all sequences of up to ", th ? 4 : 3, " of ", na, " operations from ", nl, " leaves, ", W.count, " points");
	auto dec = [](uint64_t i, uint64_t base, int len, uint64_t) { vector<uint64_t> d(1 + len); for (int k = len; k >= 1; --k) { d[k] = i % base; i /= base; } d[0] = i; return d; };
	uint64_t p = nl; for (int len = 0; len <= (th ? 4 : 3); ++len, p *= na) {
		uint64_t n = p, k = len; bool half = len == 4;
		if (len == 3 && !th) n = 5 * na * na * na; if (half) n = 2 * na * na * na * na;
		h.add(mc::SpaceDef(cat("aff-seq-", len), n, [=](uint64_t i) { run_aff(dec(i, na, k, nl), k <= 2); }, [=](uint64_t i) { auto d = dec(i, na, k, nl); string s = LV[d[0]].t; for (size_t j = 1; j < d.size(); ++j) s += "; " + AO[d[j]].n; return s; }));
	}
	uint64_t npd = np + BO.size() * pl; (void) npd;
	h.bounds["pw_aff"] = cat("all sequences of up to ", th ? 3 : 2, " of ", np, " operations from ", pl, " leaves");
	p = pl; for (int len = 0; len <= (th ? 3 : 2); ++len, p *= np) { uint64_t k = len; h.add(mc::SpaceDef(cat("pw-seq-", len), len == 3 ? 4 * np * np * np : p, [=](uint64_t i) { run_pw(dec(i, np, k, pl), k < 2 || i % 3 == 0); }, [=](uint64_t i) { string s; for (auto x : dec(i, np, k, pl)) s += cat(x, " "); return s; })); }
	uint64_t q = PO.size();
	if (!th) h.add(mc::SpaceDef("pw-unary-3", 4 * q * q * q, [=](uint64_t i) { auto d = dec(i, q, 3, pl); d[0] += 3; run_pw(d, false); }, [=](uint64_t i) { string s; for (auto x : dec(i, q, 3, pl)) s += cat(x, " "); return s; }));
	uint64_t u = (th ? PO.size() : 8) + 1;
	mc::Radix rp{pl, u, pl, u}; h.bounds["pairs"] = cat("all pairs of ", pl, " x ", u, " one-step states, all binary operations and comparisons");
	h.add(mc::SpaceDef("pw-pairs", rp.size(), [=](uint64_t i) { auto d = rp.at(i); pair_pw(d[0], d[1], d[2], d[3]); }, [=](uint64_t i) { auto d = rp.at(i); return cat(PL[d[0]].t, " op", d[1], " | ", PL[d[2]].t, " op", d[3]); }));
	h.add(mc::SpaceDef("lists", pl * pl * pl, [=](uint64_t i) { list_cmp(i / pl / pl, i / pl % pl, i % pl); }));
	h.add(mc::SpaceDef("maps", pl * pl, [=](uint64_t i) { map_cmp(i / pl, i % pl); }));
	h.add(mc::SpaceDef("structural", nl * na * na, [=](uint64_t i) { structural(i / na / na, i / na % na, i % na); }));
	h.add(mc::SpaceDef("aff-compare", nl * na * nl, [=](uint64_t i) {
		uint64_t l = i / na / nl, o = i / nl % na, r = i % nl; isl_aff *a = AO[o].o(A(LV[l])), *b = A(LV[r]); struct Fr { isl_aff *a, *b; ~Fr() { isl_aff_free(a); isl_aff_free(b); } } fr{a, b};
		cmp_aff(nullptr, a, AO[o].m(LV[l].f), b, LV[r].f, cat(LV[l].t, "; ", AO[o].n, " | ", LV[r].t)); }));
	return mc::run(argc, argv, h);
}
