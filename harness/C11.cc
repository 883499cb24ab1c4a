// C11: quasi-polynomial operations, all sequences up to a depth, compared pointwise with exact rational evaluation.
#include "poly.hpp"
using poly::V; using poly::val; using poly::Poly; using poly::PwPoly;
typedef std::function<Rat(const I *)> F;
static Window W;
#define FN(e) [](const I *p) -> Rat { I n = p[0], x = p[1], y = p[2]; (void) n; (void) x; (void) y; return e; }
struct Leaf { string t; F f; };
static Rat fl(Rat r) { return Rat(r.floor()); }
static vector<Leaf> LV = {{"0", FN(Rat(0))}, {"-2/3", FN(Rat(-2, 3))}, {"x", FN(Rat(x))}, {"y - 2n + 1", FN(Rat(y - 2 * n + 1))}, {"x^2*y - 1/2*n*y", FN(Rat(x * x * y) - Rat(n * y, 2))}, {"floor(x/2)", FN(Rat(fdiv(x, 2)))}, {"floor((x + n)/3)*y + x", FN(Rat(fdiv(x + n, 3) * y + x))},
	{"floor((x + 2*floor(y/2))/3)", FN(Rat(fdiv(x + 2 * fdiv(y, 2), 3)))}, {"(x + y)*(x - y) + 3", FN(Rat(x * x - y * y + 3))}, {"(x - 2*floor(x/2))*y - floor(y/2)*floor(y/2)", FN(Rat(mod(x, 2) * y - fdiv(y, 2) * fdiv(y, 2)))}, {"n^3 - x", FN(Rat(n * n * n - x))}, {"floor((2x + y)/4)*floor(x/2)", FN(Rat(fdiv(2 * x + y, 4) * fdiv(x, 2)))}, {"1", FN(Rat(1))}};
static isl_val *V_(int n, int d = 1) { return isl_val_div(isl_val_int_from_si(ctx, n), isl_val_int_from_si(ctx, d)); }
static isl_pw_qpolynomial *RD(const string &t) { isl_pw_qpolynomial *p = isl_pw_qpolynomial_read_from_str(ctx, t.c_str()); if (!p) fail("parse", t); return p; }
static isl_qpolynomial *Q(const Leaf &l) { isl_pw_qpolynomial *p = RD("[n] -> { [x,y] -> (" + l.t + ") }"); if (isl_pw_qpolynomial_is_zero(p) == isl_bool_true) { isl_space *s = isl_pw_qpolynomial_get_domain_space(p); isl_pw_qpolynomial_free(p); return isl_qpolynomial_zero_on_domain(s); } return isl_pw_qpolynomial_as_qpolynomial(p); }
static const char *AFFS[] = {"[n] -> { [x,y] -> [(2x - y)/3] }", "[n] -> { [x,y] -> [(floor((x + y)/2) - n)] }", "[n] -> { [x,y] -> [(5)] }"};
static isl_qpolynomial *from_aff(int k) { isl_aff *a = isl_aff_read_from_str(ctx, AFFS[k]); if (!a) fail("parse", AFFS[k]); return isl_qpolynomial_from_aff(a); }
struct Op { string n; std::function<isl_qpolynomial *(isl_qpolynomial *)> o; std::function<F(F)> m; std::function<bool(const Poly &)> ok; };
static vector<Op> ops() {
	vector<Op> r; auto B = [](F f, F g, char c) -> F { return [f, g, c](const I *p) { Rat a = f(p), b = g(p); return c == '+' ? a + b : c == '-' ? a - b : a * b; }; };
	for (int k : {2, 4, 5, 7, 8, 9}) { Leaf l = LV[k]; r.push_back({"add " + l.t, [l](isl_qpolynomial *q) { return isl_qpolynomial_add(q, Q(l)); }, [=](F f) { return B(f, l.f, '+'); }, nullptr}); }
	for (int k : {1, 6, 5}) { Leaf l = LV[k]; r.push_back({"sub " + l.t, [l](isl_qpolynomial *q) { return isl_qpolynomial_sub(q, Q(l)); }, [=](F f) { return B(f, l.f, '-'); }, nullptr}); }
	for (int k : {3, 10}) { Leaf l = LV[k]; r.push_back({"rsub " + l.t, [l](isl_qpolynomial *q) { return isl_qpolynomial_sub(Q(l), q); }, [=](F f) { return B(l.f, f, '-'); }, nullptr}); }
	for (int k : {1, 3, 5, 6, 11}) { Leaf l = LV[k]; r.push_back({"mul " + l.t, [l](isl_qpolynomial *q) { return isl_qpolynomial_mul(q, Q(l)); }, [=](F f) { return B(f, l.f, '*'); }, nullptr}); }
	for (int k : {0, 7}) { Leaf l = LV[k]; r.push_back({"rmul " + l.t, [l](isl_qpolynomial *q) { return isl_qpolynomial_mul(Q(l), q); }, [=](F f) { return B(l.f, f, '*'); }, nullptr}); }
	for (int e : {0, 1, 2, 3}) r.push_back({cat("pow ", e), [e](isl_qpolynomial *q) { return isl_qpolynomial_pow(q, e); }, [e](F f) -> F { return [f, e](const I *p) { return poly::ipow(f(p), e); }; }, nullptr});
	r.push_back({"neg", isl_qpolynomial_neg, [](F f) -> F { return [f](const I *p) { return -f(p); }; }, nullptr});
	r.push_back({"self-mul", [](isl_qpolynomial *q) { isl_qpolynomial *c = isl_qpolynomial_copy(q); return isl_qpolynomial_mul(q, c); }, [](F f) -> F { return [f](const I *p) { Rat a = f(p); return a * a; }; }, nullptr});
	r.push_back({"self-sub", [](isl_qpolynomial *q) { isl_qpolynomial *c = isl_qpolynomial_copy(q); return isl_qpolynomial_sub(q, c); }, [](F) -> F { return [](const I *) { return Rat(0); }; }, nullptr});
	for (auto q : vector<std::pair<int, int>>{{-3, 2}, {0, 1}, {4, 3}}) { int a = q.first, b = q.second; r.push_back({cat("scale ", a, "/", b), [=](isl_qpolynomial *q) { return isl_qpolynomial_scale_val(q, V_(a, b)); }, [=](F f) -> F { return [=](const I *p) { return f(p) * Rat(a, b); }; }, nullptr}); if (a) r.push_back({cat("scale_down ", a, "/", b), [=](isl_qpolynomial *q) { return isl_qpolynomial_scale_down_val(q, V_(a, b)); }, [=](F f) -> F { return [=](const I *p) { return f(p) / Rat(a, b); }; }, nullptr}); }
	for (int k = 0; k < 3; ++k) { F g = k == 0 ? F(FN(Rat(2 * x - y, 3))) : k == 1 ? F(FN(Rat(fdiv(x + y, 2) - n))) : F(FN(Rat(5))); r.push_back({cat("add from_aff ", AFFS[k]), [k](isl_qpolynomial *q) { return isl_qpolynomial_add(q, from_aff(k)); }, [=](F f) { return B(f, g, '+'); }, nullptr}); r.push_back({cat("mul from_aff ", AFFS[k]), [k](isl_qpolynomial *q) { return isl_qpolynomial_mul(q, from_aff(k)); }, [=](F f) { return B(f, g, '*'); }, nullptr}); }
	// x := y - n, y := x*y + 2 simultaneously (division free only)
	r.push_back({"substitute", [](isl_qpolynomial *q) { isl_qpolynomial *s[2] = {Q({"y - n", nullptr}), Q({"x*y + 2", nullptr})}; q = isl_qpolynomial_substitute(q, isl_dim_in, 0, 2, s); isl_qpolynomial_free(s[0]); isl_qpolynomial_free(s[1]); return q; }, [](F f) -> F { return [f](const I *p) { I z[3] = {p[0], p[2] - p[0], p[1] * p[2] + 2}; return f(z); }; }, [](const Poly &p) { return p.nd == 0; }});
	r.push_back({"substitute n", [](isl_qpolynomial *q) { isl_qpolynomial *s[1] = {Q({"x - 1", nullptr})}; q = isl_qpolynomial_substitute(q, isl_dim_param, 0, 1, s); isl_qpolynomial_free(s[0]); return q; }, [](F f) -> F { return [f](const I *p) { I z[3] = {p[1] - 1, p[1], p[2]}; return f(z); }; }, [](const Poly &p) { return p.nd == 0; }});
	r.push_back({"swap dims", [](isl_qpolynomial *q) { q = isl_qpolynomial_move_dims(q, isl_dim_param, 1, isl_dim_in, 0, 1); return isl_qpolynomial_move_dims(q, isl_dim_in, 1, isl_dim_param, 1, 1); }, [](F f) -> F { return [f](const I *p) { I z[3] = {p[0], p[2], p[1]}; return f(z); }; }, nullptr});
	r.push_back({"move all to params and back", [](isl_qpolynomial *q) { q = isl_qpolynomial_move_dims(q, isl_dim_param, 0, isl_dim_in, 0, 2); return isl_qpolynomial_move_dims(q, isl_dim_in, 0, isl_dim_param, 0, 2); }, [](F f) -> F { return f; }, nullptr});
	r.push_back({"insert and drop", [](isl_qpolynomial *q) { q = isl_qpolynomial_insert_dims(q, isl_dim_in, 1, 2); q = isl_qpolynomial_add_dims(q, isl_dim_in, 1); q = isl_qpolynomial_insert_dims(q, isl_dim_param, 0, 1); q = isl_qpolynomial_drop_dims(q, isl_dim_in, 1, 2); q = isl_qpolynomial_drop_dims(q, isl_dim_param, 0, 1); return isl_qpolynomial_drop_dims(q, isl_dim_in, 2, 1); }, [](F f) -> F { return f; }, nullptr});
	return r;
}
static vector<Op> OPS;
static string at(const I *p) { return cat(" at n,x,y = ", S(p[0]), ",", S(p[1]), ",", S(p[2])); }
static isl_set *CTX(const char *t) { isl_set *s = isl_set_read_from_str(ctx, t); if (!s) fail("parse", t); return s; }
struct SetLeaf { const char *t; std::function<bool(I, I, I)> f; };
static vector<SetLeaf> SL = {{"[n] -> { [x,y] : x >= y }", [](I, I x, I y) { return x >= y; }}, {"[n] -> { [x,y] : (x + y) mod 3 = 1 or n >= 1 }", [](I n, I x, I y) { return mod(x + y, 3) == 1 || n >= 1; }}, {"[n] -> { [x,y] : x mod 2 = 0 and y = 2x + n }", [](I n, I x, I y) { return mod(x, 2) == 0 && y == 2 * x + n; }}, {"[n] -> { [x,y] : 0 <= x <= 2 and 0 <= y <= 1 }", [](I, I x, I y) { return x >= 0 && x <= 2 && y >= 0 && y <= 1; }}, {"[n] -> { [x,y] : x = 3 and n = 1 }", [](I n, I x, I) { return x == 3 && n == 1; }}};
static isl_set *SS(int k) { return CTX(SL[k].t); }
template <class G> static void cmp(const string &op, const Poly &p, G f, const string &who, const std::function<bool(const I *)> &in = nullptr) {
	uint64_t h = 1; for (int i = 0; i < W.count; ++i) { const I *x = W.at(i); if (in && !in(x)) continue; V g = poly::eval(p, x); Rat w = f(x); if (g.k || g.r != w) fail(cat(op, "|", who), cat(g.s(), " instead of ", w.s(), at(x))); h = mc::hash_mix(h, (uint64_t) w.n * 31 + (uint64_t) w.d); }
	note_state(h); note_validated(); note_transition();
}
struct QH { isl_qpolynomial *q; ~QH() { isl_qpolynomial_free(q); } };
static void check_q(isl_qpolynomial *q, const F &f, const string &who, bool deep) {   // keeps
	if (!q) { mc::take_error(); fail(cat("qpolynomial|", who), "NULL"); }
	try {
		Poly p = poly::read(q); cmp("value", p, f, who);
		bool zero = true, inv[3] = {false, false, false}; for (int i = 0; i < W.count; ++i) { const I *x = W.at(i); Rat v = f(x); zero &= v == Rat(0); for (int k = 0; k < 3; ++k) { I z[3] = {x[0], x[1], x[2]}; z[k] += 1; if (f(z) != v) inv[k] = true; } }
		expect_implies("is_zero", isl_qpolynomial_is_zero(q), zero, who); if (p.nd == 0 && zero && isl_qpolynomial_is_zero(q) != isl_bool_true) fail(cat("is_zero|", who), "polynomial without divisions is zero");
		for (int k = 0; k < 3; ++k) { isl_bool b = isl_qpolynomial_involves_dims(q, k ? isl_dim_in : isl_dim_param, k ? k - 1 : 0, 1); if (b < 0 || (inv[k] && b == isl_bool_false)) fail(cat("involves_dims|", who), cat("variable ", k)); }
		for (int i = 3; i < W.count; i += 47) { V v = poly::from_val(isl_qpolynomial_eval(isl_qpolynomial_copy(q), poly::point(isl_qpolynomial_get_domain_space(q), W.at(i)))); note_transition(); Rat w = f(W.at(i)); if (v.k || v.r != w) fail(cat("eval|", who), cat(v.s(), " instead of ", w.s(), at(W.at(i)))); }
		{ I o[3] = {0, 0, 0}; if (p.nd == 0) { Rat c = rat_from_val(isl_qpolynomial_get_constant_val(q)); if (c != f(o)) fail(cat("get_constant_val|", who), c.s()); } }
		if (!deep) return;
		// the sum of the terms
		struct Acc { isl_qpolynomial *s; } acc{isl_qpolynomial_zero_on_domain(isl_qpolynomial_get_domain_space(q))};
		isl_qpolynomial_foreach_term(q, [](isl_term *t, void *u) { Acc &a = *(Acc *) u; a.s = isl_qpolynomial_add(a.s, isl_qpolynomial_from_term(t)); return isl_stat_ok; }, &acc);
		QH hs{acc.s}; cmp("sum of terms", poly::read(acc.s), f, who); if (isl_qpolynomial_plain_is_equal(acc.s, q) == isl_bool_error) fail(cat("plain_is_equal|", who), "error");
		// simplification in a context
		for (int k = 0; k < (int) SL.size(); ++k) { QH g{isl_qpolynomial_gist(isl_qpolynomial_copy(q), SS(k))}; if (!g.q) { mc::take_error(); fail(cat("gist|", who), SL[k].t); } auto &sl = SL[k]; cmp(cat("gist ", sl.t), poly::read(g.q), f, who, [&](const I *x) { return sl.f(x[0], x[1], x[2]); }); }
		{ QH g{isl_qpolynomial_gist_params(isl_qpolynomial_copy(q), CTX("[n] -> { : n = 2 }"))}; cmp("gist_params", poly::read(g.q), f, who, [&](const I *x) { return x[0] == 2; }); }
		// without the divisions: an explicit description of each division as an extra variable
		{ isl_set *u = isl_set_universe(isl_qpolynomial_get_domain_space(q)); isl_basic_set *b = isl_set_simple_hull(u); struct D { PwPoly r; int calls = 0; int nd; bool over = false; } d; d.nd = p.nd;
		  isl_stat st = isl_qpolynomial_as_polynomial_on_domain(q, b, [](isl_basic_set *bs, isl_qpolynomial *qq, void *u) { D &d = *(D *) u; ++d.calls; isl_set *s = isl_set_from_basic_set(bs); try { d.r.p.push_back({read_set(s), poly::read(qq)}); } catch (Overflow &) { d.over = true; } isl_set_free(s); isl_qpolynomial_free(qq); return isl_stat_ok; }, &d); isl_basic_set_free(b);
		  if (st < 0 || d.calls != 1) fail(cat("as_polynomial_on_domain|", who), "failed"); if (d.over) throw Overflow(); Poly &lp = d.r.p[0].second; if (lp.nd) fail(cat("as_polynomial_on_domain|", who), "divisions left");
		  int extra = lp.nv - 3; if (extra > 0 && !p.divs.empty()) { for (int i = 1; i < W.count; i += 29) { const I *x = W.at(i); vector<I> z(x, x + 3); for (int k = 0; k < extra; ++k) { if (k >= (int) p.divs.size()) break; z.push_back(mdl::eval(p.divs[k], x).floor()); } if ((int) z.size() != lp.nv) break; if (!contains(d.r.p[0].first, z.data())) fail(cat("as_polynomial_on_domain|", who), cat("lifted point missing", at(x))); V v = poly::eval(lp, z.data()); if (v.k || v.r != f(x)) fail(cat("as_polynomial_on_domain|", who), cat(v.s(), at(x))); } } else cmp("as_polynomial_on_domain", lp, f, who); }
		if (p.nd == 0) { QH g{isl_qpolynomial_homogenize(isl_qpolynomial_copy(q))}; if (!g.q) { mc::take_error(); fail(cat("homogenize|", who), "NULL"); } Poly hp = poly::read(g.q); int deg = -1; for (auto &t : hp.t) { int s = t.e[1] + t.e[2] + t.e[3]; if (deg >= 0 && s != deg) fail(cat("homogenize|", who), "not homogeneous"); deg = s; } for (int i = 0; i < W.count; i += 7) { const I *x = W.at(i); I z[4] = {x[0], 1, x[1], x[2]}; if (poly::eval(hp, z).r != f(x)) fail(cat("homogenize|", who), cat("wrong", at(x))); } note_validated(); }
	} catch (Overflow &) { note_outcome("inconclusive"); }
}
static void run_q(const vector<uint64_t> &d, bool deep) {
	isl_qpolynomial *q = Q(LV[d[0]]); QH *hp; QH h{q}; hp = &h; F f = LV[d[0]].f; string who = LV[d[0]].t;
	for (size_t i = 1; i < d.size(); ++i) { auto &o = OPS[d[i]]; if (o.ok) { try { if (!o.ok(poly::read(h.q))) { note_outcome("not applicable"); return; } } catch (Overflow &) { return; } } h.q = o.o(h.q); f = o.m(f); who += "; " + o.n; note_transition(); }
	(void) hp; check_q(h.q, f, who, deep);
}
// ---------- piecewise ----------
static vector<Leaf> PL;
static vector<Leaf> pleaves() {
	vector<Leaf> r = {{"[n] -> { [x,y] -> x*y - n }", FN(Rat(x * y - n))}, {"[n] -> { [x,y] -> 0 }", FN(Rat(0))}, {"[n] -> { [x,y] -> 1/2 * x^2 : x >= 1 }", FN(x >= 1 ? Rat(x * x, 2) : Rat(0))}, {"[n] -> { [x,y] -> floor(y/2)*x : x mod 2 = 0; [x,y] -> y : x mod 2 = 1 and y <= n }", FN(mod(x, 2) == 0 ? Rat(fdiv(y, 2) * x) : y <= n ? Rat(y) : Rat(0))},
		{"[n] -> { [x,y] -> (n - x)*(n - y) : x <= n and y <= n; [x,y] -> floor((x + y + n)/3) : x > n and y >= 0 }", FN(x <= n && y <= n ? Rat((n - x) * (n - y)) : x > n && y >= 0 ? Rat(fdiv(x + y + n, 3)) : Rat(0))}, {"[n] -> { [x,y] -> 7 : x = y; [x,y] -> -1 : x = y + 1 or n = 0 and x < y }", FN(x == y ? Rat(7) : (x == y + 1 || (n == 0 && x < y)) ? Rat(-1) : Rat(0))}, {"[n] -> { [x,y] -> x : 1 = 0 }", FN(Rat(0))},
		{"[n] -> { [x,y] -> (x - 3*floor(x/3))*floor(x/2) : 0 <= x <= 4 and n >= 0 }", FN(x >= 0 && x <= 4 && n >= 0 ? Rat(mod(x, 3) * fdiv(x, 2)) : Rat(0))}};
	return r;
}
struct POp { string n; std::function<isl_pw_qpolynomial *(isl_pw_qpolynomial *)> o; std::function<F(F)> m; };
static vector<POp> pops() {
	vector<POp> r; auto B = [](F f, F g, char c) -> F { return [f, g, c](const I *p) { Rat a = f(p), b = g(p); return c == '+' ? a + b : c == '-' ? a - b : a * b; }; };
	for (size_t k = 0; k < PL.size(); ++k) { Leaf l = PL[k]; r.push_back({"add " + l.t, [l](isl_pw_qpolynomial *q) { return isl_pw_qpolynomial_add(q, RD(l.t)); }, [=](F f) { return B(f, l.f, '+'); }}); r.push_back({"rsub " + l.t, [l](isl_pw_qpolynomial *q) { return isl_pw_qpolynomial_sub(RD(l.t), q); }, [=](F f) { return B(l.f, f, '-'); }}); r.push_back({"mul " + l.t, [l](isl_pw_qpolynomial *q) { return isl_pw_qpolynomial_mul(q, RD(l.t)); }, [=](F f) { return B(f, l.f, '*'); }}); if (k == 3 || k == 4) r.push_back({"sub " + l.t, [l](isl_pw_qpolynomial *q) { return isl_pw_qpolynomial_sub(q, RD(l.t)); }, [=](F f) { return B(f, l.f, '-'); }}); }
	for (int k = 0; k < (int) SL.size(); ++k) { auto s = SL[k]; auto in = [s](const I *p) { return s.f(p[0], p[1], p[2]); };
		r.push_back({cat("intersect_domain ", s.t), [k](isl_pw_qpolynomial *q) { return isl_pw_qpolynomial_intersect_domain(q, SS(k)); }, [in](F f) -> F { return [f, in](const I *p) { return in(p) ? f(p) : Rat(0); }; }}); r.push_back({cat("subtract_domain ", s.t), [k](isl_pw_qpolynomial *q) { return isl_pw_qpolynomial_subtract_domain(q, SS(k)); }, [in](F f) -> F { return [f, in](const I *p) { return in(p) ? Rat(0) : f(p); }; }});
		r.push_back({cat("gist inside ", s.t), [k](isl_pw_qpolynomial *q) { q = isl_pw_qpolynomial_intersect_domain(q, SS(k)); q = isl_pw_qpolynomial_gist(q, SS(k)); return isl_pw_qpolynomial_intersect_domain(q, SS(k)); }, [in](F f) -> F { return [f, in](const I *p) { return in(p) ? f(p) : Rat(0); }; }});
		r.push_back({cat("split at ", s.t), [k](isl_pw_qpolynomial *q) { isl_pw_qpolynomial *a = isl_pw_qpolynomial_intersect_domain(isl_pw_qpolynomial_copy(q), SS(k)); q = isl_pw_qpolynomial_subtract_domain(q, SS(k)); q = isl_pw_qpolynomial_add_disjoint(q, a); return k & 1 ? q : isl_pw_qpolynomial_coalesce(q); }, [](F f) { return f; }}); }
	r.push_back({"intersect_params n >= 1", [](isl_pw_qpolynomial *q) { return isl_pw_qpolynomial_intersect_params(q, CTX("[n] -> { : n >= 1 }")); }, [](F f) -> F { return [f](const I *p) { return p[0] >= 1 ? f(p) : Rat(0); }; }});
	r.push_back({"coalesce", isl_pw_qpolynomial_coalesce, [](F f) { return f; }}); r.push_back({"neg", isl_pw_qpolynomial_neg, [](F f) -> F { return [f](const I *p) { return -f(p); }; }});
	for (int e : {1, 2, 3}) r.push_back({cat("pow ", e), [e](isl_pw_qpolynomial *q) { return isl_pw_qpolynomial_pow(q, e); }, [e](F f) -> F { return [f, e](const I *p) { return poly::ipow(f(p), e); }; }});
	r.push_back({"scale -3/2", [](isl_pw_qpolynomial *q) { return isl_pw_qpolynomial_scale_val(q, V_(-3, 2)); }, [](F f) -> F { return [f](const I *p) { return f(p) * Rat(-3, 2); }; }}); r.push_back({"scale_down 2/5", [](isl_pw_qpolynomial *q) { return isl_pw_qpolynomial_scale_down_val(q, V_(2, 5)); }, [](F f) -> F { return [f](const I *p) { return f(p) * Rat(5, 2); }; }});
	r.push_back({"scale 0", [](isl_pw_qpolynomial *q) { return isl_pw_qpolynomial_scale_val(q, V_(0)); }, [](F) -> F { return [](const I *) { return Rat(0); }; }});
	r.push_back({"swap dims", [](isl_pw_qpolynomial *q) { q = isl_pw_qpolynomial_move_dims(q, isl_dim_param, 1, isl_dim_in, 0, 1); return isl_pw_qpolynomial_move_dims(q, isl_dim_in, 1, isl_dim_param, 1, 1); }, [](F f) -> F { return [f](const I *p) { I z[3] = {p[0], p[2], p[1]}; return f(z); }; }});
	r.push_back({"insert and drop", [](isl_pw_qpolynomial *q) { q = isl_pw_qpolynomial_insert_dims(q, isl_dim_in, 1, 2); q = isl_pw_qpolynomial_add_dims(q, isl_dim_in, 1); q = isl_pw_qpolynomial_drop_dims(q, isl_dim_in, 1, 2); return isl_pw_qpolynomial_drop_dims(q, isl_dim_in, 2, 1); }, [](F f) { return f; }});
	for (int v : {0, 3}) r.push_back({cat("fix y = ", v), [v](isl_pw_qpolynomial *q) { return isl_pw_qpolynomial_fix_val(q, isl_dim_in, 1, V_(v)); }, [v](F f) -> F { return [f, v](const I *p) { return p[2] == v ? f(p) : Rat(0); }; }});
	r.push_back({"fix n = 1", [](isl_pw_qpolynomial *q) { return isl_pw_qpolynomial_fix_val(q, isl_dim_param, 0, V_(1)); }, [](F f) -> F { return [f](const I *p) { return p[0] == 1 ? f(p) : Rat(0); }; }});
	for (int k : {1, 2, 3}) r.push_back({cat("split_periods ", k), [k](isl_pw_qpolynomial *q) { return isl_pw_qpolynomial_split_periods(q, k); }, [](F f) { return f; }});
	r.push_back({"split_dims x", [](isl_pw_qpolynomial *q) { return isl_pw_qpolynomial_split_dims(q, isl_dim_in, 0, 1); }, [](F f) { return f; }}); r.push_back({"split_dims n", [](isl_pw_qpolynomial *q) { return isl_pw_qpolynomial_split_dims(q, isl_dim_param, 0, 1); }, [](F f) { return f; }});
	r.push_back({"add from_pw_aff", [](isl_pw_qpolynomial *q) { const char *t = "[n] -> { [x,y] -> [(x/2 - n)] : x >= y; [x,y] -> [floor(y/3)] : x <= y - 2 }"; isl_pw_aff *a = isl_pw_aff_read_from_str(ctx, t); if (!a) fail("parse", t); return isl_pw_qpolynomial_add(q, isl_pw_qpolynomial_from_pw_aff(a)); }, [](F f) -> F { return [f](const I *p) { return f(p) + (p[1] >= p[2] ? Rat(p[1], 2) - Rat(p[0]) : p[1] <= p[2] - 2 ? Rat(fdiv(p[2], 3)) : Rat(0)); }; }});
	r.push_back({"drop_unused_params", [](isl_pw_qpolynomial *q) { q = isl_pw_qpolynomial_drop_unused_params(q); isl_pw_qpolynomial *z = RD("[n] -> { [x,y] -> 0 }"); return isl_pw_qpolynomial_add(q, z); }, [](F f) { return f; }});
	r.push_back({"through a union", [](isl_pw_qpolynomial *q) { isl_space *s = isl_pw_qpolynomial_get_space(q); isl_union_pw_qpolynomial *u = isl_union_pw_qpolynomial_from_pw_qpolynomial(q); u = isl_union_pw_qpolynomial_coalesce(u); q = isl_union_pw_qpolynomial_extract_pw_qpolynomial(u, s); isl_union_pw_qpolynomial_free(u); return q; }, [](F f) { return f; }});
	return r;
}
static vector<POp> PO;
struct PH { isl_pw_qpolynomial *q; ~PH() { isl_pw_qpolynomial_free(q); } };
static void check_p(isl_pw_qpolynomial *q, const F &f, const string &who, bool deep) {
	if (!q) { mc::take_error(); fail(cat("pw_qpolynomial|", who), "NULL"); }
	try {
		auto same = [&](const char *op, isl_pw_qpolynomial *z, const std::function<bool(const I *)> &in = nullptr) { if (!z) { mc::take_error(); fail(cat(op, "|", who), "NULL"); } if (isl_pw_qpolynomial_dim(z, isl_dim_in) != 2 || isl_pw_qpolynomial_dim(z, isl_dim_param) != 1) fail(cat(op, "|", who), "wrong dimensions"); PwPoly p = poly::read(z); uint64_t h = 2; for (int i = 0; i < W.count; ++i) { const I *x = W.at(i); if (in && !in(x)) continue; int n; V v = poly::eval(p, x, &n); Rat w = f(x); if (n > 1) fail(cat(op, "|", who), cat("pieces overlap", at(x), " in ", mc::str(isl_pw_qpolynomial_to_str(z)))); if (v.k || v.r != w) fail(cat(op, "|", who), cat(v.s(), " instead of ", w.s(), at(x), " in ", mc::str(isl_pw_qpolynomial_to_str(z)))); h = mc::hash_mix(h, (uint64_t) w.n * 31 + (uint64_t) w.d); } note_state(h); note_validated(); note_transition(); };
		same("value", q);
		bool zero = true; for (int i = 0; i < W.count; ++i) zero &= f(W.at(i)) == Rat(0); expect_implies("is_zero", isl_pw_qpolynomial_is_zero(q), zero, who);
		for (int i = 3; i < W.count; i += 61) { V v = poly::from_val(isl_pw_qpolynomial_eval(isl_pw_qpolynomial_copy(q), poly::point(isl_pw_qpolynomial_get_domain_space(q), W.at(i)))); note_transition(); Rat w = f(W.at(i)); if (v.k || v.r != w) fail(cat("eval|", who), cat(v.s(), " instead of ", w.s(), at(W.at(i)))); }
		isl_bool isa = isl_pw_qpolynomial_isa_qpolynomial(q); if (isa < 0) fail(cat("isa|", who), "error"); if (isa) { QH g{isl_pw_qpolynomial_as_qpolynomial(isl_pw_qpolynomial_copy(q))}; cmp("as_qpolynomial", poly::read(g.q), f, who); }
		// domain covers every non-zero point
		{ isl_set *dm = isl_pw_qpolynomial_domain(isl_pw_qpolynomial_copy(q)); Bits b; try { b = bits_set(dm, W); } catch (Overflow &) { isl_set_free(dm); throw; } isl_set_free(dm); PwPoly p = poly::read(q); for (int i = 0; i < W.count; ++i) { int n; poly::eval(p, W.at(i), &n); if (bit(b, i) != (n > 0)) fail(cat("domain|", who), cat("wrong", at(W.at(i)))); } }
		if (!deep) return;
		// print and read back
		{ string t = mc::str(isl_pw_qpolynomial_to_str(q)); PH z{isl_pw_qpolynomial_read_from_str(ctx, t.c_str())}; if (!z.q) { mc::take_error(); fail(cat("print|", who), "does not parse: " + t); } if (isl_pw_qpolynomial_n_piece(q) > 0) same("print+parse", z.q); }
		// polynomial over/under approximations
		for (int k = 0; k < 3; ++k) { PH z{isl_pw_qpolynomial_split_dims(isl_pw_qpolynomial_copy(q), k ? isl_dim_in : isl_dim_param, k ? k - 1 : 0, 1)}; if (!z.q) { mc::take_error(); fail(cat("split_dims|", who), "NULL"); } PwPoly p = poly::read(z.q); for (auto &c : p.p) for (auto &b : c.first.b) { bool s[2] = {false, false}; for (int i = 0; i < W.count; ++i) { const I *x = W.at(i); if (contains(b, x)) s[x[k] < 0] = true; } if (s[0] && s[1]) fail(cat("split_dims|", who), cat("disjunct not split along variable ", k)); } }
		for (int sg : {1, -1}) { PH z{isl_pw_qpolynomial_to_polynomial(isl_pw_qpolynomial_copy(q), sg)}; if (!z.q) { mc::take_error(); fail(cat("to_polynomial|", who), "NULL"); } PwPoly p = poly::read(z.q), p0 = poly::read(q); for (auto &c : p.p) if (c.second.nd) fail(cat("to_polynomial|", who), "divisions left"); for (int i = 0; i < W.count; ++i) { const I *x = W.at(i); int n0; poly::eval(p0, x, &n0); int n; V v = poly::eval(p, x, &n); if (n > n0) fail(cat("to_polynomial ", sg, "|", who), cat("domain differs", at(x))); if (v.k || (sg > 0 ? v.r < f(x) : v.r > f(x))) fail(cat("to_polynomial ", sg, "|", who), cat(v.s(), " against ", f(x).s(), at(x), " in ", mc::str(isl_pw_qpolynomial_to_str(z.q)))); } note_validated(); }
		// lifted pieces have no divisions
		{ struct D { PwPoly p; bool over = false; } d; isl_stat st = isl_pw_qpolynomial_foreach_lifted_piece(q, [](isl_set *s, isl_qpolynomial *g, void *u) { D &d = *(D *) u; try { d.p.p.push_back({read_set(s), poly::read(g)}); } catch (Overflow &) { d.over = true; } isl_set_free(s); isl_qpolynomial_free(g); return isl_stat_ok; }, &d); if (st < 0) fail(cat("foreach_lifted_piece|", who), "error"); if (d.over) throw Overflow(); 
		  bool wide = false; for (auto &c : d.p.p) wide |= c.second.nv > 5; if (!wide) for (int i = 2; i < W.count; i += 31) { const I *x = W.at(i); bool hit = false; for (auto &c : d.p.p) { int e = c.second.nv - 3; mc::Radix r(vector<uint64_t>((size_t) e, (uint64_t) 11)); for (uint64_t k = 0; k < r.size(); ++k) { vector<uint64_t> g = r.at(k); vector<I> z(x, x + 3); for (int j = 0; j < e; ++j) z.push_back((I) g[j] - 5); if (!contains(c.first, z.data())) continue; hit = true; V v = poly::eval(c.second, z.data()); if (v.k || v.r != f(x)) fail(cat("foreach_lifted_piece|", who), cat(v.s(), at(x))); } } if (!hit && f(x) != Rat(0)) fail(cat("foreach_lifted_piece|", who), cat("point missing", at(x))); } }
		for (int k = 0; k < (int) SL.size(); ++k) { PH g{isl_pw_qpolynomial_gist(isl_pw_qpolynomial_copy(q), SS(k))}; auto &sl = SL[k]; same("gist", g.q, [&](const I *x) { return sl.f(x[0], x[1], x[2]); }); }
	} catch (Overflow &) { note_outcome("inconclusive"); }
}
static void run_p(const vector<uint64_t> &d, bool deep) {
	PH h{RD(PL[d[0]].t)}; F f = PL[d[0]].f; string who = PL[d[0]].t;
	for (size_t i = 1; i < d.size(); ++i) { h.q = PO[d[i]].o(h.q); f = PO[d[i]].m(f); who += "; " + PO[d[i]].n; note_transition(); }
	check_p(h.q, f, who, deep);
}
// ---------- unions over S[x,y] and T[x] ----------
struct U2 { Rat s[3]; };
struct ULeaf { string t; F s; std::function<Rat(I, I)> t1; };     // S over (n,x,y), T over (n,x)
static vector<ULeaf> UL = {{"[n] -> { S[x,y] -> x*y : x >= 0; T[x] -> n - x }", FN(x >= 0 ? Rat(x * y) : Rat(0)), [](I n, I x) { return Rat(n - x); }}, {"[n] -> { S[x,y] -> floor((x + n)/2) }", FN(Rat(fdiv(x + n, 2))), [](I, I) { return Rat(0); }}, {"[n] -> { T[x] -> x^2 : x >= n; T[x] -> 3 : x < n - 1 }", FN(Rat(0)), [](I n, I x) { return x >= n ? Rat(x * x) : x < n - 1 ? Rat(3) : Rat(0); }}, {"[n] -> { S[x,y] -> -x*y : x >= 0; T[x] -> 1/3 * x : x mod 3 = 0 }", FN(x >= 0 ? Rat(-x * y) : Rat(0)), [](I, I x) { return mod(x, 3) == 0 ? Rat(x, 3) : Rat(0); }}, {"[n] -> { S[x,y] -> x : 1 = 0 }", FN(Rat(0)), [](I, I) { return Rat(0); }}};
typedef std::function<Rat(I, I)> F1;
struct UF { F s; F1 t; };
static isl_union_pw_qpolynomial *UR(const string &t) { isl_union_pw_qpolynomial *u = isl_union_pw_qpolynomial_read_from_str(ctx, t.c_str()); if (!u) fail("parse", t); return u; }
struct USet { const char *t; std::function<bool(I, I, I)> s; std::function<bool(I, I)> t1; };
static vector<USet> US = {{"[n] -> { S[x,y] : x <= y; T[x] : x mod 2 = 0 }", [](I, I x, I y) { return x <= y; }, [](I, I x) { return mod(x, 2) == 0; }}, {"[n] -> { T[x] : x >= n; R[a] }", [](I, I, I) { return false; }, [](I n, I x) { return x >= n; }}, {"[n] -> { S[x,y] : n = 1 or x = 2y }", [](I n, I x, I y) { return n == 1 || x == 2 * y; }, [](I, I) { return false; }}};
struct UOp { string n; std::function<isl_union_pw_qpolynomial *(isl_union_pw_qpolynomial *)> o; std::function<UF(UF)> m; };
static vector<UOp> uops() {
	vector<UOp> r; auto C = [](UF a, UF b, char c) -> UF { auto g = [c](Rat x, Rat y) { return c == '+' ? x + y : c == '-' ? x - y : x * y; }; return {[a, b, g](const I *p) { return g(a.s(p), b.s(p)); }, [a, b, g](I n, I x) { return g(a.t(n, x), b.t(n, x)); }}; };
	auto M = [](UF a, std::function<Rat(Rat)> g) -> UF { return {[a, g](const I *p) { return g(a.s(p)); }, [a, g](I n, I x) { return g(a.t(n, x)); }}; };
	for (auto &l : UL) { UF lf{l.s, l.t1}; string t = l.t; r.push_back({"add " + t, [t](isl_union_pw_qpolynomial *u) { return isl_union_pw_qpolynomial_add(u, UR(t)); }, [=](UF f) { return C(f, lf, '+'); }}); r.push_back({"rsub " + t, [t](isl_union_pw_qpolynomial *u) { return isl_union_pw_qpolynomial_sub(UR(t), u); }, [=](UF f) { return C(lf, f, '-'); }}); r.push_back({"mul " + t, [t](isl_union_pw_qpolynomial *u) { return isl_union_pw_qpolynomial_mul(u, UR(t)); }, [=](UF f) { return C(f, lf, '*'); }}); }
	for (auto &s : US) { string t = s.t; auto rd = [t] { isl_union_set *u = isl_union_set_read_from_str(ctx, t.c_str()); if (!u) fail("parse", t); return u; };
		auto R = [s](UF f, bool keep) -> UF { return {[=](const I *p) { return s.s(p[0], p[1], p[2]) == keep ? f.s(p) : Rat(0); }, [=](I n, I x) { return s.t1(n, x) == keep ? f.t(n, x) : Rat(0); }}; };
		r.push_back({"intersect_domain " + t, [=](isl_union_pw_qpolynomial *u) { return isl_union_pw_qpolynomial_intersect_domain(u, rd()); }, [=](UF f) { return R(f, true); }}); r.push_back({"subtract_domain " + t, [=](isl_union_pw_qpolynomial *u) { return isl_union_pw_qpolynomial_subtract_domain(u, rd()); }, [=](UF f) { return R(f, false); }});
		r.push_back({"gist " + t, [=](isl_union_pw_qpolynomial *u) { return isl_union_pw_qpolynomial_intersect_domain(isl_union_pw_qpolynomial_gist(isl_union_pw_qpolynomial_intersect_domain(u, rd()), rd()), rd()); }, [=](UF f) { return R(f, true); }}); }
	r.push_back({"neg", isl_union_pw_qpolynomial_neg, [=](UF f) { return M(f, [](Rat a) { return -a; }); }}); r.push_back({"scale 2/3", [](isl_union_pw_qpolynomial *u) { return isl_union_pw_qpolynomial_scale_val(u, V_(2, 3)); }, [=](UF f) { return M(f, [](Rat a) { return a * Rat(2, 3); }); }}); r.push_back({"scale_down -2", [](isl_union_pw_qpolynomial *u) { return isl_union_pw_qpolynomial_scale_down_val(u, V_(-2)); }, [=](UF f) { return M(f, [](Rat a) { return a / Rat(-2); }); }});
	r.push_back({"coalesce", isl_union_pw_qpolynomial_coalesce, [](UF f) { return f; }}); r.push_back({"intersect_params", [](isl_union_pw_qpolynomial *u) { return isl_union_pw_qpolynomial_intersect_params(u, CTX("[n] -> { : n <= 1 }")); }, [](UF f) -> UF { return {[f](const I *p) { return p[0] <= 1 ? f.s(p) : Rat(0); }, [f](I n, I x) { return n <= 1 ? f.t(n, x) : Rat(0); }}; }});
	r.push_back({"add_pw", [](isl_union_pw_qpolynomial *u) { u = isl_union_pw_qpolynomial_subtract_domain(u, isl_union_set_read_from_str(ctx, "[n] -> { R[a] }")); return isl_union_pw_qpolynomial_add_pw_qpolynomial(u, RD("[n] -> { R[a] -> a : a >= n }")); }, [](UF f) { return f; }});
	r.push_back({"intersect_domain_space", [](isl_union_pw_qpolynomial *u) { isl_set *s = CTX("[n] -> { T[x] }"); isl_space *sp = isl_set_get_space(s); isl_set_free(s); return isl_union_pw_qpolynomial_intersect_domain_space(u, sp); }, [](UF f) -> UF { return {[](const I *) { return Rat(0); }, f.t}; }});
	r.push_back({"via list", [](isl_union_pw_qpolynomial *u) { isl_pw_qpolynomial_list *l = isl_union_pw_qpolynomial_get_pw_qpolynomial_list(u); isl_union_pw_qpolynomial *v = isl_union_pw_qpolynomial_zero(isl_union_pw_qpolynomial_get_space(u)); for (int i = 0; i < isl_pw_qpolynomial_list_n_pw_qpolynomial(l); ++i) v = isl_union_pw_qpolynomial_add(v, isl_union_pw_qpolynomial_from_pw_qpolynomial(isl_pw_qpolynomial_list_get_at(l, i))); isl_pw_qpolynomial_list_free(l); isl_union_pw_qpolynomial_free(u); return v; }, [](UF f) { return f; }});
	return r;
}
static vector<UOp> UO;
static void run_u(const vector<uint64_t> &d) {
	isl_union_pw_qpolynomial *u = UR(UL[d[0]].t); struct UH { isl_union_pw_qpolynomial *&u; ~UH() { isl_union_pw_qpolynomial_free(u); } } h{u}; UF f{UL[d[0]].s, UL[d[0]].t1}; string who = UL[d[0]].t;
	for (size_t i = 1; i < d.size(); ++i) { u = UO[d[i]].o(u); f = UO[d[i]].m(f); who += "; " + UO[d[i]].n; note_transition(); }
	if (!u) { fail(cat("union|", who), "NULL"); }
	for (int k = 0; k < 2; ++k) {
		isl_set *ds = CTX(k ? "[n] -> { T[x] }" : "[n] -> { S[x,y] }"); isl_space *sp = isl_set_get_space(ds); isl_set_free(ds); isl_space *rs = isl_space_from_domain(isl_space_copy(sp)); rs = isl_space_add_dims(rs, isl_dim_out, 1);
		PH p{isl_union_pw_qpolynomial_extract_pw_qpolynomial(u, rs)}; struct SH { isl_space *s; ~SH() { isl_space_free(s); } } sh{sp}; if (!p.q) { fail(cat("union|", who), "extract failed"); }
		try { PwPoly q = poly::read(p.q); uint64_t hh = k; for (int i = 0; i < W.count; ++i) { const I *x = W.at(i); if (k && x[2] != 0) continue; Rat w = k ? f.t(x[0], x[1]) : f.s(x); int n; V v = poly::eval(q, x, &n); if (n > 1 || v.k || v.r != w) fail(cat("union|", who), cat(v.s(), " instead of ", w.s(), at(x), k ? " on T" : " on S")); hh = mc::hash_mix(hh, (uint64_t) w.n * 31 + (uint64_t) w.d);
			if (i % 53 == 3) { V e = poly::from_val(isl_union_pw_qpolynomial_eval(isl_union_pw_qpolynomial_copy(u), poly::point(isl_space_copy(sp), x))); note_transition(); if (e.k || e.r != w) fail(cat("union eval|", who), cat(e.s(), " instead of ", w.s(), at(x))); } }
			note_state(hh); note_validated(); } catch (Overflow &) { note_outcome("inconclusive"); }
	}
}
// ---------- infinities and NaN ----------
static V vadd(V a, V b) { if (a.k == 2 || b.k == 2) return {2, 0}; if (a.k && b.k) return a.k == b.k ? a : V{2, 0}; if (a.k) return a; if (b.k) return b; return val(a.r + b.r); }
static V vmul(V a, V b) { if (a.k == 2 || b.k == 2) return {2, 0}; if (a.k || b.k) { int sa = a.k ? a.k : a.r > Rat(0) ? 1 : a.r < Rat(0) ? -1 : 0, sb = b.k ? b.k : b.r > Rat(0) ? 1 : b.r < Rat(0) ? -1 : 0; int s = sa * sb; return s ? V{s, 0} : val(0); } return val(a.r * b.r); }
static V vneg(V a) { if (a.k == 2) return a; return a.k ? V{-a.k, 0} : val(-a.r); }
static isl_qpolynomial *special(int k) { isl_set *s = CTX("[n] -> { [x,y] }"); isl_space *sp = isl_set_get_space(s); isl_set_free(s); switch (k) { case 0: return isl_qpolynomial_infty_on_domain(sp); case 1: return isl_qpolynomial_neginfty_on_domain(sp); case 2: return isl_qpolynomial_nan_on_domain(sp); case 3: return isl_qpolynomial_zero_on_domain(sp); case 4: return isl_qpolynomial_one_on_domain(sp); case 5: return isl_qpolynomial_val_on_domain(sp, V_(-5, 2)); default: return isl_qpolynomial_var_on_domain(sp, isl_dim_set, 1); } }
static V specialv(int k, const I *x) { switch (k) { case 0: return {1, 0}; case 1: return {-1, 0}; case 2: return {2, 0}; case 3: return val(0); case 4: return val(1); case 5: return val(Rat(-5, 2)); default: return val(Rat(x[2])); } }
static void run_s(const vector<uint64_t> &d) {   // (a op b) op c over constants
	auto ap = [](int op, isl_qpolynomial *a, isl_qpolynomial *b) { return op == 0 ? isl_qpolynomial_add(a, b) : op == 1 ? isl_qpolynomial_sub(a, b) : isl_qpolynomial_mul(a, b); };
	bool var1 = d[0] == 6, var2 = d[1] == 6; int cur = 0;      // an infinity times a non-constant polynomial has no known sign and is NaN
	auto av = [&](int op, V a, V b) { bool &va = var1, vb = cur++ ? d[2] == 6 : var2; V r = op == 0 ? vadd(a, b) : op == 1 ? vadd(a, vneg(b)) : (((a.k == 1 || a.k == -1) && vb) || ((b.k == 1 || b.k == -1) && va)) ? V{2, 0} : vmul(a, b); va = (va || vb) && !r.k && r.r != Rat(0); return r; };
	QH q{ap(d[3], special(d[0]), special(d[1]))}; q.q = ap(d[4], q.q, special(d[2])); string who = cat("specials ", d[0], " op", d[3], " ", d[1], " op", d[4], " ", d[2]);
	if (!q.q) { mc::take_error(); fail(cat("special|", who), "NULL"); } note_transition(2);
	Poly p = poly::read(q.q); I x[3] = {1, 2, 3}; V w = av(d[4], av(d[3], specialv(d[0], x), specialv(d[1], x)), specialv(d[2], x)), g = poly::eval(p, x);
	if (!(g == w)) fail(cat("special|", who), cat(g.s(), " instead of ", w.s())); note_validated(); note_state(mc::hash_str(w.s()));
	V e = poly::from_val(isl_qpolynomial_eval(isl_qpolynomial_copy(q.q), poly::point(isl_qpolynomial_get_domain_space(q.q), x))); if (!(e == w)) fail(cat("special eval|", who), cat(e.s(), " instead of ", w.s()));
	{ QH n{isl_qpolynomial_neg(isl_qpolynomial_copy(q.q))}; V v = poly::eval(poly::read(n.q), x); if (!(v == vneg(w))) fail(cat("special neg|", who), v.s()); }
	int sg = isl_qpolynomial_sgn(q.q); bool cst = d[0] != 6 && d[1] != 6 && d[2] != 6; int ws = w.k == 2 ? 0 : w.k ? w.k : w.r > Rat(0) ? 1 : w.r < Rat(0) ? -1 : 0; if (cst && w.k != 2 && sg != ws) fail(cat("sgn|", who), cat(sg, " for ", w.s()));
}
int main(int argc, char **argv) {
	mc::Harness h; h.property = "C11"; bool th = tier_thorough(argc, argv);
	W = Window({{-2, 3}, {-3, 4}, {-3, 4}}); OPS = ops(); PL = pleaves(); PO = pops(); UO = uops(); uint64_t L = LV.size(), O = OPS.size(), PN = PL.size(), P = PO.size();
	h.bounds["points"] = "n in -2..3, x,y in -3..4"; h.bounds["sequences"] = cat(L, " leaves x ", O, " operations, ", PN, " piecewise leaves x ", P, " operations, unions ", UL.size(), " x ", UO.size());
	auto add = [&](const string &n, mc::Radix r, std::function<void(const vector<uint64_t> &)> f) { h.add(mc::SpaceDef(n, r.size(), [=](uint64_t i) { f(r.at(i)); }, [=](uint64_t i) { string s; for (uint64_t x : r.at(i)) s += cat(x, ","); return s; })); };
	add("leaf", {L}, [](const vector<uint64_t> &d) { run_q(d, true); });
	add("depth1", {L, O}, [](const vector<uint64_t> &d) { run_q(d, true); });
	add("depth2", {L, O, O}, [](const vector<uint64_t> &d) { run_q(d, (d[0] + d[1] + d[2]) % 5 == 0); });
	if (th) add("depth3", {L, O, O, O}, [](const vector<uint64_t> &d) { run_q(d, false); }); else add("depth3", {6, 12, 12, 12}, [=](const vector<uint64_t> &d) { run_q({4 + d[0], (d[1] * 3 + d[2]) % O, (d[2] * 3 + 1 + d[0]) % O, (d[3] * 3 + 2) % O}, false); });
	add("piecewise1", {PN, P}, [](const vector<uint64_t> &d) { run_p(d, true); });
	add("piecewise2", {PN, P, P}, [=](const vector<uint64_t> &d) { run_p(d, th || (d[0] + d[1] + d[2]) % 7 == 0); });
	if (th) add("piecewise3", {PN, P, P, P}, [](const vector<uint64_t> &d) { run_p(d, false); });
	uint64_t U = UO.size(); add("union2", {UL.size(), U, U}, [](const vector<uint64_t> &d) { run_u(d); });
	if (th) add("union3", {UL.size(), U, U, U}, [](const vector<uint64_t> &d) { run_u(d); });
	add("special", {7, 7, 7, 3, 3}, [](const vector<uint64_t> &d) { run_s(d); });
	return mc::run(argc, argv, h);
}
