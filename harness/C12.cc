// C12: bounds on piecewise quasi-polynomials and reductions (max/min), compared with the exact extreme over every point of the domain.
#include "poly.hpp"
#include <optional>
#include <memory>
using poly::V; using poly::val; using poly::PwFold;
typedef std::optional<Rat> O;
typedef std::function<O(const I *)> G;          // partial: undefined outside the domain
#define FN(e) [](const I *p) -> Rat { I n = p[0], x = p[1], y = p[2]; (void) n; (void) x; (void) y; return e; }
#define PR(e) [](const I *p) -> bool { I n = p[0], x = p[1], y = p[2]; (void) n; (void) x; (void) y; return e; }
struct Poly1 { string t; std::function<Rat(const I *)> f; };
struct Dom { string t; std::function<bool(const I *)> f; bool bounded = true; };
static vector<Poly1> PS = {{"x*y", FN(Rat(x * y))}, {"x^2 - y", FN(Rat(x * x - y))}, {"x - y + n", FN(Rat(x - y + n))}, {"x^2 + y^2 - n*x", FN(Rat(x * x + y * y - n * x))}, {"floor(x/2) + y", FN(Rat(fdiv(x, 2) + y))}, {"floor((x + 2y)/3) * x", FN(Rat(fdiv(x + 2 * y, 3) * x))}, {"n^2 - 3", FN(Rat(n * n - 3))}, {"(x - n)*(y - 2)*x", FN(Rat((x - n) * (y - 2) * x))}, {"1/2 * x^2 - 1/3 * x*y + 5", FN(Rat(x * x, 2) - Rat(x * y, 3) + Rat(5))}, {"x^3 - 4*x", FN(Rat(x * x * x - 4 * x))}, {"-y^2 + x", FN(Rat(-y * y + x))}, {"x*(y - floor(y/2))", FN(Rat(x * (y - fdiv(y, 2))))}, {"0", FN(Rat(0))}, {"x^2*y^2 - 3*x*y", FN(Rat(x * x * y * y - 3 * x * y))}, {"floor((x - y)/2) - floor(x/3)", FN(Rat(fdiv(x - y, 2) - fdiv(x, 3)))}, {"-1/2 * x^2 + n * y", FN(Rat(-x * x, 2) + Rat(n * y))}};
static vector<Dom> DS = {{"0 <= x <= 3 and 0 <= y <= 2", PR(x >= 0 && x <= 3 && y >= 0 && y <= 2)}, {"-2 <= x <= 1 and -1 <= y <= 3", PR(x >= -2 && x <= 1 && y >= -1 && y <= 3)}, {"0 <= y <= x <= n", PR(0 <= y && y <= x && x <= n)}, {"0 <= x <= n and y = 2", PR(0 <= x && x <= n && y == 2)}, {"0 <= x <= 4 and 0 <= y <= 4 and x + y <= 5", PR(x >= 0 && x <= 4 && y >= 0 && y <= 4 && x + y <= 5)}, {"x = 2y and -2 <= y <= n", PR(x == 2 * y && -2 <= y && y <= n)}, {"-n <= x <= n and x mod 2 = 0 and 0 <= y <= 1", PR(-n <= x && x <= n && mod(x, 2) == 0 && y >= 0 && y <= 1)}, {"x + n = 1 and y = x", PR(x + n == 1 && y == x)}, {"1 <= 2x - y <= 3 and -1 <= y <= n", PR(1 <= 2 * x - y && 2 * x - y <= 3 && -1 <= y && y <= n)}, {"0 <= x <= 1 and -2 <= y <= 0 or 2 <= x <= 3 and y = n", PR((0 <= x && x <= 1 && -2 <= y && y <= 0) || (2 <= x && x <= 3 && y == n))}, {"n - 2 <= x <= n and x <= y <= x + 1", PR(n - 2 <= x && x <= n && x <= y && y <= x + 1)}, {"x = 1 and y = 0", PR(x == 1 && y == 0)}, {"0 <= x <= 5 and (y = 0 or y = x)", PR(0 <= x && x <= 5 && (y == 0 || y == x))}, {"exists e : x = 3e + n and -3 <= x <= 3 and 0 <= y <= 1", PR(mod(x - n, 3) == 0 && -3 <= x && x <= 3 && 0 <= y && y <= 1)}, {"x >= 0 and 0 <= y <= 2", PR(x >= 0 && y >= 0 && y <= 2), false}, {"y >= n and x = 3", PR(y >= n && x == 3), false}, {"2 <= 3x - 3y + n and 3x - 3y + n <= 2 and 0 <= x <= 4", PR(3 * x - 3 * y + n == 2 && 0 <= x && x <= 4)}, {"n = 2 and -1 <= x <= 1 and -1 <= y <= 1", PR(n == 2 && -1 <= x && x <= 1 && -1 <= y && y <= 1)}};
static const I NLO = -1, NHI = 4, XLO = -7, XHI = 9;     // x,y window contains every bounded domain above for these n
struct FH { isl_pw_qpolynomial_fold *q = nullptr; FH(isl_pw_qpolynomial_fold *q) : q(q) {} ~FH() { isl_pw_qpolynomial_fold_free(q); } FH(const FH &) = delete; isl_pw_qpolynomial_fold *copy() { return isl_pw_qpolynomial_fold_copy(q); } };
struct PH { isl_pw_qpolynomial *q; ~PH() { isl_pw_qpolynomial_free(q); } };
static void options(int o) {
	static const char *A[] = {"--bernstein-recurse=none", "--bernstein-recurse=factors", "--bernstein-recurse=intervals", "--bernstein-recurse=full", "--bernstein-recurse=none"};
	char *v[2] = {(char *) "x", (char *) A[o]}; isl_ctx_parse_options(ctx, 2, v, ISL_ARG_ALL); isl_options_set_bound(ctx, o == 4 ? ISL_BOUND_RANGE : ISL_BOUND_BERNSTEIN);
}
static string at(const I *x, int n) { string s = " at"; for (int i = 0; i < n; ++i) s += string(i ? "," : " ") + S(x[i]); return s; }
static bool better(int type, Rat a, Rat b) { return type == isl_fold_max ? a > b : a < b; }
// "q" (taken) bounds "g" for each value of the first "outer" variables
static void check_bound(isl_pw_qpolynomial_fold *q0, isl_bool tight, const G &g, int outer, int type, bool complete, const string &who) {
	FH q{q0}; if (!q.q) { mc::take_error(); fail(cat("bound|", who), "NULL"); } if (tight < 0) fail(cat("bound|", who), "tight is an error");
	try {
		PwFold f = poly::read(q.q); if (f.type != type) fail(cat("bound|", who), "type");
		uint64_t hh = tight; I z[3];
		for (z[0] = NLO; z[0] <= NHI; ++z[0]) for (z[1] = outer > 1 ? XLO : 0; z[1] <= (outer > 1 ? XHI : 0); ++z[1]) {
			O e; auto one = [&](const I *p) { O v = g(p); if (v && (!e || better(type, *v, *e))) e = v; };
			if (outer == 1) { I p[3] = {z[0], 0, 0}; for (p[1] = XLO; p[1] <= XHI; ++p[1]) for (p[2] = XLO; p[2] <= XHI; ++p[2]) one(p); } else { I p[3] = {z[0], z[1], 0}; for (p[2] = XLO; p[2] <= XHI; ++p[2]) one(p); }
			if (!e) continue; int n; V b = poly::eval(f, z, &n); if (n != 1) fail(cat("bound|", who), cat(n, " pieces", at(z, outer)));
			int inf = type == isl_fold_max ? 1 : -1; if (b.k == 2 || b.k == -inf) fail(cat("bound|", who), cat(b.s(), at(z, outer)));
			if (!b.k && better(type, *e, b.r)) fail(cat("bound|", who), cat("bound ", b.s(), " but value ", e->s(), " is attained", at(z, outer)));
			if (tight && complete && (b.k || b.r != *e)) fail(cat("tight|", who), cat("bound ", b.s(), " reported tight but extreme is ", e->s(), at(z, outer)));
			hh = mc::hash_mix(hh, (uint64_t) e->n * 31 + (uint64_t) e->d);
		}
		note_state(hh); note_validated(); note_outcome(tight ? "tight" : "not tight");
	} catch (Overflow &) { note_outcome("inconclusive"); }
}
static isl_pw_qpolynomial *RD(const string &t) { isl_pw_qpolynomial *q = isl_pw_qpolynomial_read_from_str(ctx, t.c_str()); if (!q) { mc::take_error(); fail("parse", t); } return q; }
static isl_pw_qpolynomial_fold *RF(const string &t) { isl_pw_qpolynomial_fold *q = isl_pw_qpolynomial_fold_read_from_str(ctx, t.c_str()); if (!q) { mc::take_error(); fail("parse fold", t); } return q; }
static G part(const Poly1 &p, const Dom &d, bool fold = false) { auto f = p.f; auto g = d.f; bool none = fold && p.t == "0"; /* a single zero: the empty reduction */ return [f, g, none](const I *x) -> O { if (none || !g(x)) return {}; return f(x); }; }
// the domain of a piecewise quasi-polynomial consists of its (non-zero) pieces
static G on_pieces(isl_pw_qpolynomial *q, G g, const string &who) { auto f = std::make_shared<poly::PwPoly>(poly::read(q)); return [f, g, who](const I *x) -> O { O v = g(x); bool in = false; for (auto &c : f->p) in |= contains(c.first, x); if (!v) { if (in) fail(cat("parse|", who), "domain too large"); return v; } if (!in && *v != Rat(0)) fail(cat("parse|", who), "non-zero value outside domain"); return in ? v : O(); }; }
static G either(G a, G b) { return [a, b](const I *x) -> O { O r = a(x); return r ? r : b(x); }; }
static int T(uint64_t k) { return k ? isl_fold_min : isl_fold_max; }
static void run_b(const vector<uint64_t> &d) {       // poly, domain, type, options, wrapped
	auto &p = PS[d[0]]; auto &D = DS[d[1]]; bool wrap = d[4]; string t = cat("[n] -> { ", wrap ? "[A[x] -> B[y]]" : "[x,y]", " -> ", p.t, " : ", D.t, " }"); options((int) d[3]);
	isl_pw_qpolynomial *q = RD(t); isl_bool tight = isl_bool_false; note_transition(); string who = cat(t, d[2] ? " min" : " max", " options ", d[3]);
	G g; try { g = on_pieces(q, part(p, D), t); } catch (Overflow &) { isl_pw_qpolynomial_free(q); note_outcome("inconclusive"); return; }
	isl_pw_qpolynomial_fold *b = isl_pw_qpolynomial_bound(q, (isl_fold) T(d[2]), &tight); options(0);
	check_bound(b, tight, g, wrap ? 2 : 1, T(d[2]), D.bounded, who);
}
static void run_2(const vector<uint64_t> &d) {       // two pieces and/or reductions of two members
	auto &p = PS[d[0]], &r = PS[d[1]]; auto &D = DS[d[2]]; int ty = T(d[3]), mode = (int) d[4]; const char *op = d[3] ? "min" : "max"; options((int) d[5]); isl_bool tight = isl_bool_false; note_transition();
	G a, b; string who; isl_pw_qpolynomial_fold *res;
	if (mode == 0) { auto Df = D.f; string t = cat("[n] -> { [x,y] -> ", op, "(", p.t, ", ", r.t, ") : ", D.t, " }"); G g1 = part(p, D), g2 = part(r, D); a = [=](const I *x) -> O { O u = g1(x); if (!u) return u; O v = g2(x); return better(ty, *u, *v) ? u : v; }; who = t; isl_pw_qpolynomial_fold *f = RF(t); res = isl_pw_qpolynomial_fold_bound(f, &tight); }
	else { string t = cat("[n] -> { [x,y] -> ", p.t, " : x <= 1 and (", D.t, "); [x,y] -> ", r.t, " : x >= 2 and (", D.t, ") }"); if (D.t.substr(0, 6) == "exists") t = cat("[n] -> { [x,y] -> ", p.t, " : x <= 1 and ", D.t, "; [x,y] -> ", r.t, " : x >= 2 and ", D.t, " }"); G g1 = part(p, D), g2 = part(r, D); a = [=](const I *x) -> O { return x[1] <= 1 ? g1(x) : g2(x); }; who = t; isl_pw_qpolynomial *q = RD(t); try { a = on_pieces(q, a, t); } catch (Overflow &) { isl_pw_qpolynomial_free(q); options(0); note_outcome("inconclusive"); return; } res = isl_pw_qpolynomial_bound(q, (isl_fold) ty, &tight); }
	options(0); check_bound(res, tight, a, 1, ty, D.bounded, cat(who, " ", op, " options ", d[5]));
}
// application of sets and relations
struct Rel { const char *t; std::function<bool(I, I, I, I)> f; };     // (n, a) -> (x, y)
static vector<Rel> RS = {{"[n] -> { A[a] -> [x,y] : x = a and 0 <= y <= 2 }", [](I, I a, I x, I y) { return x == a && 0 <= y && y <= 2; }}, {"[n] -> { A[a] -> [x,y] : a <= x <= a + 2 and y = x - a and 0 <= a <= n }", [](I n, I a, I x, I y) { return a <= x && x <= a + 2 && y == x - a && 0 <= a && a <= n; }}, {"[n] -> { A[a] -> [x,y] : 2x = a and -1 <= y <= x }", [](I, I a, I x, I y) { return 2 * x == a && -1 <= y && y <= x; }}, {"[n] -> { A[a] -> [x,y] : a = 1 and 0 <= x <= n and y = 1 }", [](I n, I a, I x, I y) { return a == 1 && 0 <= x && x <= n && y == 1; }}, {"[n] -> { A[a] -> [x,y] : 0 <= x <= 2 and (y = a or y = 1) }", [](I, I a, I x, I y) { return 0 <= x && x <= 2 && (y == a || y == 1); }}};
static void run_a(const vector<uint64_t> &d) {       // relation, poly, domain, type, set/map/union
	auto &R = RS[d[0]]; auto &p = PS[d[1]]; auto &D = DS[d[2]]; int ty = T(d[3]); string t = cat("[n] -> { [x,y] -> ", d[3] ? "min" : "max", "(", p.t, ") : ", D.t, " }"); isl_bool tight = isl_bool_false; note_transition(); G g = part(p, D, true);
	string who = cat(R.t, " apply ", t); isl_map *m = isl_map_read_from_str(ctx, R.t); isl_pw_qpolynomial_fold *f = RF(t), *res; int outer = 2;
	// the value for given outer values: over all image elements; here z = (n,a) is followed by an enumeration, so fold the image into one function of (n,a,k)
	static vector<std::pair<I, I>> grid; if (grid.empty()) for (I x = XLO; x <= XHI; ++x) for (I y = XLO; y <= XHI; ++y) grid.push_back({x, y});
	auto f2 = R.f; G ext = [=](const I *z) -> O { if (z[2] != 0) return {}; O e; for (auto &c : grid) { I q[3] = {z[0], c.first, c.second}; if (!f2(z[0], z[1], c.first, c.second)) continue; O v = g(q); if (v && (!e || better(ty, *v, *e))) e = v; } return e; };
	switch (d[4]) {
	case 0: res = isl_map_apply_pw_qpolynomial_fold(m, f, &tight); break;
	case 1: res = isl_set_apply_pw_qpolynomial_fold(isl_map_range(m), f, &tight); outer = 1; { G e2 = ext; ext = e2; } break;
	default: { isl_union_pw_qpolynomial_fold *u = isl_union_map_apply_union_pw_qpolynomial_fold(isl_union_map_from_map(m), isl_union_pw_qpolynomial_fold_from_pw_qpolynomial_fold(f), &tight); if (!u) { mc::take_error(); fail(cat("apply|", who), "NULL"); }
		isl_set *A = isl_set_read_from_str(ctx, "[n] -> { A[a] }"); isl_space *sp = isl_space_add_dims(isl_space_from_domain(isl_set_get_space(A)), isl_dim_out, 1); isl_set_free(A); res = isl_union_pw_qpolynomial_fold_extract_pw_qpolynomial_fold(u, sp); isl_union_pw_qpolynomial_fold_free(u); }
	}
	G chk = ext; if (d[4] == 1) chk = [=](const I *z) -> O { I q[3] = {z[0], z[1], z[2]}; bool in = false; for (I a = XLO - 8; a <= 2 * XHI + 8 && !in; ++a) in = f2(z[0], a, z[1], z[2]); return in ? g(q) : O(); };
	check_bound(res, tight, chk, outer, ty, D.bounded, who);
}
// ---------- reductions: sequences of operations ----------
struct St { G g; int type; };
static const int WN = 3, WX = 4;
static vector<vector<I>> pts;
static string dom_in(const Dom &d) { return d.t; }
struct FLeaf { string t; St s; };
static vector<FLeaf> FL; struct FOp { string n; std::function<isl_pw_qpolynomial_fold *(isl_pw_qpolynomial_fold *)> o; std::function<bool(St &)> m; }; static vector<FOp> FO;
static isl_val *V_(long a, long b = 1) { isl_val *v = isl_val_int_from_si(ctx, a); return b == 1 ? v : isl_val_div(v, isl_val_int_from_si(ctx, b)); }
static isl_set *SET(const string &t) { isl_set *s = isl_set_read_from_str(ctx, t.c_str()); if (!s) { mc::take_error(); fail("parse set", t); } return s; }
static G ext2(int ty, G a, G b) { return [=](const I *x) -> O { O u = a(x), v = b(x); if (!u) return v; if (!v) return u; return better(ty, *u, *v) ? u : v; }; }
static void setup_folds() {
	auto leaf = [](int ty, vector<std::pair<string, std::function<Rat(const I *)>>> e, const Dom *d) { string s = cat("[n] -> { [x,y] -> ", ty == isl_fold_max ? "max(" : "min("); for (size_t i = 0; i < e.size(); ++i) s += (i ? ", " : "") + e[i].first; s += ")"; if (d) s += " : " + d->t; s += " }"; std::function<bool(const I *)> df; if (d) df = d->f; G g = [=](const I *x) -> O { if (df && !df(x)) return {}; if (e.size() == 1 && e[0].first == "0") return {};  /* a single zero: the empty reduction */ Rat r = e[0].second(x); for (auto &k : e) { Rat v = k.second(x); if (better(ty, v, r)) r = v; } return r; }; FL.push_back({s, {g, ty}}); };
	auto P = [](int k) { return std::make_pair(PS[k].t, PS[k].f); };
	for (int ty : {(int) isl_fold_max, (int) isl_fold_min}) { leaf(ty, {P(0), P(2)}, nullptr); leaf(ty, {P(1)}, &DS[0]); leaf(ty, {P(4), P(12), P(8)}, &DS[2]); leaf(ty, {P(6), P(2)}, &DS[9]); leaf(ty, {P(14), P(5)}, &DS[14]); leaf(ty, {P(12)}, &DS[6]); leaf(ty, {{"x", FN(Rat(x))}, {"x + 1", FN(Rat(x + 1))}, {"y - n", FN(Rat(y - n))}}, &DS[4]); leaf(ty, {{"2x", FN(Rat(2 * x))}, {"x", FN(Rat(x))}}, &DS[17]); }
	auto add = [](const string &n, std::function<isl_pw_qpolynomial_fold *(isl_pw_qpolynomial_fold *)> o, std::function<bool(St &)> m) { FO.push_back({n, o, m}); };
	for (auto &l : FL) { FLeaf c = l; add("fold " + l.t, [c](isl_pw_qpolynomial_fold *q) { return isl_pw_qpolynomial_fold_fold(q, RF(c.t)); }, [c](St &s) { if (s.type != c.s.type) return false; s.g = ext2(s.type, s.g, c.s.g); return true; });
		add("add " + l.t, [c](isl_pw_qpolynomial_fold *q) { return isl_pw_qpolynomial_fold_add(RF(c.t), q); }, [c](St &s) { if (s.type != c.s.type) return false; G a = s.g, b = c.s.g; s.g = [a, b](const I *x) -> O { O u = a(x), v = b(x); if (!u) return v; if (!v) return u; return *u + *v; }; return true; }); }
	struct C { string t; std::function<bool(const I *)> f; }; vector<C> cs; for (int k : {0, 2, 6, 9, 13}) cs.push_back({cat("[n] -> { [x,y] : ", DS[k].t, " }"), DS[k].f}); cs.push_back({"[n] -> { [x,y] : x >= y }", PR(x >= y)});
	for (auto &c : cs) { auto f = c.f; string t = c.t; auto R = [f](St &s, bool keep) { G a = s.g; s.g = [a, f, keep](const I *x) -> O { return f(x) == keep ? a(x) : O(); }; return true; };
		add("intersect_domain " + t, [t](isl_pw_qpolynomial_fold *q) { return isl_pw_qpolynomial_fold_intersect_domain(q, SET(t)); }, [=](St &s) { return R(s, true); }); add("subtract_domain " + t, [t](isl_pw_qpolynomial_fold *q) { return isl_pw_qpolynomial_fold_subtract_domain(q, SET(t)); }, [=](St &s) { return R(s, false); });
		add("gist " + t, [t](isl_pw_qpolynomial_fold *q) { return isl_pw_qpolynomial_fold_intersect_domain(isl_pw_qpolynomial_fold_gist(isl_pw_qpolynomial_fold_intersect_domain(q, SET(t)), SET(t)), SET(t)); }, [=](St &s) { return R(s, true); }); }
	add("intersect_params", [](isl_pw_qpolynomial_fold *q) { return isl_pw_qpolynomial_fold_intersect_params(q, SET("[n] -> { : n >= 1 }")); }, [](St &s) { G a = s.g; s.g = [a](const I *x) -> O { return x[0] >= 1 ? a(x) : O(); }; return true; });
	add("gist_params", [](isl_pw_qpolynomial_fold *q) { return isl_pw_qpolynomial_fold_intersect_params(isl_pw_qpolynomial_fold_gist_params(q, SET("[n] -> { : n = 1 }")), SET("[n] -> { : n = 1 }")); }, [](St &s) { G a = s.g; s.g = [a](const I *x) -> O { return x[0] == 1 ? a(x) : O(); }; return true; });
	for (auto v : vector<std::pair<int, int>>{{3, 1}, {-2, 1}, {1, 2}, {-1, 3}}) { Rat r(v.first, v.second); auto M = [](St &s, Rat r) { G a = s.g; s.g = [a, r](const I *x) -> O { O u = a(x); if (u) u = *u * r; return u; }; if (r < Rat(0)) s.type = s.type == isl_fold_max ? isl_fold_min : isl_fold_max; return true; };
		add("scale " + r.s(), [v](isl_pw_qpolynomial_fold *q) { return isl_pw_qpolynomial_fold_scale_val(q, V_(v.first, v.second)); }, [=](St &s) { return M(s, r); }); add("scale_down " + r.s(), [v](isl_pw_qpolynomial_fold *q) { return isl_pw_qpolynomial_fold_scale_down_val(q, V_(v.first, v.second)); }, [=](St &s) { return M(s, Rat(1) / r); }); }
	add("coalesce", isl_pw_qpolynomial_fold_coalesce, [](St &) { return true; });
	add("fix x = 1", [](isl_pw_qpolynomial_fold *q) { return isl_pw_qpolynomial_fold_fix_val(q, isl_dim_in, 0, V_(1)); }, [](St &s) { G a = s.g; s.g = [a](const I *x) -> O { return x[1] == 1 ? a(x) : O(); }; return true; });
	add("add_disjoint", [](isl_pw_qpolynomial_fold *q) { isl_pw_qpolynomial_fold *r = RF(isl_pw_qpolynomial_fold_get_type(q) == isl_fold_max ? "[n] -> { [x,y] -> max(x*y - 1) }" : "[n] -> { [x,y] -> min(x*y - 1) }"); isl_set *d = isl_pw_qpolynomial_fold_domain(isl_pw_qpolynomial_fold_copy(q)); return isl_pw_qpolynomial_fold_add_disjoint(q, isl_pw_qpolynomial_fold_subtract_domain(r, d)); }, [](St &s) { G a = s.g; s.g = [a](const I *x) -> O { O u = a(x); return u ? u : O(Rat(x[1] * x[2] - 1)); }; return true; });
	add("swap n,x", [](isl_pw_qpolynomial_fold *q) { q = isl_pw_qpolynomial_fold_move_dims(q, isl_dim_in, 2, isl_dim_param, 0, 1); q = isl_pw_qpolynomial_fold_move_dims(q, isl_dim_param, 0, isl_dim_in, 0, 1); q = isl_pw_qpolynomial_fold_move_dims(q, isl_dim_in, 0, isl_dim_in, 1, 1); q = isl_pw_qpolynomial_fold_set_dim_name(q, isl_dim_param, 0, "n"); return q; }, nullptr);
	FO.pop_back();
}
static void run_f(const vector<uint64_t> &d, bool deep) {
	struct H { isl_pw_qpolynomial_fold *q; ~H() { isl_pw_qpolynomial_fold_free(q); } } h{RF(FL[d[0]].t)}; St s = FL[d[0]].s; string who = FL[d[0]].t;
	for (size_t i = 1; i < d.size(); ++i) { auto &o = FO[d[i]]; if (!o.m(s)) { note_outcome("not applicable"); return; } h.q = o.o(h.q); who += "; " + o.n; note_transition(); }
	if (!h.q) { mc::take_error(); fail(cat("fold|", who), "NULL"); }
	try {
		PwFold f = poly::read(h.q); if (f.type != s.type && !f.p.empty()) fail(cat("fold|", who), "type"); uint64_t hh = s.type; O mx, mn; bool first = true; (void) first;
		for (auto &c : pts) { const I *x = c.data(); O w = s.g(x); int n; V v = poly::eval(f, x, &n); if (n != (w ? 1 : 0)) fail(cat("fold|", who), cat(n, " pieces", at(x, 3))); if (w && (v.k || v.r != *w)) fail(cat("fold|", who), cat(v.s(), " instead of ", w->s(), at(x, 3))); hh = mc::hash_mix(hh, w ? (uint64_t) w->n * 31 + (uint64_t) w->d : 7777); }
		for (size_t i = 3; i < pts.size(); i += 97) { const I *x = pts[i].data(); O w = s.g(x); V e = poly::from_val(isl_pw_qpolynomial_fold_eval(isl_pw_qpolynomial_fold_copy(h.q), poly::point(isl_pw_qpolynomial_fold_get_domain_space(h.q), x))); note_transition(); if (e.k || e.r != (w ? *w : Rat(0))) fail(cat("fold eval|", who), cat(e.s(), at(x, 3))); }
		note_state(hh); note_validated();
		if (!deep) return;
		isl_set *dom = isl_pw_qpolynomial_fold_domain(isl_pw_qpolynomial_fold_copy(h.q)); struct SH { isl_set *s; ~SH() { isl_set_free(s); } } sh{dom}; Pts D = read_set(dom); for (auto &c : pts) if (contains(D, c.data()) != s.g(c.data()).has_value()) fail(cat("fold domain|", who), at(c.data(), 3));
		// exact optimum over a box
		for (int box = 0; box < 2; ++box) { const char *bt = box ? "[n] -> { [x,y] : n = 2 and -3 <= x <= 2 and 0 <= y <= 3 }" : "[n] -> { [x,y] : 0 <= n <= 1 and 0 <= x <= 2 and -2 <= y <= 2 }"; O e; for (auto &c : pts) { const I *x = c.data(); if (box ? !(x[0] == 2 && x[1] >= -3 && x[1] <= 2 && x[2] >= 0 && x[2] <= 3) : !(x[0] >= 0 && x[0] <= 1 && x[1] >= 0 && x[1] <= 2 && x[2] >= -2 && x[2] <= 2)) continue; O w = s.g(x); if (w && (!e || better(s.type, *w, *e))) e = w; }
			isl_pw_qpolynomial_fold *r = isl_pw_qpolynomial_fold_intersect_domain(isl_pw_qpolynomial_fold_copy(h.q), SET(bt)); V v = poly::from_val(s.type == isl_fold_max ? isl_pw_qpolynomial_fold_max(r) : isl_pw_qpolynomial_fold_min(r)); note_transition(); if (v.k || v.r != (e ? *e : Rat(0))) fail(cat("fold optimum|", who), cat(v.s(), " instead of ", e ? e->s() : string("0"), " on ", bt)); }
	} catch (Overflow &) { note_outcome("inconclusive"); }
}
static void run_o(const vector<uint64_t> &d) {       // max and min of a piecewise quasi-polynomial on a bounded domain
	auto &p = PS[d[0]]; auto &D = DS[d[1]]; string t = cat("[n] -> { [x,y] -> ", p.t, " : -1 <= n <= 3 and ", D.t[0] == 'e' ? "" : "(", D.t, D.t[0] == 'e' ? "" : ")", " }"); if (!D.bounded) return; if (p.t == "0") return; O mx, mn; PH q0{RD(t)}; G g; try { g = on_pieces(q0.q, [&](const I *x) -> O { return x[0] >= -1 && x[0] <= 3 && D.f(x) ? O(p.f(x)) : O(); }, t); } catch (Overflow &) { return; }
	for (I n = -1; n <= 3; ++n) for (I x = XLO; x <= XHI; ++x) for (I y = XLO; y <= XHI; ++y) { I z[3] = {n, x, y}; O v = g(z); if (!v) continue; if (!mx || *v > *mx) mx = v; if (!mn || *v < *mn) mn = v; }
	for (int k = 0; k < 2; ++k) { isl_pw_qpolynomial *q = RD(t); V v = poly::from_val(k ? isl_pw_qpolynomial_min(q) : isl_pw_qpolynomial_max(q)); O w = k ? mn : mx; if (v.k || v.r != (w ? *w : Rat(0))) fail(cat(k ? "min|" : "max|", t), cat(v.s(), " instead of ", w ? w->s() : string("0"))); note_transition(); note_validated(); note_state(mc::hash_str(v.s())); }
}
int main(int argc, char **argv) {
	mc::Harness h; h.property = "C12"; bool th = tier_thorough(argc, argv); for (I n = -1; n <= WN; ++n) for (I x = -WX; x <= WX; ++x) for (I y = -WX; y <= WX; ++y) pts.push_back({n, x, y});
	setup_folds(); uint64_t P = PS.size(), D = DS.size(), L = FL.size(), K = FO.size();
	h.bounds["bounds"] = cat(P, " polynomials x ", D, " domains x max/min x 5 methods x parametric/wrapped; n in -1..4, x,y in -7..9"); h.bounds["reductions"] = cat(L, " reductions x ", K, " operations, depth ", th ? 3 : 2);
	auto add = [&](const string &n, mc::Radix r, std::function<void(const vector<uint64_t> &)> f) { h.add(mc::SpaceDef(n, r.size(), [=](uint64_t i) { f(r.at(i)); }, [=](uint64_t i) { string s; for (uint64_t x : r.at(i)) s += cat(x, ","); return s; })); };
	add("bound", {P, D, 2, 5, 2}, run_b);
	if (th) { add("pair", {P, P, D, 2, 2, 5}, run_2); add("apply", {RS.size(), P, D, 2, 3}, run_a); } else { add("pair", {P / 2, P / 2, D, 2, 2, 1}, [](vector<uint64_t> d) { d[0] = 2 * d[0] + d[2] % 2; d[1] = 2 * d[1] + (d[2] + d[0]) % 2; d[5] = (d[0] + d[1] + d[2]) % 5; run_2(d); }); add("apply", {RS.size(), P, D, 2, 3}, run_a); }
	add("optimum", {P, D}, run_o);
	add("fold1", {L, K}, [](const vector<uint64_t> &d) { run_f(d, true); }); add("fold2", {L, K, K}, [=](const vector<uint64_t> &d) { run_f(d, th || (d[0] + d[1] + d[2]) % 5 == 0); });
	if (th) add("fold3", {L, K, K, K}, [](const vector<uint64_t> &d) { run_f(d, false); });
	return mc::run(argc, argv, h);
}
