// C14: printed text read back denotes the same object; other output formats denote the same object.
#include "poly.hpp"
#include "astrun.hpp"
#include "schedtree.hpp"
#include <isl/multi.h>
#include <isl/schedule.h>
#include <isl/flow.h>
#include <isl/vec.h>
static bool g_th;
static string pr(isl_printer *p) { if (!p) { mc::take_error(); return "<printing failed>"; } char *t = isl_printer_get_str(p); string s = t ? t : "<null>"; free(t); isl_printer_free(p); return s; }
static isl_printer *P(int fmt) { isl_printer *p = isl_printer_to_str(ctx); return isl_printer_set_output_format(p, fmt); }
static string sptext(isl_space *s) { string r = mc::str(isl_space_to_str(s)); isl_space_free(s); return r; }
// names that the original carries must survive; takes both
static string spdiff(isl_space *a, isl_space *b, bool dims, bool ordered = true) {
	string r; if (!a || !b) r = "no space";
	else if (isl_space_is_equal(a, b) != isl_bool_true) { r = "space " + mc::str(isl_space_to_str(b)) + " instead of " + mc::str(isl_space_to_str(a)); }
	else { for (auto t : {isl_dim_param, isl_dim_in, isl_dim_out}) { if (t == isl_dim_in && isl_space_is_set(a)) continue; int n = isl_space_dim(a, t); for (int i = 0; i < n; ++i) { const char *x = isl_space_get_dim_name(a, t, i), *y = isl_space_get_dim_name(b, t, i); if (t != isl_dim_param && !dims) continue; if (x && (!y || strcmp(x, y))) r = cat("name of dimension ", i, " changed from ", x, " to ", y ? y : "(none)"); } } }
	isl_space_free(a); isl_space_free(b); return r;
}
#define SELF(T) static isl_##T *rd(const isl_##T *, const char *s) { return isl_##T##_read_from_str(ctx, s); } static string tx(isl_##T *x) { return mc::str(isl_##T##_to_str(x)); } static void fr(isl_##T *x) { isl_##T##_free(x); }
SELF(set) SELF(map) SELF(basic_set) SELF(basic_map) SELF(union_set) SELF(union_map) SELF(aff) SELF(pw_aff) SELF(multi_aff) SELF(multi_pw_aff) SELF(pw_multi_aff) SELF(union_pw_aff) SELF(union_pw_multi_aff) SELF(multi_union_pw_aff) SELF(pw_qpolynomial) SELF(union_pw_qpolynomial) SELF(val) SELF(id) SELF(space) SELF(multi_val) SELF(multi_id) SELF(schedule) SELF(schedule_constraints) 
static isl_pw_qpolynomial_fold *rd(const isl_pw_qpolynomial_fold *, const char *s) { return isl_pw_qpolynomial_fold_read_from_str(ctx, s); } static string tx(isl_pw_qpolynomial_fold *x) { return pr(isl_printer_print_pw_qpolynomial_fold(P(ISL_FORMAT_ISL), x)); } static void fr(isl_pw_qpolynomial_fold *x) { isl_pw_qpolynomial_fold_free(x); }
// reads the text of x back (x kept)
template <class T> T *back(const string &op, T *x, const string &who, string &t, T *(*alt)(const char *) = nullptr) {
	note_transition(2); if (!x) fail(op + "|" + who, "no object"); t = tx(x); T *y = rd((const T *) nullptr, t.c_str());
	if (!y) { string e = isl_ctx_last_error_msg(ctx) ? isl_ctx_last_error_msg(ctx) : ""; mc::take_error(); fail(op + "|" + who, "not readable: " + t + " (" + e + ")"); }
	// printing what was read denotes the same again: texts become stable after one cycle
	string t2 = tx(y); if (t2 != t) { T *z = rd((const T *) nullptr, t2.c_str()); if (!z) { mc::take_error(); fr(y); fail(op + "|" + who, "second text not readable: " + t2); } fr(z); note_outcome("text changes once"); } else note_outcome("text stable");
	mc::note_state(mc::hash_str(t)); return y;
}
template <class T> struct Own { T *x; ~Own() { fr(x); } };
// ---- sets and relations ----
struct Deco { string name; bool map; bool dims; std::function<isl_map *(isl_map *)> f; };
static isl_set *S_(isl_map *m) { return (isl_set *) m; } static isl_map *M_(isl_set *s) { return (isl_map *) s; }
static isl_map *dn(isl_map *m, isl_dim_type t, vector<const char *> v) { int n = isl_map_dim(m, t); for (int i = 0; i < n && i < (int) v.size(); ++i) m = isl_map_set_dim_name(m, t, i, v[i]); return m; }
static isl_map *pn(isl_map *m, vector<const char *> v) { return dn(m, isl_dim_param, v); }
static isl_map *sdn(isl_map *m, vector<const char *> v) { isl_set *s = S_(m); int n = isl_set_dim(s, isl_dim_set); for (int i = 0; i < n && i < (int) v.size(); ++i) s = isl_set_set_dim_name(s, isl_dim_set, i, v[i]); return M_(s); }
static isl_map *anon(isl_map *m) { return m; }
static vector<Deco> SD, MD;
static isl_map *tn(isl_map *m, const char *a, const char *b) { if (a) m = isl_map_set_tuple_name(m, isl_dim_in, a); if (b) m = isl_map_set_tuple_name(m, isl_dim_out, b); return m; }
static isl_set *stn(isl_set *s, const char *a) { return isl_set_set_tuple_name(s, a); }
static isl_map *mapof(isl_set *s, int ni) { isl_map *m = isl_map_from_range(s); return isl_map_move_dims(m, isl_dim_in, 0, isl_dim_out, 0, ni); }   // [first ni] -> [rest]
static void init() {
	SD = {{"plain", false, true, anon}, {"A", false, true, [](isl_map *m) { return M_(stn(S_(m), "A")); }}, {"A[x..]", false, true, [](isl_map *m) { return M_(stn(S_(sdn(m, {"x", "yy", "z_1"})), "A")); }},
	      {"[i0..]", false, true, [](isl_map *m) { return sdn(m, {"i1", "i0", "e0"}); }}, {"params i0", false, true, [](isl_map *m) { return pn(m, {"i0", "i1"}); }}, {"params e0", false, true, [](isl_map *m) { return M_(stn(S_(pn(m, {"e0", "e1"})), "e0")); }},
	      {"same names", false, false, [](isl_map *m) { return sdn(m, {"x", "x", "x"}); }}, {"dim named as param", false, false, [](isl_map *m) { return sdn(pn(m, {"x", "y"}), {"x", "y", "z"}); }}, {"tuple named as param", false, true, [](isl_map *m) { return M_(stn(S_(pn(m, {"A", "B"})), "A")); }},
	      {"wrap", false, true, [](isl_map *m) { return M_(isl_map_wrap(tn(mapof(S_(m), 1), "A", "B"))); }}, {"wrap anonymous", false, true, [](isl_map *m) { return M_(isl_map_wrap(mapof(S_(m), 1))); }}, {"named wrap", false, true, [](isl_map *m) { return M_(stn(isl_map_wrap(tn(mapof(S_(m), 0), nullptr, "B")), "W")); }},
	      {"nested", false, true, [](isl_map *m) { isl_map *r = isl_map_from_range(isl_map_wrap(tn(mapof(S_(m), 1), "A", "B"))); return M_(isl_map_wrap(r)); }},
	      {"nested left", false, true, [](isl_map *m) { isl_set *z = isl_set_universe(isl_space_set_tuple_name(isl_space_set_alloc(ctx, 0, 0), isl_dim_set, "Z")); isl_map *r = isl_map_from_domain_and_range(isl_map_wrap(tn(mapof(S_(m), 1), nullptr, "B")), z); return M_(stn(isl_map_wrap(r), "N")); }},
	      {"primed", false, false, [](isl_map *m) { return M_(stn(S_(sdn(m, {"x'", "y''", "z'"})), "A'")); }}};
	MD = {{"plain", true, true, anon}, {"A->B", true, true, [](isl_map *m) { return tn(m, "A", "B"); }}, {"A->A named", true, false, [](isl_map *m) { return tn(dn(dn(m, isl_dim_in, {"x", "y"}), isl_dim_out, {"x", "y"}), "A", "A"); }}, {"A->", true, true, [](isl_map *m) { return tn(m, "A", nullptr); }},
	      {"o0 params", true, true, [](isl_map *m) { return pn(m, {"o0", "i0"}); }}, {"crossed names", true, false, [](isl_map *m) { return dn(dn(m, isl_dim_in, {"o0", "o1"}), isl_dim_out, {"i0", "i1"}); }}, {"out named as param", true, false, [](isl_map *m) { return dn(pn(m, {"n", "m"}), isl_dim_out, {"n", "n"}); }},
	      {"wrapped in", true, true, [](isl_map *m) { int k = isl_map_dim(m, isl_dim_out); isl_map *r = isl_map_curry(isl_map_uncurry(m = isl_map_from_domain_and_range(isl_map_domain(isl_map_copy(m)), isl_map_wrap(m)))); (void) k; return isl_map_uncurry(r); }}};
}
// LaTeX and Omega text are translated token by token into isl notation
static string repl(string s, const vector<std::pair<string, string>> &v) { for (auto &p : v) for (size_t k = 0; (k = s.find(p.first, k)) != string::npos; k += p.second.size()) s.replace(k, p.first.size(), p.second); return s; }
static string plist(isl_space *s) { string r; int n = isl_space_dim(s, isl_dim_param); for (int i = 0; i < n; ++i) r += string(i ? ", " : "") + isl_space_get_dim_name(s, isl_dim_param, i); isl_space_free(s); return n ? "[" + r + "] -> " : ""; }
static isl_map *omega(const string &t, isl_space *sp) { string pl = plist(isl_space_copy(sp)), u = repl(t, {{"} union {", ";"}}); isl_map *r; bool isset = isl_space_is_set(sp); isl_space_free(sp); size_t k = u.find('{'); if (k == string::npos) return nullptr; u = pl + u.substr(k); r = isset ? M_(isl_set_read_from_str(ctx, u.c_str())) : isl_map_read_from_str(ctx, u.c_str()); return r; }
// matrix in (extended) PolyLib format: each row kind, vars (out, in), divs, params, constant
struct Mat { int nc; vector<vector<I>> r; };
static bool parse_poly(const string &t, bool ext, int nv, int np, vector<Basic> &out, int no) {
	std::istringstream is(t); int n; if (!(is >> n)) return false;
	for (int k = 0; k < n; ++k) {
		int nr, nc, d, o = 0, i = 0, e = 0, p = np; if (!(is >> nr >> nc)) return false; if (ext) { if (!(is >> o >> i >> e >> p)) return false; if (o + i + p != nv || p != np || nc != 2 + o + i + e + p) return false; } else e = nc - 2 - nv;
		d = nv - np; if (e < 0) return false; Basic b = uni(nv); setnd(b, e); int ni = d - no;
		for (int r = 0; r < nr; ++r) { long kind; is >> kind; vector<I> q(1 + nv + e, 0); long x; for (int c = 0; c < d; ++c) { if (!(is >> x)) return false; int v = c < no ? np + ni + c : np + c - no; q[1 + v] = x; } for (int c = 0; c < e; ++c) { if (!(is >> x)) return false; q[1 + nv + c] = x; } for (int c = 0; c < np; ++c) { if (!(is >> x)) return false; q[1 + c] = x; } if (!(is >> x)) return false; q[0] = x; (kind ? b.ineq : b.eq).push_back(q); }
		out.push_back(b);
	}
	string rest; is >> rest; return rest.empty();
}
static string latex_isl(string s) {
	s = repl(s, {{"\\{\\,", "{"}, {"\\,\\}", "}"}, {"\\mid", ":"}, {"\\wedge", "and"}, {"\\vee", "or"}, {"\\le ", "<= "}, {"\\ge ", ">= "}, {"\\bmod", "mod"}, {"\\exists \\, ", "exists "}, {"\\alpha_", "alpha_"}, {"\\exists ", "exists "}, {"\\to", "->"}, {"\\neq", "!="}, {"\\ne ", "!= "}});
	return s;
}
static void check_map(isl_map *m, bool isset, const Window &w, const Bits &want, bool dims, const string &who, bool fmts) {
	Own<isl_map> g{m}; string t; Pts pm = read_map(m); if (bits(pm, w) != want) fail("decorate|" + who, "naming changes the points");
	if (isset) { isl_set *y = back("set", S_(m), who, t); string d = spdiff(isl_set_get_space(S_(m)), isl_set_get_space(y), dims); if (!d.empty()) { isl_set_free(y); fail("set|" + who, d + " from " + t); } expect_set("set", y, w, want, who + " text " + t); }
	else { isl_map *y = back("map", m, who, t); string d = spdiff(isl_map_get_space(m), isl_map_get_space(y), dims); if (!d.empty()) { isl_map_free(y); fail("map|" + who, d + " from " + t); } expect_map("map", y, w, want, who + " text " + t); }
	// union and basic forms
	string tu; if (isset) { Own<isl_union_set> u{isl_union_set_from_set(isl_set_copy(S_(m)))}; Own<isl_union_set> v{back("union_set", u.x, who, tu)}; if (isl_union_set_is_empty(v.x) == isl_bool_true) { if (bany(want)) fail("union_set|" + who, "empty from " + tu); } else { isl_set *s = isl_set_from_union_set(isl_union_set_copy(v.x)); s = isl_set_align_params(s, isl_set_get_space(S_(m))); expect_set("union_set", s, w, want, who + " text " + tu); } }
	else { Own<isl_union_map> u{isl_union_map_from_map(isl_map_copy(m))}; Own<isl_union_map> v{back("union_map", u.x, who, tu)}; if (isl_union_map_is_empty(v.x) == isl_bool_true) { if (bany(want)) fail("union_map|" + who, "empty from " + tu); } else { isl_map *s = isl_map_from_union_map(isl_union_map_copy(v.x)); s = isl_map_align_params(s, isl_map_get_space(m)); expect_map("union_map", s, w, want, who + " text " + tu); } }
	isl_basic_map_list *bl = isl_map_get_basic_map_list(m); int nb = isl_basic_map_list_n_basic_map(bl);
	for (int i = 0; i < nb && i < 2; ++i) { isl_basic_map *b = isl_basic_map_list_get_at(bl, i); struct G { isl_basic_map *b; ~G() { isl_basic_map_free(b); } } gb{b}; Bits wb = bits(read_basic_map(b), w); string tb;
		if (isset) { isl_basic_set *y = back("basic_set", (isl_basic_set *) b, who, tb); Bits got = bits(read_basic_set(y), w); isl_basic_set_free(y); if (got != wb) fail("basic_set|" + who, "wrong points " + show(w, got, wb) + " from " + tb); }
		else { isl_basic_map *y = back("basic_map", b, who, tb); Bits got = bits(read_basic_map(y), w); isl_basic_map_free(y); if (got != wb) fail("basic_map|" + who, "wrong pairs " + show(w, got, wb) + " from " + tb); } }
	isl_basic_map_list_free(bl);
	if (!fmts) return;
	int np = isl_map_dim(m, isl_dim_param), no = isset ? isl_set_dim(S_(m), isl_dim_set) : isl_map_dim(m, isl_dim_out);
	for (int ext = 0; ext < 2; ++ext) { string x = pr(isset ? isl_printer_print_set(P(ext ? ISL_FORMAT_EXT_POLYLIB : ISL_FORMAT_POLYLIB), S_(m)) : isl_printer_print_map(P(ext ? ISL_FORMAT_EXT_POLYLIB : ISL_FORMAT_POLYLIB), m)); vector<Basic> bs; note_transition();
		string op = ext ? "ext polylib|" : "polylib|"; if (!parse_poly(x, ext, w.n, np, bs, no)) fail(op + who, "malformed: " + x); Pts q; for (auto &b : bs) q.b.push_back(b); Bits got = bits(q, w); if (got != want) fail(op + who, "wrong points " + show(w, got, want) + " in " + x);
		if (ext || np == 0) { bool div = false; for (auto &b : bs) div = div || b.nd; if (!ext && (div || !isset)) continue; if (bs.empty()) continue;
			if (isset) { isl_set *y = isl_set_read_from_str(ctx, x.c_str()); if (!y) { mc::take_error(); fail(op + who, "not readable: " + x); } expect_set(ext ? "ext polylib read" : "polylib read", y, w, want, who + " text " + x); }
			else { isl_map *y = isl_map_read_from_str(ctx, x.c_str()); if (!y) { mc::take_error(); fail(op + who, "not readable: " + x); } expect_map("ext polylib read", y, w, want, who + " text " + x); } } }
	if (bany(want)) { string x = pr(isset ? isl_printer_print_set(P(ISL_FORMAT_OMEGA), S_(m)) : isl_printer_print_map(P(ISL_FORMAT_OMEGA), m)); isl_map *y = omega(x, isl_map_get_space(m)); if (!y) { mc::take_error(); fail("omega|" + who, "malformed: " + x); } note_transition(); if (isset) expect_set("omega", S_(y), w, want, who + " text " + x); else expect_map("omega", y, w, want, who + " text " + x); }
	{ string x = pr(isset ? isl_printer_print_set(P(ISL_FORMAT_LATEX), S_(m)) : isl_printer_print_map(P(ISL_FORMAT_LATEX), m)); note_transition(); if (x.empty()) fail("latex|" + who, "nothing printed"); }
}
// translation of LaTeX for anonymous or named flat sets
static void check_latex(isl_set *s, const Window &w, const Bits &want, const string &who) {
	Own<isl_set> g{s}; string x = pr(isl_printer_print_set(P(ISL_FORMAT_LATEX), s)); note_transition(); int np = isl_set_dim(s, isl_dim_param); string pl = plist(isl_set_get_space(s)); Bits got = bzero(w.count);
	size_t p = 0; for (;;) { size_t a = x.find("\\{\\,", p), b = x.find("\\,\\}", p); if (a == string::npos) break; if (b == string::npos) fail("latex|" + who, "malformed: " + x); string q = x.substr(a + 4, b - a - 4); p = b + 4; size_t m = q.find("\\mid"); string tup = q.substr(0, m), con = m == string::npos ? "" : q.substr(m + 4);
		tup = repl(tup, {{"\\mathrm{A}", ""}}); size_t l = tup.find('('), r = tup.rfind(')'); string in = l == string::npos ? tup : tup.substr(l + 1, r - l - 1); string u = pl + "{ [" + in + "]" + (con.empty() ? "" : " : " + latex_isl(con)) + " }"; if (isl_set_dim(s, isl_dim_set) == 0) u = pl + "{ []" + (con.empty() ? "" : " : " + latex_isl(con)) + " }";
		isl_set *y = isl_set_read_from_str(ctx, u.c_str()); if (!y) { mc::take_error(); fail("latex|" + who, "not understood: " + x + " as " + u); } got = bor(got, bits_set(y, w)); isl_set_free(y); }
	(void) np; if (got != want) fail("latex|" + who, "wrong points " + show(w, got, want) + " in " + x); note_validated();
}
// ---- expressions ----
static const vector<string> AFFS = {"0", "1", "-3", "n", "i", "j", "-i", "i + j", "2i - 3j + 1", "n - i", "(i)/2", "(i + j)/3", "(2n - i + 1)/4", "floor(i/2)", "floor((i + j)/3)", "floor((-i)/2)", "floor((n + i)/3) - j", "2*floor(i/2) + j", "i - 3*floor(i/3)", "floor((i + floor(j/2))/2)", "(i + floor(j/2))/3", "3*floor((2i + floor((j + n)/3))/5) - i", "floor(i/2) + floor(j/2)", "(floor(i/2) - 1)/2", "4294967296 + i", "i mod 2", "(i mod 3) + 9223372036854775807", "-(i mod 2) + (j mod 3)", "floor((i - 1)/2) - floor(i/2)", "i/2 + j/3 - n/5", "(1)/2", "(-7)/3"};
static const vector<string> DOMS = {"", "i >= 0", "i >= 0 and j <= n", "(i >= 1 and j >= 0) or (i <= -1)", "i mod 2 = 0", "exists (e : i = 3e + 1 and j >= e)", "i = j", "n >= 2", "i + 2j <= 3 and floor(i/2) + j >= 0", "false"};
static const vector<string> TUP = {"[i, j]", "A[i, j]", "[A[i] -> B[j]]", "W[[i] -> [j]]", "A[B[i] -> [C[] -> D[j]]]"};
static isl_aff *AFF(int t, int a) { return isl_aff_read_from_str(ctx, cat("[n] -> { ", TUP[t], " -> [", AFFS[a].find("mod") != string::npos || AFFS[a].find('/') != string::npos ? "(" + AFFS[a] + ")" : AFFS[a], "] }").c_str()); }
static isl_set *DOM(int t, int d) { return isl_set_read_from_str(ctx, cat("[n] -> { ", TUP[t], DOMS[d].empty() ? "" : " : ", DOMS[d], " }").c_str()); }
static Window W3() { static Window w = Window::cube(3, -4, 5); return w; }
template <class X> static void same(const string &op, const X &a, const X &b, const string &who, const string &t, int) { Window w = W3(); for (int k = 0; k < w.count; ++k) { Rat x, y; int p = eval(a, w.at(k), x), q = eval(b, w.at(k), y); if (p != q || (p && x != y)) fail(op + "|" + who, cat("value at (", S(w.at(k)[0]), ",", S(w.at(k)[1]), ",", S(w.at(k)[2]), ") is ", q ? y.s() : "undefined", " instead of ", p ? x.s() : "undefined", " from ", t)); } note_validated(); }
static void same_pma(const string &op, const PMA &a, const PMA &b, const string &who, const string &t) { Window w = W3(); for (int k = 0; k < w.count; ++k) { vector<Rat> x, y; int p = eval(a, w.at(k), x), q = eval(b, w.at(k), y); if (p != q || (p && x != y)) fail(op + "|" + who, cat("value at (", S(w.at(k)[0]), ",", S(w.at(k)[1]), ",", S(w.at(k)[2]), ") differs from ", t)); } note_validated(); }
static void c_value(const string &op, const string &t, const std::function<int(const I *, Rat &)> &f, const string &who) {
	Window w = W3(); int seen = 0;
	for (int k = 0; k < w.count; ++k) { const I *x = w.at(k); Rat v; if (!f(x, v) || !v.isint() || (w.count > 200 && k % 3 && seen > 40)) continue; ++seen; vector<ast::Inst> o; ast::CText c(t, &o); c.env["n"] = x[0]; c.env["i"] = x[1]; c.env["j"] = x[2]; I r;
		try { r = c.cond(true); c.ws(); if (c.p != c.s.size()) throw ast::Bad{"trailing text"}; } catch (ast::Bad &b) { fail(op + "|" + who, b.why + " in " + t); }
		if (r != v.n) fail(op + "|" + who, cat("C text evaluates to ", S(r), " instead of ", S(v.n), " at (", S(x[0]), ",", S(x[1]), ",", S(x[2]), "): ", t)); }
	note_validated();
}
static isl_pw_aff *PW(int t, int a, int d, int b, int e) { isl_pw_aff *p = isl_pw_aff_alloc(DOM(t, d), AFF(t, a)); if (b < 0) return p; isl_set *s = isl_set_subtract(DOM(t, e), DOM(t, d)); return isl_pw_aff_union_add(p, isl_pw_aff_alloc(s, AFF(t, b))); }
static isl_qpolynomial *QP(int t, int a, int b, int form) {
	auto q = [&](int k) { return isl_qpolynomial_from_aff(AFF(t, k)); };
	switch (form) { case 0: return isl_qpolynomial_mul(q(a), q(b)); case 1: return isl_qpolynomial_add(isl_qpolynomial_pow(q(a), 2), q(b)); case 2: return isl_qpolynomial_sub(isl_qpolynomial_mul(isl_qpolynomial_mul(q(a), q(a)), q(b)), isl_qpolynomial_mul(q(b), q(b))); default: return isl_qpolynomial_scale_val(isl_qpolynomial_add(isl_qpolynomial_pow(q(a), 3), q(b)), isl_val_read_from_str(ctx, "-2/3")); }
}
template <class A> static string vs(const A &v) { return v.s(); }
static bool lossy_poly_text(const string &t) { return false; }
int main(int argc, char **argv) {
	mc::Harness h; h.property = "C14"; g_th = tier_thorough(argc, argv); init();
	h.teardown = [] { Alpha::drop_all(); };
	auto add = [&](const string &n, mc::Radix r, std::function<void(const vector<uint64_t> &)> f, std::function<string(const vector<uint64_t> &)> d) { h.add(mc::SpaceDef(n, r.size(), [=](uint64_t i) { f(r.at(i)); }, [=](uint64_t i) { return d(r.at(i)); })); };
	struct Cfg { int nv, np; size_t cap; }; static vector<Alpha *> AL;
	for (auto c : {Cfg{1, 0, 60}, Cfg{2, 0, 250}, Cfg{2, 1, 250}, Cfg{3, 1, 250}, Cfg{4, 2, 120}, Cfg{3, 0, 150}}) {
		size_t cap = g_th ? c.cap * 6 : c.cap; Window w = Window::cube(c.nv, c.nv >= 4 ? -1 : -2, c.nv >= 4 ? 3 : c.nv == 3 ? 4 : 6); GenOpt o; auto v = basicsN(c.nv, c.np, w, 2, o, cap); auto u = unions2(pick(v, 40), c.nv, w, 2, cap / 2, c.np); v.insert(v.end(), u.begin(), u.end()); if (c.nv == 2) { auto nn = nested2(w, cap / 3, c.np, -2, 6); v.insert(v.end(), nn.begin(), nn.end()); }
		AL.push_back(new Alpha(c.nv, c.np, w, v));
	}
	for (size_t k = 0; k < AL.size(); ++k) {
		Alpha &A = *AL[k]; int d = A.nv - A.np;
		add(cat("sets ", A.np, "+", d), {A.size(), SD.size()}, [&A](const vector<uint64_t> &v) { const Deco &D = SD[v[1]]; isl_map *m = D.f(M_(isl_set_copy(A.set(v[0])))); check_map(m, true, A.w, A.b[v[0]], D.dims, D.name + " of " + A.text(v[0]), v[1] < 2 || v[1] == 9); }, [&A](const vector<uint64_t> &v) { return SD[v[1]].name + " of " + A.text(v[0]); });
		add(cat("latex ", A.np, "+", d), {A.size(), 2}, [&A](const vector<uint64_t> &v) { isl_set *s = isl_set_copy(A.set(v[0])); if (v[1]) s = isl_set_set_tuple_name(s, "A"); check_latex(s, A.w, A.b[v[0]], A.text(v[0])); }, [&A](const vector<uint64_t> &v) { return A.text(v[0]); });
		for (int ni = 0; ni <= d; ++ni) if (d > 0) add(cat("relations ", A.np, "+", ni, "->", d - ni), {A.size(), MD.size() - 1}, [&A, ni](const vector<uint64_t> &v) { const Deco &D = MD[v[1]]; if (D.name == "A->A named" && 2 * ni != A.nv - A.np) return; isl_map *m = D.f(isl_map_copy(A.map(v[0], ni))); check_map(m, false, A.w, A.b[v[0]], D.dims, D.name + " of " + A.text(v[0]), v[1] < 2); }, [&A](const vector<uint64_t> &v) { return MD[v[1]].name + " of " + A.text(v[0]); });
	}
	auto adesc = [](const vector<uint64_t> &v) { string s; for (size_t k = 0; k < v.size(); ++k) s += cat(k ? "," : "", v[k]); return s + " " + AFFS[v[1]]; };
	add("affine expressions", {TUP.size(), AFFS.size(), AFFS.size()}, [](const vector<uint64_t> &v) {
		Own<isl_aff> a{isl_aff_add(AFF(v[0], v[1]), v[2] ? isl_aff_scale_down_ui(AFF(v[0], v[2]), 2) : AFF(v[0], 0))}; string who = cat(AFFS[v[1]], " + half of ", AFFS[v[2]], " on ", TUP[v[0]]), t; Aff x = read_aff(a.x); Own<isl_aff> b{back("aff", a.x, who, t)}; Aff y = read_aff(b.x);
		string d = spdiff(isl_aff_get_space(a.x), isl_aff_get_space(b.x), false); if (!d.empty()) fail("aff|" + who, d + " from " + t); Window w = W3(); for (int k = 0; k < w.count; ++k) if (mdl::eval(x, w.at(k)) != mdl::eval(y, w.at(k))) fail("aff|" + who, "different value from " + t); note_validated();
		if (v[0] == 0 && v[2] < 12) { isl_aff *c = isl_aff_set_dim_name(isl_aff_set_dim_name(isl_aff_copy(a.x), isl_dim_in, 0, "i"), isl_dim_in, 1, "j"); string ct = pr(isl_printer_print_aff(P(ISL_FORMAT_C), c)); isl_aff_free(c); c_value("aff C", ct, [&](const I *p, Rat &r) { r = mdl::eval(x, p); return 1; }, who); }
	}, adesc);
	add("piecewise expressions", {TUP.size(), AFFS.size(), DOMS.size() - 1, 4}, [](const vector<uint64_t> &v) {
		int b = v[3] ? (int) ((v[1] * 7 + v[3] * 5) % AFFS.size()) : -1, e = (v[2] + v[3]) % (DOMS.size() - 1); Own<isl_pw_aff> p{PW(v[0], v[1], v[2], b, e)}; string who = cat(AFFS[v[1]], " on ", DOMS[v[2]], " and ", b < 0 ? "nothing" : AFFS[b] + " on " + DOMS[e], " over ", TUP[v[0]]), t; PwAff x = mdl::read_pw_aff(p.x);
		Own<isl_pw_aff> y{back("pw_aff", p.x, who, t)}; string d = spdiff(isl_pw_aff_get_space(p.x), isl_pw_aff_get_space(y.x), false); if (!d.empty()) fail("pw_aff|" + who, d + " from " + t); same("pw_aff", x, read_pw_aff(y.x), who, t, 0);
		if (v[0] == 0) { isl_pw_aff *c = isl_pw_aff_set_dim_id(isl_pw_aff_set_dim_id(isl_pw_aff_copy(p.x), isl_dim_in, 0, isl_id_alloc(ctx, "i", nullptr)), isl_dim_in, 1, isl_id_alloc(ctx, "j", nullptr)); string ct = pr(isl_printer_print_pw_aff(P(ISL_FORMAT_C), c)); isl_pw_aff_free(c); c_value("pw_aff C", ct, [&](const I *q, Rat &r) { return eval(x, q, r); }, who); }
		Own<isl_union_pw_aff> u{isl_union_pw_aff_from_pw_aff(isl_pw_aff_copy(p.x))}; { isl_union_pw_aff *z = isl_union_pw_aff_from_pw_aff(isl_pw_aff_set_tuple_id(PW(0, v[1], 0, -1, 0), isl_dim_in, isl_id_alloc(ctx, "Q", nullptr))); u.x = isl_union_pw_aff_union_add(u.x, z); } Own<isl_union_pw_aff> uy{back("union_pw_aff", u.x, who, t)};
		isl_pw_aff *ey = isl_union_pw_aff_extract_pw_aff(uy.x, isl_pw_aff_get_space(p.x)); Own<isl_pw_aff> g{ey}; same("union_pw_aff", x, read_pw_aff(ey), who, t, 0); if (isl_union_pw_aff_n_pw_aff(uy.x) != isl_union_pw_aff_n_pw_aff(u.x)) fail("union_pw_aff|" + who, "different number of parts from " + t);
	}, adesc);
	add("tuples of expressions", {TUP.size(), AFFS.size(), DOMS.size() - 1, 4}, [](const vector<uint64_t> &v) {
		int t = v[0], b = (v[1] * 5 + v[2]) % AFFS.size(); string who = cat(AFFS[v[1]], ", ", AFFS[b], " on ", DOMS[v[2]], " over ", TUP[t], " form ", v[3]), tt; isl_multi_aff *m = isl_multi_aff_range_product(isl_multi_aff_from_aff(AFF(t, v[1])), isl_multi_aff_from_aff(AFF(t, b)));
		if (v[3] & 1) m = isl_multi_aff_flatten_range(m); if (v[3] & 2) m = isl_multi_aff_set_tuple_name(m, isl_dim_out, "R"); Own<isl_multi_aff> ma{m}; PMA x; { isl_pw_multi_aff *q = isl_pw_multi_aff_from_multi_aff(isl_multi_aff_copy(m)); x = read_pma(q); isl_pw_multi_aff_free(q); }
		{ Own<isl_multi_aff> y{back("multi_aff", m, who, tt)}; string d = spdiff(isl_multi_aff_get_space(m), isl_multi_aff_get_space(y.x), false); if (!d.empty()) fail("multi_aff|" + who, d + " from " + tt); isl_pw_multi_aff *q = isl_pw_multi_aff_from_multi_aff(isl_multi_aff_copy(y.x)); PMA z = read_pma(q); isl_pw_multi_aff_free(q); same_pma("multi_aff", x, z, who, tt); }
		int e = (v[2] + 1 + v[3]) % (DOMS.size() - 1); Own<isl_pw_multi_aff> p{isl_pw_multi_aff_alloc(DOM(t, v[2]), isl_multi_aff_copy(m))}; { isl_multi_aff *m2 = isl_multi_aff_copy(m); m2 = isl_multi_aff_scale_val(m2, valI(3)); isl_set *s2 = isl_set_subtract(DOM(t, e), DOM(t, v[2])); p.x = isl_pw_multi_aff_union_add(p.x, isl_pw_multi_aff_alloc(s2, m2)); }
		PMA px = read_pma(p.x); { Own<isl_pw_multi_aff> y{back("pw_multi_aff", p.x, who, tt)}; string d = spdiff(isl_pw_multi_aff_get_space(p.x), isl_pw_multi_aff_get_space(y.x), false); if (!d.empty()) fail("pw_multi_aff|" + who, d + " from " + tt); same_pma("pw_multi_aff", px, read_pma(y.x), who, tt); }
		{ Own<isl_union_pw_multi_aff> u{isl_union_pw_multi_aff_from_pw_multi_aff(isl_pw_multi_aff_copy(p.x))}; Own<isl_union_pw_multi_aff> y{back("union_pw_multi_aff", u.x, who, tt)}; isl_pw_multi_aff *q = isl_union_pw_multi_aff_extract_pw_multi_aff(y.x, isl_pw_multi_aff_get_space(p.x)); PMA z = read_pma(q); isl_pw_multi_aff_free(q); same_pma("union_pw_multi_aff", px, z, who, tt); }
		{ Own<isl_multi_pw_aff> mp{isl_multi_pw_aff_from_pw_multi_aff(isl_pw_multi_aff_copy(p.x))}; Own<isl_multi_pw_aff> y{back("multi_pw_aff", mp.x, who, tt)}; string d = spdiff(isl_multi_pw_aff_get_space(mp.x), isl_multi_pw_aff_get_space(y.x), false); if (!d.empty()) fail("multi_pw_aff|" + who, d + " from " + tt); for (int k = 0; k < 2; ++k) { Own<isl_pw_aff> f{isl_multi_pw_aff_get_at(mp.x, k)}, g{isl_multi_pw_aff_get_at(y.x, k)}; same("multi_pw_aff", read_pw_aff(f.x), read_pw_aff(g.x), who, tt, 0); } }
		if (v[3] & 1) { isl_multi_union_pw_aff *mu = isl_multi_union_pw_aff_from_multi_pw_aff(isl_multi_pw_aff_from_pw_multi_aff(isl_pw_multi_aff_copy(p.x))); Own<isl_multi_union_pw_aff> g{mu}; Own<isl_multi_union_pw_aff> y{back("multi_union_pw_aff", mu, who, tt)}; string d = spdiff(isl_multi_union_pw_aff_get_space(mu), isl_multi_union_pw_aff_get_space(y.x), false); if (!d.empty()) fail("multi_union_pw_aff|" + who, d + " from " + tt);
			for (int k = 0; k < 2; ++k) { Own<isl_union_pw_aff> f{isl_multi_union_pw_aff_get_at(mu, k)}, q{isl_multi_union_pw_aff_get_at(y.x, k)}; isl_space *sp = isl_pw_multi_aff_get_space(p.x); sp = isl_space_map_from_domain_and_range(isl_space_domain(sp), isl_space_set_alloc(ctx, 1, 1)); sp = isl_space_align_params(sp, isl_union_pw_aff_get_space(f.x)); Own<isl_pw_aff> fa{isl_union_pw_aff_extract_pw_aff(f.x, isl_space_copy(sp))}, qa{isl_union_pw_aff_extract_pw_aff(q.x, sp)}; if (!fa.x || !qa.x) { mc::take_error(); continue; } same("multi_union_pw_aff", read_pw_aff(fa.x), read_pw_aff(qa.x), who, tt, 0); } }
	}, adesc);
	add("zero-dimensional tuples", {TUP.size(), DOMS.size(), 3}, [](const vector<uint64_t> &v) {
		int t = v[0]; string who = cat("no members on ", DOMS[v[1]], " over ", TUP[t], " form ", v[2]), tt; isl_set *s = DOM(t, v[1]); isl_space *sp = isl_space_map_from_domain_and_range(isl_set_get_space(s), isl_space_set_tuple_name(isl_space_set_dim_name(isl_space_set_alloc(ctx, 1, 0), isl_dim_param, 0, "n"), isl_dim_set, "R"));
		sp = isl_space_align_params(sp, isl_set_get_space(s)); Window w = W3(); Bits want = bits_set(s, w); Own<isl_set> gs{s};
		if (v[2] == 0) { Own<isl_multi_pw_aff> m{isl_multi_pw_aff_intersect_domain(isl_multi_pw_aff_zero(sp), isl_set_copy(s))}; Own<isl_multi_pw_aff> y{back("multi_pw_aff0", m.x, who, tt)}; string d = spdiff(isl_multi_pw_aff_get_space(m.x), isl_multi_pw_aff_get_space(y.x), false); if (!d.empty()) fail("multi_pw_aff0|" + who, d + " from " + tt); expect_set("multi_pw_aff0", isl_multi_pw_aff_domain(isl_multi_pw_aff_copy(y.x)), w, want, who + " text " + tt); }
		else if (v[2] == 1) { Own<isl_multi_union_pw_aff> m{isl_multi_union_pw_aff_intersect_domain(isl_multi_union_pw_aff_zero(isl_space_range(sp)), isl_union_set_from_set(isl_set_copy(s)))}; Own<isl_multi_union_pw_aff> y{back("multi_union_pw_aff0", m.x, who, tt)}; isl_union_set *u = isl_multi_union_pw_aff_domain(isl_multi_union_pw_aff_copy(y.x)); if (isl_union_set_is_empty(u) == isl_bool_true) { isl_union_set_free(u); if (bany(want)) fail("multi_union_pw_aff0|" + who, "empty domain from " + tt); return; } expect_set("multi_union_pw_aff0", isl_set_align_params(isl_set_from_union_set(u), isl_set_get_space(s)), w, want, who + " text " + tt); }
		else { if (!bany(want)) { isl_space_free(sp); return; } Own<isl_pw_multi_aff> m{isl_pw_multi_aff_alloc(isl_set_copy(s), isl_multi_aff_zero(sp))}; Own<isl_pw_multi_aff> y{back("pw_multi_aff0", m.x, who, tt)}; expect_set("pw_multi_aff0", isl_pw_multi_aff_domain(isl_pw_multi_aff_copy(y.x)), w, want, who + " text " + tt); }
	}, [](const vector<uint64_t> &v) { return cat(v[0], ",", v[1], ",", v[2]); });
	add("polynomials", {TUP.size() - 2, AFFS.size(), AFFS.size(), 4}, [](const vector<uint64_t> &v) {
		string who = cat("polynomial ", AFFS[v[1]], " ; ", AFFS[v[2]], " form ", v[3], " over ", TUP[v[0]]), t; if (AFFS[v[1]].find("92233") != string::npos || AFFS[v[2]].find("92233") != string::npos) return;
		int d = (v[1] + v[2]) % (DOMS.size() - 1); isl_pw_qpolynomial *p = isl_pw_qpolynomial_alloc(DOM(v[0], d), QP(v[0], v[1], v[2], v[3])); if (v[2] % 3 == 1) { isl_set *s = isl_set_subtract(DOM(v[0], (d + 2) % (DOMS.size() - 1)), DOM(v[0], d)); p = isl_pw_qpolynomial_add_disjoint(p, isl_pw_qpolynomial_alloc(s, QP(v[0], v[2], v[1], 0))); } Own<isl_pw_qpolynomial> g{p};
		poly::PwPoly x = poly::read(p); Window w = W3();
		if (v[0] == 0 && AFFS[v[1]].find("4294") == string::npos && AFFS[v[2]].find("4294") == string::npos) { isl_pw_qpolynomial *c = isl_pw_qpolynomial_set_dim_name(isl_pw_qpolynomial_set_dim_name(isl_pw_qpolynomial_copy(p), isl_dim_in, 0, "i"), isl_dim_in, 1, "j"); string ct = pr(isl_printer_print_pw_qpolynomial(P(ISL_FORMAT_C), c)); isl_pw_qpolynomial_free(c); c_value("pw_qpolynomial C", ct, [&](const I *q, Rat &r) { poly::V u = poly::eval(x, q); if (u.k) return 0; r = u.r; return 1; }, who); }
		auto cmp = [&](const string &op, const poly::PwPoly &y) { for (int k = 0; k < w.count; ++k) { auto a = poly::eval(x, w.at(k)), b = poly::eval(y, w.at(k)); if (!(a == b)) fail(op + "|" + who, cat("value at (", S(w.at(k)[0]), ",", S(w.at(k)[1]), ",", S(w.at(k)[2]), ") is ", b.s(), " instead of ", a.s(), " from ", t)); } note_validated(); };
		if (isl_pw_qpolynomial_is_zero(p) == isl_bool_true) return; Own<isl_pw_qpolynomial> y{back("pw_qpolynomial", p, who, t)}; string dd = spdiff(isl_pw_qpolynomial_get_space(p), isl_pw_qpolynomial_get_space(y.x), false); if (!dd.empty()) fail("pw_qpolynomial|" + who, dd + " from " + t); cmp("pw_qpolynomial", poly::read(y.x));
		Own<isl_union_pw_qpolynomial> u{isl_union_pw_qpolynomial_from_pw_qpolynomial(isl_pw_qpolynomial_copy(p))}; Own<isl_union_pw_qpolynomial> uy{back("union_pw_qpolynomial", u.x, who, t)}; Own<isl_pw_qpolynomial> e{isl_union_pw_qpolynomial_extract_pw_qpolynomial(uy.x, isl_pw_qpolynomial_get_space(p))}; cmp("union_pw_qpolynomial", poly::read(e.x));
		if (v[3] == 0) { isl_qpolynomial *q2 = QP(v[0], v[2], v[1], 1); isl_set *s = DOM(v[0], d); isl_pw_qpolynomial_fold *f = isl_pw_qpolynomial_fold_alloc(isl_fold_max, s, isl_qpolynomial_fold_fold(isl_qpolynomial_fold_alloc(isl_fold_max, QP(v[0], v[1], v[2], 0)), isl_qpolynomial_fold_alloc(isl_fold_max, q2))); Own<isl_pw_qpolynomial_fold> gf{f}; string ft = tx(f); if (ft.find("max(0)") != string::npos || ft.find("-> 0") != string::npos) return; poly::PwFold fx = poly::read(f); if (fx.p.empty()) return; Own<isl_pw_qpolynomial_fold> fy{back("fold", f, who, t)}; poly::PwFold fz = poly::read(fy.x); for (int k = 0; k < w.count; ++k) { auto a = poly::eval(fx, w.at(k)), b = poly::eval(fz, w.at(k)); if (!(a == b)) fail("fold|" + who, cat("value is ", b.s(), " instead of ", a.s(), " from ", t)); } note_validated(); }
	}, adesc);
	// ---- values, identifiers, spaces, tuples of values and identifiers ----
	static vector<string> VAL; for (int n = -13; n <= 13; ++n) for (int d = 1; d <= 7; ++d) VAL.push_back(cat(n, "/", d)); for (auto b : {"2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "340282366920938463463374607431768211456", "100000000000000000000000000000000000000000000001"}) for (auto d : {"1", "2", "3", "4294967297", "18446744073709551617"}) VAL.push_back(cat(b, "/", d)); VAL.push_back("infty"); VAL.push_back("-infty"); VAL.push_back("NaN");
	add("values", {VAL.size(), 2}, [](const vector<uint64_t> &v) {
		const string &s = VAL[v[0]]; isl_val *x; size_t k = s.find('/'); if (k == string::npos) x = s == "NaN" ? isl_val_nan(ctx) : s == "infty" ? isl_val_infty(ctx) : isl_val_neginfty(ctx); else { auto big = [&](string t) { bool neg = t[0] == '-'; if (neg) t = t.substr(1); isl_val *r = isl_val_zero(ctx); for (char c : t) r = isl_val_add_ui(isl_val_mul_ui(r, 10), c - '0'); return neg ? isl_val_neg(r) : r; }; x = isl_val_div(big(s.substr(0, k)), big(s.substr(k + 1))); }
		Own<isl_val> g{x}; string t; Own<isl_val> y{back("val", x, s, t)}; bool nan = isl_val_is_nan(x); if (nan ? !isl_val_is_nan(y.x) : isl_val_eq(x, y.x) != isl_bool_true) fail("val|" + s, "read back as " + tx(y.x) + " from " + t); note_validated();
		isl_multi_val *mv = isl_multi_val_zero(isl_space_set_tuple_name(isl_space_set_alloc(ctx, 0, 2), isl_dim_set, "V")); mv = isl_multi_val_set_at(mv, v[1], isl_val_copy(x)); Own<isl_multi_val> gm{mv}; Own<isl_multi_val> ym{back("multi_val", mv, s, t)}; if (!nan && isl_multi_val_plain_is_equal(mv, ym.x) != isl_bool_true) fail("multi_val|" + s, "read back as " + tx(ym.x) + " from " + t); note_validated();
	}, [](const vector<uint64_t> &v) { return VAL[v[0]]; });
	static const vector<string> NM = {"a", "A", "_x", "x1", "x'", "x''", "i0", "o0", "e0", "floor_", "S_1_2", "ident"};
	add("identifiers and spaces", {NM.size(), NM.size(), 10}, [](const vector<uint64_t> &v) {
		const string &a = NM[v[0]], &b = NM[v[1]]; string who = a + " " + b + cat(" form ", v[2]), t; if (v[2] == 0) { Own<isl_id> x{isl_id_alloc(ctx, a.c_str(), nullptr)}; Own<isl_id> y{back("id", x.x, a, t)}; if (x.x != y.x) fail("id|" + a, "not the same identifier: " + tx(y.x)); note_validated(); return; }
		isl_space *s = nullptr; if ((a + b).find('\'') != string::npos) return; if (v[2] == 1) { s = isl_space_set_alloc(ctx, 0, 2); s = isl_space_set_tuple_name(s, isl_dim_set, a.c_str()); isl_multi_id *m; { isl_id_list *l = isl_id_list_alloc(ctx, 2); l = isl_id_list_add(l, isl_id_alloc(ctx, a.c_str(), nullptr)); l = isl_id_list_add(l, isl_id_alloc(ctx, b.c_str(), nullptr)); m = isl_multi_id_from_id_list(s, l); } Own<isl_multi_id> g{m}; Own<isl_multi_id> y{back("multi_id", m, who, t)}; if (isl_multi_id_plain_is_equal(m, y.x) != isl_bool_true) fail("multi_id|" + who, "read back as " + tx(y.x)); note_validated(); return; }
		s = isl_space_alloc(ctx, 1, v[2] % 3, v[2] % 2); s = isl_space_set_dim_name(s, isl_dim_param, 0, a.c_str()); if (v[2] & 2) s = isl_space_set_tuple_name(s, isl_dim_in, b.c_str()); if (v[2] & 4) s = isl_space_set_tuple_name(s, isl_dim_out, a.c_str()); if (v[2] % 3 && v[2] & 1) s = isl_space_set_dim_name(s, isl_dim_in, 0, "q"); if (v[2] & 1) s = isl_space_set_dim_name(s, isl_dim_out, 0, "r"); if (v[2] == 5) s = isl_space_wrap(s); if (v[2] == 6) s = isl_space_range_product(isl_space_copy(s), s); if (v[2] == 7) s = isl_space_domain(s); if (v[2] == 9) s = isl_space_params(s);
		Own<isl_space> g{s}; Own<isl_space> y{back("space", s, who, t)}; string d = spdiff(isl_space_copy(s), isl_space_copy(y.x), true); if (!d.empty()) fail("space|" + who, d + " from " + t); note_validated();
	}, [](const vector<uint64_t> &v) { return cat(NM[v[0]], " ", NM[v[1]], " ", v[2]); });
	// ---- unions of several spaces, schedules, schedule constraints, access information ----
	static const vector<string> PARTS = {"A[i] : 0 <= i < n", "B[i, j] : i mod 2 = 0", "[i]", "[i, j, k] : i >= n", "C[]", "[A[i] -> B[j, k]] : i + j = k", "[] : n >= 3", "D[i = 3]", "A[i, j] : i = 2j or j >= 4"};
	static const vector<string> RELS = {"A[i] -> B[i, i + 1] : 0 <= i < n", "A[i] -> A[i + 1]", "B[i, j] -> B[i', j'] : i' > i", "[i] -> [j] : exists (e : i = 2e + j)", "C[] -> [i] : i <= n", "A[i] -> [B[i, j] -> C[]]", "[A[i] -> r[]] -> B[i, j] : j >= 0", "C[] -> C[]", "A[i] -> [floor(i/2)]"};
	add("unions", {2, 1u << PARTS.size()}, [](const vector<uint64_t> &v) {
		const auto &Q = v[0] ? RELS : PARTS; string s; vector<int> in; for (size_t k = 0; k < Q.size(); ++k) if (v[1] >> k & 1) { s += (s.empty() ? "" : "; ") + Q[k]; in.push_back(k); } s = "[n] -> { " + s + " }"; string t, who = s;
		// built from separately read members
		auto text = [&](isl_space *sp) { string r = mc::str(isl_space_to_str(sp)); isl_space_free(sp); return r; };
		if (!v[0]) { isl_union_set *u = isl_union_set_empty(isl_space_set_dim_name(isl_space_params_alloc(ctx, 1), isl_dim_param, 0, "n")); for (int k : in) u = isl_union_set_add_set(u, isl_set_read_from_str(ctx, ("[n] -> { " + Q[k] + " }").c_str())); Own<isl_union_set> g{u}; Own<isl_union_set> y{back("union_set", u, who, t)}; Own<isl_union_set> z{isl_union_set_read_from_str(ctx, s.c_str())}; int parts = isl_union_set_n_set(u);
			for (auto *o : {y.x, z.x}) { if (!o || isl_union_set_n_set(o) != parts) fail("union_set|" + who, "different number of spaces from " + t); isl_set_list *l = isl_union_set_get_set_list(u); for (int k = 0; k < parts; ++k) { Own<isl_set> a{isl_set_list_get_at(l, k)}; Own<isl_set> b{isl_union_set_extract_set(o, isl_set_get_space(a.x))}; int n = isl_set_dim(a.x, isl_dim_all); Window w = Window::cube(n, -2, n > 3 ? 2 : 4); if (bits_set(a.x, w) != bits_set(b.x, w)) fail("union_set|" + who, "different elements in " + text(isl_set_get_space(a.x)) + " from " + t); } isl_set_list_free(l); } }
		else { isl_union_map *u = isl_union_map_empty(isl_space_set_dim_name(isl_space_params_alloc(ctx, 1), isl_dim_param, 0, "n")); for (int k : in) u = isl_union_map_add_map(u, isl_map_read_from_str(ctx, ("[n] -> { " + Q[k] + " }").c_str())); Own<isl_union_map> g{u}; Own<isl_union_map> y{back("union_map", u, who, t)}; Own<isl_union_map> z{isl_union_map_read_from_str(ctx, s.c_str())}; int parts = isl_union_map_n_map(u);
			for (auto *o : {y.x, z.x}) { if (!o || isl_union_map_n_map(o) != parts) fail("union_map|" + who, "different number of spaces from " + t); isl_map_list *l = isl_union_map_get_map_list(u); for (int k = 0; k < parts; ++k) { Own<isl_map> a{isl_map_list_get_at(l, k)}; Own<isl_map> b{isl_union_map_extract_map(o, isl_map_get_space(a.x))}; int n = isl_map_dim(a.x, isl_dim_all); Window w = Window::cube(n, -2, n > 3 ? 2 : 4); if (bits_map(a.x, w) != bits_map(b.x, w)) fail("union_map|" + who, "different pairs in " + text(isl_map_get_space(a.x)) + " from " + t); } isl_map_list_free(l); } }
		note_validated();
	}, [](const vector<uint64_t> &v) { return cat(v[0], " ", v[1]); });
	// YAML: schedule constraints and access information
	static const vector<string> SCD = {"validity", "coincidence", "condition", "conditional_validity", "proximity"};
	add("schedule constraints", {1u << SCD.size(), 4, 2}, [](const vector<uint64_t> &v) {
		string t, who = cat("constraints ", v[0], " ", v[1], " ", v[2]); isl_schedule_constraints *sc = isl_schedule_constraints_on_domain(isl_union_set_read_from_str(ctx, "[n] -> { A[i] : 0 <= i < n; B[i, j] : 0 <= i, j < n }")); auto U = [](const string &s) { return isl_union_map_read_from_str(ctx, s.c_str()); };
		vector<string> R; for (int k = 0; k < 5; ++k) R.push_back("[n] -> { " + RELS[(k * 2 + v[1]) % 3] + (k & 1 ? "; B[i, j] -> A[j]" : "") + cat("; A[i] -> B[i, ", k, "]") + " }");
		if (v[1] & 1) sc = isl_schedule_constraints_set_context(sc, isl_set_read_from_str(ctx, "[n] -> { : n >= 3 }"));
		if (v[0] & 1) sc = isl_schedule_constraints_set_validity(sc, U(R[0])); if (v[0] & 2) sc = isl_schedule_constraints_set_coincidence(sc, U(R[1])); if (v[0] & 4) sc = isl_schedule_constraints_set_conditional_validity(sc, U(R[2]), U(R[3])); if (v[0] & 16) sc = isl_schedule_constraints_set_proximity(sc, U(R[4]));
		Own<isl_schedule_constraints> g{sc}; Own<isl_schedule_constraints> y{nullptr};
		if (v[2]) { isl_printer *p = isl_printer_set_yaml_style(isl_printer_to_str(ctx), ISL_YAML_STYLE_FLOW); t = pr(isl_printer_print_schedule_constraints(p, sc)); note_transition(2); y.x = isl_schedule_constraints_read_from_str(ctx, t.c_str()); if (!y.x) { mc::take_error(); fail("constraints|" + who, "not readable: " + t); } } else y.x = back("constraints", sc, who, t);
		auto eqm = [&](isl_union_map *a, isl_union_map *b, const char *w) { Own<isl_union_map> x{a}, z{b}; if (isl_union_map_is_equal(a, b) != isl_bool_true) fail("constraints|" + who, string(w) + " differs from " + t); };
		eqm(isl_schedule_constraints_get_validity(sc), isl_schedule_constraints_get_validity(y.x), "validity"); eqm(isl_schedule_constraints_get_coincidence(sc), isl_schedule_constraints_get_coincidence(y.x), "coincidence"); eqm(isl_schedule_constraints_get_proximity(sc), isl_schedule_constraints_get_proximity(y.x), "proximity"); eqm(isl_schedule_constraints_get_conditional_validity(sc), isl_schedule_constraints_get_conditional_validity(y.x), "conditional validity"); eqm(isl_schedule_constraints_get_conditional_validity_condition(sc), isl_schedule_constraints_get_conditional_validity_condition(y.x), "condition");
		Own<isl_union_set> d1{isl_schedule_constraints_get_domain(sc)}, d2{isl_schedule_constraints_get_domain(y.x)}; if (isl_union_set_is_equal(d1.x, d2.x) != isl_bool_true) fail("constraints|" + who, "domain differs"); Own<isl_set> c1{isl_schedule_constraints_get_context(sc)}, c2{isl_schedule_constraints_get_context(y.x)}; if (isl_set_is_equal(c1.x, c2.x) != isl_bool_true) fail("constraints|" + who, "context differs");
		note_validated();
	}, [](const vector<uint64_t> &v) { return cat(v[0], ",", v[1], ",", v[2]); });
	// schedule trees: every node type with every band/option attribute, block and flow style
	static const vector<string> TR = {
		"{ domain: \"[n] -> { A[i] : 0 <= i < n <= 3; B[i, j] : 0 <= i, j < n <= 3 }\" }",
		"{ domain: \"[n] -> { A[i] : 0 <= i < n <= 3; B[i, j] : 0 <= i, j < n <= 3 }\", child: { schedule: \"[n] -> [{ A[i] -> [(i)]; B[i, j] -> [(i)] }]\", coincident: [ 1 ], child: { sequence: [ { filter: \"[n] -> { A[i] }\" }, { filter: \"[n] -> { B[i, j] }\", child: { schedule: \"[n] -> [{ B[i, j] -> [(j)] }]\" } } ] } } }",
		"{ domain: \"[n] -> { A[i] : 0 <= i < n <= 3; B[i, j] : 0 <= i, j < n <= 3 }\", child: { set: [ { filter: \"[n] -> { B[i, j] }\", child: { schedule: \"[n] -> L[{ B[i, j] -> [(i)] }, { B[i, j] -> [(i + j)] }]\", permutable: 1, coincident: [ 0, 1 ], options: \"{ separate[0]; atomic[1] }\" } }, { filter: \"[n] -> { A[i] }\", child: { mark: \"m\", child: { schedule: \"[n] -> [{ A[i] -> [(floor(i/2))] }]\", options: \"[n] -> { unroll[0]; isolate[[] -> [x]] : x < n }\" } } } ] } }",
		"{ domain: \"[n] -> { A[i] : 0 <= i < n <= 3; B[i, j] : 0 <= i, j < n <= 3 }\", child: { context: \"[n] -> { [] : n >= 1 }\", child: { schedule: \"[n] -> [{ A[i] -> [(i)]; B[i, j] -> [(i)] }]\", child: { guard: \"[n] -> { [t] : t <= n }\", child: { schedule: \"[n] -> [{ A[i] -> [(0)]; B[i, j] -> [(j)] }]\" } } } } }",
		"{ domain: \"[n] -> { G[i] : 0 <= i < n <= 3 }\", child: { schedule: \"[n] -> [{ G[i] -> [(i)] }]\", child: { contraction: \"[n] -> { A[i] -> G[(i)]; B[i, j] -> G[(i)] }\", expansion: \"[n] -> { G[i] -> A[i]; G[i] -> B[i, j] : 0 <= j < 2 }\", child: { sequence: [ { filter: \"[n] -> { A[i] }\" }, { filter: \"[n] -> { B[i, j] }\", child: { schedule: \"[n] -> [{ B[i, j] -> [(-j)] }]\" } } ] } } } }",
		"{ domain: \"[n] -> { A[i] : 0 <= i < n <= 3; B[i, j] : 0 <= i, j < n <= 3 }\", child: { schedule: \"[n] -> [{ A[i] -> [(i)]; B[i, j] -> [(i)] }]\", child: { extension: \"[n] -> { [t] -> C[t] : 0 <= t <= n - 2 }\", child: { sequence: [ { filter: \"[n] -> { C[i] }\" }, { filter: \"[n] -> { A[i]; B[i, j] }\", child: { set: [ { filter: \"[n] -> { A[i] }\" }, { filter: \"[n] -> { B[i, j] }\", child: { mark: \"inner mark\", child: { schedule: \"[n] -> [{ B[i, j] -> [(j)] }]\" } } } ] } } ] } } } }"};
	add("schedules", {TR.size(), 2}, [](const vector<uint64_t> &v) {
		Own<isl_schedule> s{isl_schedule_read_from_str(ctx, TR[v[0]].c_str())}; if (!s.x) fail("schedule", TR[v[0]]); string t, who = cat("tree ", v[0], " style ", v[1]); Own<isl_schedule> y{nullptr}; if (v[1]) { t = pr(isl_printer_print_schedule(isl_printer_set_yaml_style(isl_printer_to_str(ctx), ISL_YAML_STYLE_BLOCK), s.x)); note_transition(2); y.x = isl_schedule_read_from_str(ctx, t.c_str()); if (!y.x) { mc::take_error(); fail("schedule|" + who, "not readable: " + t); } } else y.x = back("schedule", s.x, who, t);
		isl_space *ps = isl_space_set_dim_name(isl_space_params_alloc(ctx, 1), isl_dim_param, 0, "n"); st::Reader rd(ps); st::Node a = rd.read(s.x), b = rd.read(y.x); std::function<void(const st::Node &, const st::Node &, string)> cmp = [&](const st::Node &p, const st::Node &q, string path) {
			auto bad = [&](const string &m) { fail("schedule|" + who, path + ": " + m + " from " + t); }; if (p.type != q.type || p.ch.size() != q.ch.size()) bad("shape"); if (p.mark != q.mark) bad("mark"); if (p.perm != q.perm || p.coin != q.coin || p.lt != q.lt) bad("band properties");
			auto pts = [&](const Pts &x, const Pts &z) { int n = x.np + x.ni + x.no; if (n != z.np + z.ni + z.no) bad("dimensions"); Window w = Window::cube(n, -1, n > 3 ? 2 : 4); if (bits(x, w) != bits(z, w)) bad("different elements"); };
			if (p.set.size() != q.set.size()) bad("spaces"); for (auto &k : p.set) { if (!q.set.count(k.first)) bad("misses " + k.first); pts(k.second, q.set.at(k.first)); } if (p.um.size() != q.um.size() || p.contr.size() != q.contr.size()) bad("relation"); for (auto *ml : {&p.um, &p.contr}) for (auto &k : *ml) { bool f = false; for (auto &z : ml == &p.um ? q.um : q.contr) if (z.in == k.in && z.out == k.out && z.ni == k.ni && z.no == k.no) { f = true; pts(k.p, z.p); } if (!f) bad("relation misses a part"); } if (p.mem.size() != q.mem.size()) bad("members");
			for (size_t m = 0; m < p.mem.size(); ++m) { if (p.mem[m].size() != q.mem[m].size()) bad("member"); for (auto &k : p.mem[m]) { auto it = q.mem[m].find(k.first); if (it == q.mem[m].end()) bad("member misses " + k.first); int n = k.second.p.empty() ? 0 : k.second.p[0].first.np + k.second.p[0].first.ni + k.second.p[0].first.no; Window w = Window::cube(n, -2, 4); for (int z = 0; z < w.count; ++z) { Rat r1, r2; int e1 = eval(k.second, w.at(z), r1), e2 = eval(it->second, w.at(z), r2); if (e1 != e2 || (e1 && r1 != r2)) bad("member value"); } } }
			if (p.type == isl_schedule_node_context || p.type == isl_schedule_node_guard) pts(p.ctx, q.ctx); for (size_t k = 0; k < p.ch.size(); ++k) cmp(p.ch[k], q.ch[k], path + cat("/", k)); }; cmp(a, b, "@"); note_validated();
		// band options
		auto opts = [](isl_schedule *z) { vector<string> r; isl_schedule_foreach_schedule_node_top_down(z, [](isl_schedule_node *n, void *u) -> isl_bool { if (isl_schedule_node_get_type(n) == isl_schedule_node_band) { isl_union_set *o = isl_schedule_node_band_get_ast_build_options(n); ((vector<string> *) u)->push_back(mc::str(isl_union_set_to_str(o))); isl_union_set_free(o); } return isl_bool_true; }, &r); return r; }; auto oa = opts(s.x), ob = opts(y.x); if (oa.size() != ob.size()) fail("schedule|" + who, "options"); for (size_t k = 0; k < oa.size(); ++k) { Own<isl_union_set> x{isl_union_set_read_from_str(ctx, oa[k].c_str())}, z{isl_union_set_read_from_str(ctx, ob[k].c_str())}; if (isl_union_set_is_equal(x.x, z.x) != isl_bool_true) fail("schedule|" + who, "options " + ob[k] + " instead of " + oa[k]); }
	}, [](const vector<uint64_t> &v) { return cat(v[0], ",", v[1]); });
	h.bounds["spaces"] = cat("six alphabets of small integer sets (1-4 variables, 0-2 of them parameters, unions, strides, nested floors) under ", SD.size(), " naming/nesting decorations and as relations with every split under ", MD.size() - 1, " decorations; ", AFFS.size(), " affine forms in all pairs, ", DOMS.size(), " domains, ", TUP.size(), " tuples; ", VAL.size(), " values; all subsets of ", PARTS.size(), " parts of a union; schedules and schedule constraints in block and flow style");
	return mc::run(argc, argv, h);
}
