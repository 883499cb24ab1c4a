// C28: exact integer matrix and vector algebra. Every small integer matrix, every operation, reference arithmetic on __int128.
#include "common.hpp"
#include <isl/mat.h>
#include <isl/vec.h>
#include <numeric>
typedef vector<vector<I>> M; typedef vector<I> V1;
struct Dim { int r, c; };
static I gcdI(I a, I b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { I t = a % b; a = b; b = t; } return a; }
static string sh(const M &m, int c) { string s = cat(m.size(), "x", c, "["); for (auto &r : m) { for (auto x : r) s += S(x) + " "; s += "; "; } return s + "]"; }
static string sh(const V1 &v) { string s = "("; for (auto x : v) s += S(x) + " "; return s + ")"; }
static isl_val *toval(isl_ctx *c, I x) { return isl_val_read_from_str(c, S(x).c_str()); }
static isl_mat *tomat(isl_ctx *c, const M &m, int nc) { isl_mat *r = isl_mat_alloc(c, m.size(), nc); for (size_t i = 0; i < m.size(); ++i) for (int j = 0; j < nc; ++j) { I x = m[i][j]; if (x > -1000000 && x < 1000000) r = isl_mat_set_element_si(r, i, j, (int) x); else r = isl_mat_set_element_val(r, i, j, toval(c, x)); } return r; }
static isl_vec *tovec(isl_ctx *c, const V1 &v) { isl_vec *r = isl_vec_alloc(c, v.size()); for (size_t i = 0; i < v.size(); ++i) r = isl_vec_set_element_si(r, i, (int) v[i]); return r; }
static I vi(isl_val *v) { if (!v || isl_val_is_int(v) != isl_bool_true) { isl_val_free(v); fail("value", "not an integer"); } char *s = isl_val_to_str(v); I x = 0; bool neg = false; for (char *p = s; *p; ++p) if (*p == '-') neg = true; else x = x * 10 + (*p - '0'); free(s); isl_val_free(v); return neg ? -x : x; }
static M rd(isl_mat *m, int &nc) { int nr = isl_mat_rows(m); nc = isl_mat_cols(m); M r(nr, V1(nc)); for (int i = 0; i < nr; ++i) for (int j = 0; j < nc; ++j) r[i][j] = vi(isl_mat_get_element_val(m, i, j)); return r; }
static V1 rd(isl_vec *v) { V1 r(isl_vec_size(v)); for (size_t i = 0; i < r.size(); ++i) r[i] = vi(isl_vec_get_element_val(v, i)); return r; }
static M mul(const M &a, const M &b, int nc) { M r(a.size(), V1(nc, 0)); for (size_t i = 0; i < a.size(); ++i) for (int j = 0; j < nc; ++j) for (size_t k = 0; k < b.size(); ++k) r[i][j] += a[i][k] * b[k][j]; return r; }
static M tr(const M &a, int nc) { M r(nc, V1(a.size())); for (size_t i = 0; i < a.size(); ++i) for (int j = 0; j < nc; ++j) r[j][i] = a[i][j]; return r; }
static M ident(int n) { M r(n, V1(n, 0)); for (int i = 0; i < n; ++i) r[i][i] = 1; return r; }
static I det(M a) { int n = a.size(); if (n == 0) return 1; if (n == 1) return a[0][0]; I d = 0; for (int j = 0; j < n; ++j) { if (!a[0][j]) continue; M b; for (int i = 1; i < n; ++i) { V1 r; for (int k = 0; k < n; ++k) if (k != j) r.push_back(a[i][k]); b.push_back(r); } d += (j & 1 ? -1 : 1) * a[0][j] * det(b); } return d; }
static int rank(M a, int nc) { int r = 0; for (int c = 0; c < nc && r < (int) a.size(); ++c) { int p = -1; for (size_t i = r; i < a.size(); ++i) if (a[i][c]) { p = i; break; } if (p < 0) continue; std::swap(a[r], a[p]); for (size_t i = r + 1; i < a.size(); ++i) if (a[i][c]) { I x = a[r][c], y = a[i][c], g = gcdI(x, y); x /= g; y /= g; I h = 0; for (int j = 0; j < nc; ++j) { a[i][j] = a[i][j] * x - a[r][j] * y; h = gcdI(h, a[i][j]); } if (h > 1) for (auto &z : a[i]) z /= h; } ++r; } return r; }
// gcd of the maximal minors of the rows
static I minors(const M &a, int nc) { int k = a.size(); if (k > nc) return 0; I g = 0; vector<int> s(k); std::function<void(int, int)> go = [&](int p, int f) { if (p == k) { M b(k, V1(k)); for (int i = 0; i < k; ++i) for (int j = 0; j < k; ++j) b[i][j] = a[i][s[j]]; g = gcdI(g, det(b)); return; } for (int c = f; c < nc; ++c) { s[p] = c; go(p + 1, c + 1); } }; go(0, 0); return g; }
static M cat2(const M &a, const M &b) { M r = a; r.insert(r.end(), b.begin(), b.end()); return r; }
struct T {   // one call site: consumes the result, compares it with an exact expectation
	isl_ctx *c; string in;
	void err() { isl_ctx_reset_error(c); }
	M get(const string &op, isl_mat *m, int r, int cc) { if (!m) { err(); fail("mat|" + op, op + " of " + in + " fails"); } int nc; M x = rd(m, nc); isl_mat_free(m); mc::note_validated(); mc::note_transition(); if ((r >= 0 && (int) x.size() != r) || (cc >= 0 && nc != cc)) fail("mat|" + op, op + " of " + in + cat(" has dimensions ", x.size(), "x", nc)); return x; }
	void is(const string &op, isl_mat *m, const M &e, int nc) { M x = get(op, m, e.size(), nc); if (x != e) fail("mat|" + op, op + " of " + in + " = " + sh(x, nc) + ", expected " + sh(e, nc)); }
	void is(const string &op, isl_vec *v, const V1 &e) { if (!v) { err(); fail("mat|" + op, op + " of " + in + " fails"); } V1 x = rd(v); isl_vec_free(v); mc::note_validated(); mc::note_transition(); if (x != e) fail("mat|" + op, op + " of " + in + " = " + sh(x) + ", expected " + sh(e)); }
	void ok(const string &op, bool b, const string &why) { mc::note_validated(); if (!b) fail("mat|" + op, op + " of " + in + ": " + why); }
	void none(const string &op, isl_mat *m) { mc::note_transition(); if (m) { isl_mat_free(m); fail("mat|" + op, op + " of " + in + " accepts an argument out of its domain"); } err(); }
};
static void unary(isl_ctx *ctx, const M &a, int nc, bool shared) {
	int nr = a.size(); T t{ctx, sh(a, nc)}; isl_mat *keep = tomat(ctx, a, nc); struct G { isl_mat *&k; ~G() { isl_mat_free(k); } } guard{keep};
	mc::note_state(mc::hash_str(t.in));
	auto in = [&]() { return shared ? isl_mat_copy(keep) : tomat(ctx, a, nc); };
	int rk = rank(a, nc);
	t.ok("rows", isl_mat_rows(keep) == nr && isl_mat_cols(keep) == nc, "dimensions");
	t.is("transpose", isl_mat_transpose(in()), tr(a, nc), nr);
	t.ok("rank", isl_mat_rank(keep) == rk, cat("rank ", (int) isl_mat_rank(keep), ", expected ", rk));
	{ int k = 0; for (; k < nc; ++k) { bool z = true; for (auto &r : a) if (r[k]) z = false; if (z) break; } t.ok("initial_non_zero_cols", isl_mat_initial_non_zero_cols(keep) == k, cat(isl_mat_initial_non_zero_cols(keep), ", expected ", k)); }
	for (int neg = 0; neg < 2; ++neg) {
		isl_mat *U = nullptr, *Q = nullptr; isl_mat *H = isl_mat_left_hermite(in(), neg, &U, &Q); M h, u, q;
		{ if (!H) { isl_mat_free(U); isl_mat_free(Q); } h = t.get("left_hermite", H, nr, nc); u = t.get("left_hermite(U)", U, nc, nc); q = t.get("left_hermite(Q)", Q, nc, nc); }
		string d = cat("neg ", neg, ": H ") + sh(h, nc) + " U " + sh(u, nc) + " Q " + sh(q, nc);
		t.ok("left_hermite", mul(a, u, nc) == h && mul(h, q, nc) == a && mul(u, q, nc) == ident(nc), d);
		int col = 0; bool good = true; for (int i = 0; i < nr; ++i) { for (int j = col + 1; j < nc; ++j) if (h[i][j]) good = false; if (col < nc && h[i][col]) { I p = h[i][col]; if (p < 0) good = false; for (int j = 0; j < col; ++j) if (neg ? h[i][j] > 0 || h[i][j] <= -p : h[i][j] < 0 || h[i][j] >= p) good = false; ++col; } }
		t.ok("left_hermite", good && col == rk, "not in echelon form: " + d);
		t.is("left_hermite(H only)", isl_mat_left_hermite(in(), neg, nullptr, nullptr), h, nc);
		U = nullptr; isl_mat_free(isl_mat_left_hermite(in(), neg, &U, nullptr)); t.is("left_hermite(U only)", U, u, nc);
	}
	{ M k = t.get("right_kernel", isl_mat_right_kernel(in()), nc, nc - rk); M z = mul(a, k, nc - rk); bool zero = true; for (auto &r : z) for (auto x : r) if (x) zero = false; t.ok("right_kernel", zero && minors(tr(k, nc - rk), nc) == 1, "not a basis of the integer kernel: " + sh(k, nc - rk)); }
	{ M b = t.get("row_basis", isl_mat_row_basis(in()), rk, nc); t.ok("row_basis", rank(b, nc) == rk && rank(cat2(a, b), nc) == rk, "not a basis of the row space: " + sh(b, nc)); }
	if (nr >= 1 && rk == nr) { M x = t.get("right_inverse", isl_mat_right_inverse(in()), nc, -1); M p = mul(a, x, x.empty() ? 0 : x[0].size()); bool good = true; I k = p[0].size() >= 1 ? p[0][0] : 0; if (k <= 0 || (int) p[0].size() < nr) good = false; for (int i = 0; i < nr && good; ++i) for (int j = 0; j < (int) p[0].size(); ++j) if (p[i][j] != (i == j ? k : 0)) good = false; t.ok("right_inverse", good, "product is " + sh(p, p[0].size())); }
	if (nr == nc && nr >= 1) {
		if (rk == nr) { M x = t.get("inverse_product", isl_mat_inverse_product(in(), isl_mat_identity(ctx, nr)), nr, nr), p = mul(a, x, nr); bool good = p[0][0] > 0; for (int i = 0; i < nr; ++i) for (int j = 0; j < nr; ++j) if (p[i][j] != (i == j ? p[0][0] : 0)) good = false; t.ok("inverse_product", good, "product is " + sh(p, nr)); }
		else t.none("inverse_product", isl_mat_inverse_product(in(), isl_mat_identity(ctx, nr)));
		for (int k = 0; k <= nr; ++k) { M top(a.begin(), a.begin() + k); if (minors(top, nc) == 1) { M x = t.get("unimodular_complete", isl_mat_unimodular_complete(in(), k), nr, nc); I d = det(x); t.ok("unimodular_complete", (d == 1 || d == -1) && M(x.begin(), x.begin() + k) == top, cat(k, " rows: ") + sh(x, nc)); } else if (nr != nc) t.none("unimodular_complete", isl_mat_unimodular_complete(in(), k)); }
	} else if (nr != nc) t.none("unimodular_complete", isl_mat_unimodular_complete(in(), 0));
	{ M e(nr + 1, V1(nc + 1, 0)); e[0][0] = 1; for (int i = 0; i < nr; ++i) for (int j = 0; j < nc; ++j) e[i + 1][j + 1] = a[i][j]; t.is("lin_to_aff", isl_mat_lin_to_aff(in()), e, nc + 1); }
	{ I g = 0; for (auto &r : a) for (auto x : r) g = gcdI(g, x); M e = a; if (g > 1) for (auto &r : e) for (auto &x : r) x /= g; t.is("normalize", isl_mat_normalize(in()), e, nc); for (int i = 0; i < nr; ++i) { I h = 0; for (auto x : a[i]) h = gcdI(h, x); M f = a; if (h > 1) for (auto &x : f[i]) x /= h; t.is("normalize_row", isl_mat_normalize_row(in(), i), f, nc); } }
	for (int p = 0; p <= nc; ++p) for (int n = 0; n <= 2; ++n) {
		M e = a; for (auto &r : e) r.insert(r.begin() + p, n, 0); t.is(cat("insert_zero_cols(", p, ",", n, ")"), isl_mat_insert_zero_cols(in(), p, n), e, nc + n); if (p == nc) t.is("add_zero_cols", isl_mat_add_zero_cols(in(), n), e, nc + n);
		{ isl_mat *m = isl_mat_insert_cols(in(), p, n); int c2; if (!m) { t.err(); fail("mat|insert_cols", "fails on " + t.in); } M x = rd(m, c2); isl_mat_free(m); bool good = c2 == nc + n && (int) x.size() == nr; for (auto &r : x) r.erase(r.begin() + p, r.begin() + p + n); t.ok("insert_cols", good && x == a, "existing entries change"); }
		if (p + n <= nc) { M f = a; for (auto &r : f) r.erase(r.begin() + p, r.begin() + p + n); t.is(cat("drop_cols(", p, ",", n, ")"), isl_mat_drop_cols(in(), p, n), f, nc - n);
			for (int d = 0; d + n <= nc; ++d) { M g = a; for (size_t i = 0; i < a.size(); ++i) { V1 mv(a[i].begin() + p, a[i].begin() + p + n); g[i] = f[i]; g[i].insert(g[i].begin() + d, mv.begin(), mv.end()); } t.is(cat("move_cols(", d, ",", p, ",", n, ")"), isl_mat_move_cols(in(), d, p, n), g, nc); } }
	}
	t.none("drop_cols", isl_mat_drop_cols(in(), nc, 1)); t.none("insert_cols", isl_mat_insert_cols(in(), nc + 1, 1)); t.none("drop_rows", isl_mat_drop_rows(in(), nr, 1)); t.none("insert_rows", isl_mat_insert_rows(in(), nr + 1, 1));
	for (int p = 0; p <= nr; ++p) for (int n = 0; n <= 2; ++n) {
		M e = a; e.insert(e.begin() + p, n, V1(nc, 0)); t.is(cat("insert_zero_rows(", p, ",", n, ")"), isl_mat_insert_zero_rows(in(), p, n), e, nc); if (p == nr) { t.is("add_zero_rows", isl_mat_add_zero_rows(in(), n), e, nc); isl_mat *m = isl_mat_add_rows(in(), n); M x = t.get("add_rows", m, nr + n, nc); x.resize(nr); t.ok("add_rows", x == a, "existing entries change"); }
		{ M x = t.get("insert_rows", isl_mat_insert_rows(in(), p, n), nr + n, nc); x.erase(x.begin() + p, x.begin() + p + n); t.ok("insert_rows", x == a, "existing entries change"); }
		if (p + n <= nr) { M f = a; f.erase(f.begin() + p, f.begin() + p + n); t.is(cat("drop_rows(", p, ",", n, ")"), isl_mat_drop_rows(in(), p, n), f, nc); }
	}
	for (int i = 0; i < nc; ++i) for (int j = 0; j < nc; ++j) { M e = a; for (auto &r : e) std::swap(r[i], r[j]); t.is("swap_cols", isl_mat_swap_cols(in(), i, j), e, nc); e = a; for (auto &r : e) r[i] += r[j]; isl_mat *m = tomat(ctx, a, nc); isl_mat_col_add(m, i, j); t.is("col_add", m, e, nc); }
	for (int i = 0; i < nr; ++i) { for (int j = 0; j < nr; ++j) { M e = a; std::swap(e[i], e[j]); t.is("swap_rows", isl_mat_swap_rows(in(), i, j), e, nc); } for (int j = 0; j < nc; ++j) { M e = a; e[i][j] = -7; t.is("set_element_si", isl_mat_set_element_si(in(), i, j, -7), e, nc); t.is("set_element_val", isl_mat_set_element_val(in(), i, j, isl_val_int_from_si(ctx, -7)), e, nc); } }
	for (auto rc : {Dim{-1, 0}, Dim{0, -1}, Dim{nr, 0}, Dim{0, nc}}) { isl_val *v = isl_mat_get_element_val(keep, rc.r, rc.c); t.err(); t.ok("get_element_val", !v, cat("position ", rc.r, ",", rc.c, " accepted")); t.none("set_element_si", isl_mat_set_element_si(in(), rc.r, rc.c, 1)); }
	if (nc) { isl_val *h = isl_val_read_from_str(ctx, "1/2"); if (nr) t.none("set_element_val(1/2)", isl_mat_set_element_val(in(), 0, 0, h)); else isl_val_free(h); }
	{ M x = t.get("extend", isl_mat_extend(in(), nr + 1, nc + 2), nr + 1, nc + 2); x.resize(nr); for (auto &r : x) r.resize(nc); t.ok("extend", x == a, "existing entries change"); }
	{ isl_mat *d = tomat(ctx, a, nc); isl_bool b = isl_mat_is_equal(keep, d); isl_mat_free(d); t.ok("is_equal", b == isl_bool_true, "not equal to itself"); }
	int n2; M now = rd(keep, n2); t.ok("argument", now == a && n2 == nc, "the caller's matrix changed to " + sh(now, n2));
}
int main(int argc, char **argv) {
	mc::Harness h; h.property = "C28"; bool th = tier_thorough(argc, argv); static isl_ctx *ctx; ctx = nullptr;
	h.setup = []() { ctx = isl_ctx_alloc(); isl_options_set_on_error(ctx, ISL_ON_ERROR_CONTINUE); };
	h.teardown = []() { isl_ctx_reset_error(ctx); isl_ctx_free(ctx); };
	auto add = [&](const string &n, mc::Radix r, std::function<void(const vector<uint64_t> &)> f, std::function<string(const vector<uint64_t> &)> d) { h.add(mc::SpaceDef(n, r.size(), [=](uint64_t i) { f(r.at(i)); }, [=](uint64_t i) { return n + " " + d(r.at(i)); })); };
	auto entry = [](int r, int c, const V1 &al) { return [r, c, al](uint64_t i) { M a(r, V1(c)); for (auto &row : a) for (auto &x : row) { x = al[i % al.size()]; i /= al.size(); } return a; }; };
	string bd;
	for (int r = 0; r <= 3; ++r) for (int c = 0; c <= 3 + (r == 2 || r == 1); ++c) {
		int n = r * c; V1 al = n <= 4 ? V1{-3, -2, -1, 0, 1, 2, 3} : n <= 6 ? (th ? V1{-3, -2, -1, 0, 1, 2, 3} : V1{-2, 0, 1, 3}) : n <= 8 ? (th ? V1{-2, -1, 0, 1, 3} : V1{-1, 0, 2}) : (th ? V1{-2, 0, 1, 3} : V1{-1, 0, 1}); uint64_t cnt = 1; for (int k = 0; k < n; ++k) cnt *= al.size();
		auto mkm = entry(r, c, al); add(cat("mat", r, "x", c), {cnt, 2}, [=](const vector<uint64_t> &i) { unary(ctx, mkm(i[0]), c, i[1]); }, [=](const vector<uint64_t> &i) { return sh(mkm(i[0]), c) + (i[1] ? " shared" : ""); }); bd += cat(r, "x", c, ":", cnt, " ");
	}
	{ V1 al{0, 1, -6, (I) 1 << 33, -((I) 3 << 32) + 1, 1000000007}; auto mkm = entry(2, 2, al); add("large2x2", {1296, 2}, [=](const vector<uint64_t> &i) { unary(ctx, mkm(i[0]), 2, i[1]); }, [=](const vector<uint64_t> &i) { return sh(mkm(i[0]), 2); }); }
	h.bounds["matrices"] = bd + "(every matrix over a small alphabet), 2x2 with entries beyond 32 bits; every operation and position";
	// pairs
	static vector<std::pair<M, int>> P; for (int r = 0; r <= 2; ++r) for (int c = 0; c <= 2; ++c) { V1 al = r * c == 4 ? (th ? V1{-2, 0, 1, 3} : V1{-1, 0, 2}) : V1{-2, 0, 1, 3}; uint64_t cnt = 1; for (int k = 0; k < r * c; ++k) cnt *= al.size(); auto f = entry(r, c, al); for (uint64_t k = 0; k < cnt; ++k) P.push_back({f(k), c}); }
	for (uint64_t k = 0; k < 64; ++k) { P.push_back({entry(2, 3, {0, 1})(k), 3}); P.push_back({entry(3, 2, {-1, 2})(k), 2}); }
	add("pairs", {P.size(), P.size()}, [](const vector<uint64_t> &i) {
		auto &[a, ca] = P[i[0]]; auto &[b, cb] = P[i[1]]; int ra = a.size(), rb = b.size(); T t{ctx, sh(a, ca) + " and " + sh(b, cb)}; auto A = [&, &a = a, &ca = ca]() { return tomat(ctx, a, ca); }; auto B = [&, &b = b, &cb = cb]() { return tomat(ctx, b, cb); };
		mc::note_state(mc::hash_str(t.in));
		if (ca == rb) t.is("product", isl_mat_product(A(), B()), mul(a, b, cb), cb); else t.none("product", isl_mat_product(A(), B()));
		if (ca == cb) {
			t.is("concat", isl_mat_concat(A(), B()), cat2(a, b), ca);
			isl_mat *x = A(), *y = B(); isl_bool ind = isl_mat_has_linearly_independent_rows(x, y); t.ok("has_linearly_independent_rows", ind == (isl_bool) (rank(a, ca) + rank(b, ca) == rank(cat2(a, b), ca)), cat((int) ind)); isl_mat_free(x); isl_mat_free(y);
			int all = rank(cat2(a, b), ca), r1 = rank(a, ca); M e = t.get("row_basis_extension", isl_mat_row_basis_extension(A(), B()), all - r1, ca); t.ok("row_basis_extension", rank(cat2(a, e), ca) == all && rank(cat2(cat2(a, b), e), ca) == all, "does not extend to the sum: " + sh(e, ca));
		} else t.none("concat", isl_mat_concat(A(), B()));
		{ M e(ra + rb, V1(ca + cb, 0)); for (int p = 0; p < ra; ++p) for (int q = 0; q < ca; ++q) e[p][q] = a[p][q]; for (int p = 0; p < rb; ++p) for (int q = 0; q < cb; ++q) e[ra + p][ca + q] = b[p][q]; t.is("diagonal", isl_mat_diagonal(A(), B()), e, ca + cb); }
		{ isl_mat *x = A(), *y = B(); isl_bool e = isl_mat_is_equal(x, y); isl_mat_free(x); isl_mat_free(y); t.ok("is_equal", e == (isl_bool) (a == b && ca == cb), cat((int) e)); }
		if (ra == ca && ra == rb && ra >= 1 && rank(a, ca) == ra) { M x = t.get("inverse_product", isl_mat_inverse_product(A(), B()), rb, cb), p = mul(a, x, cb); I num = 0, den = 0; bool good = true; for (int r = 0; r < rb; ++r) for (int c = 0; c < cb; ++c) { if (!b[r][c] && p[r][c]) good = false; if (b[r][c]) { if (p[r][c] % b[r][c] || p[r][c] / b[r][c] <= 0) good = false; else { if (den++ && num != p[r][c] / b[r][c]) good = false; num = p[r][c] / b[r][c]; } } } t.ok("inverse_product", good, sh(x, cb)); }
		// affine matrices: row 0 is (denominator, 0 ...)
		if (ra >= 1 && ra == rb && ca >= 1 && cb >= 1) { for (I d1 = 1; d1 <= 3; ++d1) for (I d2 = 1; d2 <= 2; ++d2) { M x = a, y = b; x[0].assign(ca, 0); x[0][0] = d1; y[0].assign(cb, 0); y[0][0] = d2; isl_mat *l = tomat(ctx, x, ca), *r = tomat(ctx, y, cb), *kl = isl_mat_copy(l), *kr = isl_mat_copy(r); I D = d1 / gcdI(d1, d2) * d2; M e(ra, V1(ca + cb - 1, 0)); e[0][0] = D; for (int p = 1; p < ra; ++p) { e[p][0] = D / d1 * x[p][0] + D / d2 * y[p][0]; for (int q = 1; q < ca; ++q) e[p][q] = D / d1 * x[p][q]; for (int q = 1; q < cb; ++q) e[p][ca + q - 1] = D / d2 * y[p][q]; } t.is("aff_direct_sum", isl_mat_aff_direct_sum(l, r), e, ca + cb - 1); t.is("aff_direct_sum argument", kl, x, ca); t.is("aff_direct_sum argument", kr, y, cb); } }
	}, [](const vector<uint64_t> &i) { return sh(P[i[0]].first, P[i[0]].second) + " and " + sh(P[i[1]].first, P[i[1]].second); });
	// vectors
	static vector<V1> Vs; for (int n = 0; n <= (th ? 4 : 3); ++n) { V1 al{-4, -3, 0, 1, 2, 6}; uint64_t cnt = 1; for (int k = 0; k < n; ++k) cnt *= al.size(); for (uint64_t k = 0; k < cnt; ++k) { V1 v(n); uint64_t q = k; for (auto &x : v) { x = al[q % al.size()]; q /= al.size(); } Vs.push_back(v); } }
	add("vec", {Vs.size(), 2}, [](const vector<uint64_t> &i) {
		const V1 &v = Vs[i[0]]; int n = v.size(); T t{ctx, sh(v)}; isl_vec *keep = tovec(ctx, v); struct G { isl_vec *k; ~G() { isl_vec_free(k); } } g{keep}; auto in = [&]() { return i[1] ? isl_vec_copy(keep) : tovec(ctx, v); }; mc::note_state(mc::hash_str(t.in));
		auto none = [&](const string &op, isl_vec *r) { if (r) { isl_vec_free(r); fail("mat|vec_" + op, op + " of " + t.in + " accepts a position out of range"); } t.err(); };
		V1 e = v; for (auto &x : e) x = -x; t.is("vec_neg", isl_vec_neg(in()), e); t.is("vec_clr", isl_vec_clr(in()), V1(n, 0)); t.is("vec_set_si", isl_vec_set_si(in(), -5), V1(n, -5)); t.is("vec_set_val", isl_vec_set_val(in(), isl_val_int_from_si(ctx, 9)), V1(n, 9)); t.is("vec_zero", isl_vec_zero(ctx, n), V1(n, 0));
		e = v; std::sort(e.begin(), e.end()); t.is("vec_sort", isl_vec_sort(in()), e);
		I h = 0; for (auto x : v) h = gcdI(h, x); e = v; if (h > 1) for (auto &x : e) x /= h; t.is("vec_normalize", isl_vec_normalize(in()), e);
		if (n >= 1 && v[0] > 0) { e = v; for (auto &x : e) { I d = v[0]; x = x >= 0 ? (x + d - 1) / d : -((-x) / d); } e[0] = 1; t.is("vec_ceil", isl_vec_ceil(in()), e); }
		for (int p = 0; p <= n; ++p) for (int k = 0; k <= 2; ++k) { e = v; e.insert(e.begin() + p, k, 0); t.is("vec_insert_zero_els", isl_vec_insert_zero_els(in(), p, k), e); isl_vec *x = isl_vec_insert_els(in(), p, k); V1 y = x ? rd(x) : V1(); isl_vec_free(x); if ((int) y.size() == n + k) y.erase(y.begin() + p, y.begin() + p + k); t.ok("vec_insert_els", y == v, "existing elements change"); if (p == n) { x = isl_vec_add_els(in(), k); y = x ? rd(x) : V1(); isl_vec_free(x); t.ok("vec_add_els", (int) y.size() == n + k && V1(y.begin(), y.begin() + n) == v, "existing elements change"); t.is("vec_zero_extend", isl_vec_zero_extend(in(), n + k), e); x = isl_vec_extend(in(), n + k); y = x ? rd(x) : V1(); isl_vec_free(x); t.ok("vec_extend", (int) y.size() == n + k && V1(y.begin(), y.begin() + n) == v, "existing elements change"); }
			if (p + k <= n) { V1 f = v; f.erase(f.begin() + p, f.begin() + p + k); t.is("vec_drop_els", isl_vec_drop_els(in(), p, k), f); for (int d = 0; d + k <= n; ++d) { V1 q = f; q.insert(q.begin() + d, v.begin() + p, v.begin() + p + k); t.is(cat("vec_move_els(", d, ",", p, ",", k, ")"), isl_vec_move_els(in(), d, p, k), q); } } }
		none("drop_els", isl_vec_drop_els(in(), n, 1)); none("insert_els", isl_vec_insert_els(in(), n + 1, 1)); none("set_element_si", isl_vec_set_element_si(in(), n, 1)); none("set_element_si", isl_vec_set_element_si(in(), -1, 1)); { isl_val *x = isl_vec_get_element_val(keep, n); t.err(); t.ok("vec_get_element_val", !x, "position out of range accepted"); }
		for (int p = 0; p < n; ++p) { e = v; e[p] = 11; t.is("vec_set_element_si", isl_vec_set_element_si(in(), p, 11), e); t.is("vec_set_element_val", isl_vec_set_element_val(in(), p, isl_val_int_from_si(ctx, 11)), e); }
		{ isl_mat *m = isl_mat_from_row_vec(in()); t.is("from_row_vec", m, M{v}, n); }
		t.is("vec argument", isl_vec_copy(keep), v);
	}, [](const vector<uint64_t> &i) { return sh(Vs[i[0]]); });
	static vector<V1> Ws; for (auto &v : Vs) { bool s = true; for (auto x : v) if (x == -4 || x == 1) s = false; if (s && v.size() <= 3) Ws.push_back(v); }
	add("vecpairs", {Ws.size(), Ws.size()}, [](const vector<uint64_t> &i) { const V1 &v = Ws[i[0]], &w = Ws[i[1]]; T t{ctx, sh(v) + sh(w)}; isl_vec *a = tovec(ctx, v), *b = tovec(ctx, w); isl_bool e = isl_vec_is_equal(a, b); int bad = 0; for (size_t p = 0; p < std::min(v.size(), w.size()); ++p) { int c = isl_vec_cmp_element(a, b, p); if ((c > 0) - (c < 0) != (v[p] > w[p]) - (v[p] < w[p])) bad = 1; }
		V1 x = v; x.insert(x.end(), w.begin(), w.end()); V1 s; if (v.size() == w.size()) for (size_t p = 0; p < v.size(); ++p) s.push_back(v[p] + w[p]); isl_vec *sum = isl_vec_add(isl_vec_copy(a), isl_vec_copy(b)); isl_vec *cc = isl_vec_concat(a, b);
		if (v.size() == w.size()) t.is("vec_add", sum, s); else { isl_ctx_reset_error(ctx); if (sum) { isl_vec_free(sum); isl_vec_free(cc); fail("mat|vec_add", "vectors of different size added"); } } t.is("vec_concat", cc, x); t.ok("vec_is_equal", e == (isl_bool) (v == w), cat((int) e)); t.ok("vec_cmp_element", !bad, "wrong sign"); mc::note_state(mc::hash_str(t.in)); }, [](const vector<uint64_t> &i) { return sh(Ws[i[0]]) + sh(Ws[i[1]]); });
	add("matvec", {P.size(), Ws.size()}, [](const vector<uint64_t> &i) { auto &[a, ca] = P[i[0]]; const V1 &v = Ws[i[1]]; int n = v.size(), ra = a.size(); T t{ctx, sh(a, ca) + sh(v)}; auto A = [&, &a = a, &ca = ca]() { return tomat(ctx, a, ca); }; M col(n, V1(1)); for (int k = 0; k < n; ++k) col[k][0] = v[k];
		auto none = [&](const string &op, isl_vec *r) { if (r) { isl_vec_free(r); fail("mat|" + op, op + " of " + t.in + " accepts mismatched sizes"); } t.err(); };
		if (ca == n) { M p = mul(a, col, 1); V1 e; for (auto &r : p) e.push_back(r[0]); t.is("mat_vec_product", isl_mat_vec_product(A(), tovec(ctx, v)), e); t.is("mat_vec_concat", isl_mat_vec_concat(A(), tovec(ctx, v)), cat2(a, M{v}), ca); } else none("mat_vec_product", isl_mat_vec_product(A(), tovec(ctx, v)));
		if (ra == n) { t.is("vec_mat_product", isl_vec_mat_product(tovec(ctx, v), A()), n ? mul(M{v}, a, ca)[0] : V1(ca, 0)); if (ra == ca && ra && rank(a, ca) == ra) { isl_vec *x = isl_mat_vec_inverse_product(A(), tovec(ctx, v)); if (!x) { t.err(); fail("mat|vec_inverse_product", "fails on " + t.in); } V1 y = rd(x); isl_vec_free(x); bool good = true; I k = 0; for (int r = 0; r < ra; ++r) { I s = 0; for (int c = 0; c < ca; ++c) s += a[r][c] * y[c]; if (!v[r]) { if (s) good = false; } else if (s % v[r] || s / v[r] <= 0 || (k && k != s / v[r])) good = false; else k = s / v[r]; } t.ok("mat_vec_inverse_product", good, sh(y)); } } else none("vec_mat_product", isl_vec_mat_product(tovec(ctx, v), A()));
		mc::note_state(mc::hash_str(t.in)); }, [](const vector<uint64_t> &i) { return sh(P[i[0]].first, P[i[0]].second) + sh(Ws[i[1]]); });
	h.bounds["pairs"] = cat(P.size(), "^2 pairs of matrices, ", Ws.size(), "^2 pairs of vectors, ", P.size(), "x", Ws.size(), " matrix and vector");
	// constraint matrices
	static vector<string> BS, BM;
	BS = {"[n] -> { [i, j] : 0 <= i <= n and 2i + 3j = n }", "[n] -> { [i, j] : 2j >= i and 3j <= n + 5 }", "[n, m] -> { [i, j, k] : i = n - m and 0 <= k <= 2j + 1 }", "{ [i, j] : 2i - 3j = 1 and 0 <= i <= 8 }", "{ [i] : exists (e : i = 3e + 1 and 0 <= i <= 9) }", "[n] -> { [i, j] : exists (e : 2e <= i + n and 3e >= j and 0 <= i, j <= 4) }", "{ [i, j] : (i + 2j) mod 4 = 1 and floor(i/3) >= j and -2 <= j }", "{ [] : }", "[n] -> { [] : n >= 3 }", "{ [i] : 1 = 0 }", "{ [i, j] }", "[n] -> { A[i, j] : i >= n and j >= 2n - 7 and i + j <= 100000000000 }"};
	BM = {"[n] -> { [i, j] -> [k] : 0 <= i <= n and k = 2i + 3j + 1 }", "{ [i] -> [j, k] : exists (e : j = 3e + i and k >= 2e - 1 and 0 <= i <= 5) }", "[n, m] -> { [i] -> [j] : i + n <= j - m and i >= 0 and 2j <= m }", "{ [i, j] -> [] : i = 2j }", "{ [] -> [i] : 3 <= i <= 5 }", "{ [i] -> [j] : floor((i + j)/2) = 3 }"};
	static vector<vector<int>> p4, p5; { vector<int> q{0, 1, 2, 3}; do p4.push_back(q); while (std::next_permutation(q.begin(), q.end())); q = {0, 1, 2, 3, 4}; do p5.push_back(q); while (std::next_permutation(q.begin(), q.end())); }
	static const isl_dim_type T4[] = {isl_dim_cst, isl_dim_param, isl_dim_set, isl_dim_div}, T5[] = {isl_dim_cst, isl_dim_param, isl_dim_in, isl_dim_out, isl_dim_div};
	auto permuted = [](const M &x, const vector<int> &off, const vector<int> &q) { M r(x.size()); for (size_t i = 0; i < x.size(); ++i) for (int g : q) r[i].insert(r[i].end(), x[i].begin() + off[g], x[i].begin() + off[g + 1]); return r; };
	// membership decided from the matrices alone (canonical order), existentials by search
	static auto member = [](const M &eq, const M &in, const vector<I> &x, int nd, I lo, I hi) { vector<I> z(x); z.insert(z.begin(), 1); size_t n = z.size(); z.resize(n + nd); std::function<bool(int)> go = [&](int d) -> bool { if (d == nd) { for (auto &r : eq) { I s = 0; for (size_t k = 0; k < z.size(); ++k) s += r[k] * z[k]; if (s) return false; } for (auto &r : in) { I s = 0; for (size_t k = 0; k < z.size(); ++k) s += r[k] * z[k]; if (s < 0) return false; } return true; } for (z[n + d] = lo; z[n + d] <= hi; ++z[n + d]) if (go(d + 1)) return true; return false; }; return go(0); };
	add("setmat", {BS.size(), p4.size()}, [permuted](const vector<uint64_t> &i) {
		isl_basic_set *b = isl_basic_set_read_from_str(ctx, BS[i[0]].c_str()); auto &q = p4[i[1]]; T t{ctx, BS[i[0]] + cat(" order ", q[0], q[1], q[2], q[3])}; int np = isl_basic_set_dim(b, isl_dim_param), ns = isl_basic_set_dim(b, isl_dim_set), nd = isl_basic_set_dim(b, isl_dim_div), all = 1 + np + ns + nd; vector<int> off{0, 1, 1 + np, 1 + np + ns, all}; mc::note_state(mc::hash_str(t.in));
		isl_mat *e = isl_basic_set_equalities_matrix(b, T4[q[0]], T4[q[1]], T4[q[2]], T4[q[3]]), *n = isl_basic_set_inequalities_matrix(b, T4[q[0]], T4[q[1]], T4[q[2]], T4[q[3]]);
		M e0 = t.get("equalities_matrix", isl_basic_set_equalities_matrix(b, isl_dim_cst, isl_dim_param, isl_dim_set, isl_dim_div), -1, all), n0 = t.get("inequalities_matrix", isl_basic_set_inequalities_matrix(b, isl_dim_cst, isl_dim_param, isl_dim_set, isl_dim_div), -1, all);
		isl_space *sp = isl_basic_set_get_space(b); isl_basic_set *r = isl_basic_set_from_constraint_matrices(sp, isl_mat_copy(e), isl_mat_copy(n), T4[q[0]], T4[q[1]], T4[q[2]], T4[q[3]]); isl_bool same = isl_basic_set_is_equal(b, r); isl_bool sps = isl_bool_true; { isl_space *x = isl_basic_set_get_space(b), *y = isl_basic_set_get_space(r); sps = isl_space_is_equal(x, y); isl_space_free(x); isl_space_free(y); } isl_basic_set_free(r);
		t.is("equalities_matrix", e, permuted(e0, off, q), all); t.is("inequalities_matrix", n, permuted(n0, off, q), all); 
		int nv = np + ns; bool bad = false; if (nv <= 4 && BS[i[0]].find("100000") == string::npos) { Window w = nv ? Window::cube(nv, -2, 6) : Window(vector<std::pair<I, I>>{}); int cnt = nv ? w.count : 1; isl_set *s = isl_set_from_basic_set(isl_basic_set_copy(b)); for (int k = 0; k < cnt; ++k) { vector<I> x; if (nv) x.assign(w.at(k), w.at(k) + nv); string txt; (void) txt; isl_set *one = isl_set_copy(s); for (int d = 0; d < nv; ++d) one = isl_set_fix_si(one, d < np ? isl_dim_param : isl_dim_set, d < np ? d : d - np, (int) x[d]); bool isin = isl_set_is_empty(one) == isl_bool_false; isl_set_free(one); if (isin != member(e0, n0, x, nd, -12, 12)) bad = true; if (i[1] && k > 60) break; } isl_set_free(s); }
		isl_basic_set_free(b); t.ok("from_constraint_matrices", same == isl_bool_true && sps == isl_bool_true, "the rebuilt set differs"); t.ok("constraint matrices", !bad, "do not describe the set");
	}, [](const vector<uint64_t> &i) { return BS[i[0]] + cat(" #", i[1]); });
	add("mapmat", {BM.size(), p5.size()}, [permuted](const vector<uint64_t> &i) {
		isl_basic_map *b = isl_basic_map_read_from_str(ctx, BM[i[0]].c_str()); auto &q = p5[i[1]]; T t{ctx, BM[i[0]] + cat(" order ", q[0], q[1], q[2], q[3], q[4])}; int np = isl_basic_map_dim(b, isl_dim_param), ni = isl_basic_map_dim(b, isl_dim_in), no = isl_basic_map_dim(b, isl_dim_out), nd = isl_basic_map_dim(b, isl_dim_div), all = 1 + np + ni + no + nd; vector<int> off{0, 1, 1 + np, 1 + np + ni, 1 + np + ni + no, all}; mc::note_state(mc::hash_str(t.in));
		isl_mat *e = isl_basic_map_equalities_matrix(b, T5[q[0]], T5[q[1]], T5[q[2]], T5[q[3]], T5[q[4]]), *n = isl_basic_map_inequalities_matrix(b, T5[q[0]], T5[q[1]], T5[q[2]], T5[q[3]], T5[q[4]]);
		M e0 = t.get("equalities_matrix", isl_basic_map_equalities_matrix(b, isl_dim_cst, isl_dim_param, isl_dim_in, isl_dim_out, isl_dim_div), -1, all), n0 = t.get("inequalities_matrix", isl_basic_map_inequalities_matrix(b, isl_dim_cst, isl_dim_param, isl_dim_in, isl_dim_out, isl_dim_div), -1, all);
		isl_basic_map *r = isl_basic_map_from_constraint_matrices(isl_basic_map_get_space(b), isl_mat_copy(e), isl_mat_copy(n), T5[q[0]], T5[q[1]], T5[q[2]], T5[q[3]], T5[q[4]]); isl_bool same = isl_basic_map_is_equal(b, r); isl_basic_map_free(r);
		bool bad = false; int nv = np + ni + no; Window w = Window::cube(nv, -2, 6); isl_map *s = isl_map_from_basic_map(isl_basic_map_copy(b)); for (int k = 0; k < w.count; ++k) { vector<I> x(w.at(k), w.at(k) + nv); isl_map *one = isl_map_copy(s); for (int d = 0; d < nv; ++d) one = isl_map_fix_si(one, d < np ? isl_dim_param : d < np + ni ? isl_dim_in : isl_dim_out, d < np ? d : d < np + ni ? d - np : d - np - ni, (int) x[d]); bool isin = isl_map_is_empty(one) == isl_bool_false; isl_map_free(one); if (isin != member(e0, n0, x, nd, -12, 12)) bad = true; if (i[1] && k > 60) break; } isl_map_free(s); isl_basic_map_free(b);
		t.is("equalities_matrix", e, permuted(e0, off, q), all); t.is("inequalities_matrix", n, permuted(n0, off, q), all); t.ok("from_constraint_matrices", same == isl_bool_true, "the rebuilt relation differs"); t.ok("constraint matrices", !bad, "do not describe the relation");
	}, [](const vector<uint64_t> &i) { return BM[i[0]] + cat(" #", i[1]); });
	h.bounds["constraint matrices"] = cat(BS.size(), " sets x 24 column orders, ", BM.size(), " relations x 120 column orders");
	return mc::run(argc, argv, h);
}
