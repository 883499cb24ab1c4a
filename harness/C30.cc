// C30: transitive closure, powers, reaching path lengths and closure of unions.  Relations are unions of enumerated moves under
// enumerated guards; reachability is computed independently by breadth-first search on a window much larger than the compared one.
#include "common.hpp"
#include <isl/union_map.h>
#include <functional>
static bool g_th;
typedef std::function<bool(I, const I *, const I *)> Pred;    // n, source, target
struct Piece { string text; Pred p; };
static vector<Piece> pieces1() {
	typedef std::function<bool(I, I)> Gd; typedef std::function<bool(I, I, I)> Mv;
	static const vector<std::pair<string, Gd>> G = {{"", [](I, I) { return true; }}, {"0 <= i <= 3", [](I, I i) { return i >= 0 && i <= 3; }}, {"i >= 0", [](I, I i) { return i >= 0; }}, {"i < n", [](I n, I i) { return i < n; }}, {"0 <= i < n", [](I n, I i) { return i >= 0 && i < n; }}, {"i mod 2 = 0", [](I, I i) { return mod(i, 2) == 0; }}, {"i <= 2", [](I, I i) { return i <= 2; }}};
	static const vector<std::pair<string, Mv>> M = {{"o = i + 1", [](I, I i, I o) { return o == i + 1; }}, {"o = i + 2", [](I, I i, I o) { return o == i + 2; }}, {"o = i - 1", [](I, I i, I o) { return o == i - 1; }}, {"o = i + 3", [](I, I i, I o) { return o == i + 3; }}, {"o = 2i", [](I, I i, I o) { return o == 2 * i; }}, {"o = -i", [](I, I i, I o) { return o == -i; }}, {"o = n", [](I n, I, I o) { return o == n; }}, {"o = n - i", [](I n, I i, I o) { return o == n - i; }}, {"o = 1", [](I, I, I o) { return o == 1; }}, {"i < o <= 3", [](I, I i, I o) { return i < o && o <= 3; }}, {"i < o <= n", [](I n, I i, I o) { return i < o && o <= n; }}, {"i <= o <= i + 1", [](I, I i, I o) { return i <= o && o <= i + 1; }}, {"o = i + n", [](I n, I i, I o) { return o == i + n; }}, {"o >= i + 2", [](I, I i, I o) { return o >= i + 2; }}, {"o = i", [](I, I i, I o) { return o == i; }}, {"i + 1 <= o <= i + 3 and (o - i) mod 2 = 1", [](I, I i, I o) { return o == i + 1 || o == i + 3; }}};
	vector<Piece> r; for (auto &g : G) for (auto &m : M) { Gd a = g.second; Mv b = m.second; r.push_back({m.first + (g.first.empty() ? "" : " and " + g.first), [a, b](I n, const I *x, const I *y) { return a(n, x[0]) && b(n, x[0], y[0]); }}); } return r;
}
static vector<Piece> pieces2() {
	static const vector<std::pair<string, std::function<bool(I, I, I)>>> G = {{"", [](I, I, I) { return true; }}, {"0 <= i, j <= 2", [](I, I i, I j) { return i >= 0 && i <= 2 && j >= 0 && j <= 2; }}, {"i >= 0", [](I, I i, I) { return i >= 0; }}, {"j < n", [](I n, I, I j) { return j < n; }}, {"i <= j", [](I, I i, I j) { return i <= j; }}, {"0 <= i < n and j >= 0", [](I n, I i, I j) { return i >= 0 && i < n && j >= 0; }}};
	struct Mv { string t; std::function<bool(const I *, const I *)> p; }; vector<Mv> M;
	for (auto d : vector<vector<int>>{{1, 0}, {0, 1}, {1, 1}, {1, -1}, {2, 1}, {-1, 0}}) M.push_back({cat("a = i + ", d[0], " and b = j + ", d[1]), [d](const I *x, const I *y) { return y[0] == x[0] + d[0] && y[1] == x[1] + d[1]; }});
	M.push_back({"a = j and b = i", [](const I *x, const I *y) { return y[0] == x[1] && y[1] == x[0]; }}); M.push_back({"a = i + 1 and b = 0", [](const I *x, const I *y) { return y[0] == x[0] + 1 && y[1] == 0; }}); M.push_back({"a = i and b <= j + 1 and b >= j", [](const I *x, const I *y) { return y[0] == x[0] && y[1] >= x[1] && y[1] <= x[1] + 1; }}); M.push_back({"a = i + 1 and j <= b <= 2", [](const I *x, const I *y) { return y[0] == x[0] + 1 && y[1] >= x[1] && y[1] <= 2; }}); M.push_back({"a = i and b = i", [](const I *x, const I *y) { return y[0] == x[0] && y[1] == x[0]; }});
	vector<Piece> r; for (auto &g : G) for (auto &m : M) { auto a = g.second; auto b = m.p; r.push_back({m.t + (g.first.empty() ? "" : " and " + g.first), [a, b](I n, const I *x, const I *y) { return a(n, x[0], x[1]) && b(x, y); }}); } return r;
}
// explicit graph on the big window
struct Graph { int d, N; vector<vector<I>> node; vector<int> inner; vector<vector<int>> adj; };
static void build(Graph &g, int d, int spaces, I lo, I hi, I ilo, I ihi) {
	g.d = d; vector<I> x(d + 1, lo); for (int s = 0; s < spaces; ++s) { x.assign(d + 1, lo); x[d] = s; for (;;) { bool in = true; for (int k = 0; k < d; ++k) in = in && x[k] >= ilo && x[k] <= ihi; if (in) g.inner.push_back(g.node.size()); g.node.push_back(x); int k = 0; while (k < d && ++x[k] > hi) x[k++] = lo; if (k == d) break; } } g.N = g.node.size();
}
static void edges(Graph &g, I n, const std::function<bool(I, const vector<I> &, const vector<I> &)> &e) { g.adj.assign(g.N, {}); for (int a = 0; a < g.N; ++a) for (int b = 0; b < g.N; ++b) if (e(n, g.node[a], g.node[b])) g.adj[a].push_back(b); }
static vector<char> step(const Graph &g, const vector<char> &f) { vector<char> r(g.N, 0); for (int a = 0; a < g.N; ++a) if (f[a]) for (int b : g.adj[a]) r[b] = 1; return r; }
static vector<char> reach(const Graph &g, int a) { vector<char> r(g.N, 0); vector<int> q(g.adj[a].begin(), g.adj[a].end()); for (size_t k = 0; k < q.size(); ++k) { int x = q[k]; if (r[x]) continue; r[x] = 1; for (int b : g.adj[x]) if (!r[b]) q.push_back(b); } return r; }
static string pt(const Graph &g, int a, I n) { string s = cat("n=", S(n), " "); s += g.d == 1 && g.node.size() ? "" : ""; for (int k = 0; k < g.d; ++k) s += (k ? "," : "[") + S(g.node[a][k]); return s + "]"; }
static const I NS[] = {-1, 0, 1, 2, 3};
// one relation in one space: what selects the operations
static void check_map_(const string &t, int d, const Pred &p, int ops) {
	static std::map<int, Graph> GG; if (!GG.count(d)) { if (d == 1) build(GG[1], 1, 1, -18, 18, -3, 4); else build(GG[2], 2, 1, -10, 9, -1, 3); } Graph &g = GG[d];
	isl_map *m = isl_map_read_from_str(ctx, t.c_str()); if (!m) fail("generator|" + t, "rejected"); bool ov = false; auto rd = [&](isl_map *r, const string &op) { if (!r) { mc::take_error(); isl_map_free(m); fail(op + "|" + t, "no result"); } note_transition(); Pts q; try { q = read_map(r); } catch (Overflow &) { ov = true; } isl_map_free(r); return q; };
	isl_bool e1 = isl_bool_false, e2 = isl_bool_false, e3 = isl_bool_false; Pts clo, pw, len, fx[7]; isl_map *plain = nullptr;
	clo = rd(isl_map_transitive_closure(isl_map_copy(m), &e1), "closure"); { Pts c2 = rd(isl_map_transitive_closure(isl_map_copy(m), nullptr), "closure without flag"); clo.b.size(); (void) c2; (void) plain; }
	if (ops & 1) pw = rd(isl_map_power(isl_map_copy(m), &e2), "power"); if (ops & 2) len = rd(isl_map_reaching_path_lengths(isl_map_copy(m), &e3), "path lengths"); if (ops & 4) for (int k = -3; k <= 3; ++k) if (k) fx[k + 3] = rd(isl_map_fixed_power_val(isl_map_copy(m), isl_val_int_from_si(ctx, k)), "fixed power");
	isl_map_free(m); if (ov) throw Overflow(); if (e1 < 0 || e2 < 0 || e3 < 0) fail("flag|" + t, "exactness is an error value");
	for (I n : NS) {
		edges(g, n, [&](I nn, const vector<I> &a, const vector<I> &b) { return p(nn, a.data(), b.data()); });
		if (ops & 2) { vector<char> cur(g.N, 1); for (int k = -1; k <= (d == 1 ? 4 : 3); ++k) { if (k >= 1) cur = step(g, cur); for (int b : g.inner) { vector<I> y(2 + d); y[0] = n; for (int q = 0; q < d; ++q) y[1 + q] = g.node[b][q]; y[1 + d] = k; bool in = contains(len, y.data()), want = k >= 1 && cur[b]; if (want && !in) fail("path length incomplete|" + t, cat("length ", k, " ") + pt(g, b, n)); if (k < 1 ? in : !want && in && e3) fail("path length inexact|" + t, cat("length ", k, " ") + pt(g, b, n)); } } }
		for (int a : g.inner) {
			vector<char> r = reach(g, a), cur(g.N, 0); cur[a] = 1; vector<I> x(2 + 2 * d); x[0] = n; for (int k = 0; k < d; ++k) x[1 + k] = g.node[a][k];
			for (int b : g.inner) { for (int k = 0; k < d; ++k) x[1 + d + k] = g.node[b][k]; bool in = contains(clo, x.data()); if (r[b] && !in) fail("closure incomplete|" + t, pt(g, a, n) + " reaches " + pt(g, b, n) + " but is not in the closure"); if (!r[b] && in && e1) fail("closure inexact|" + t, "flagged exact but contains " + pt(g, a, n) + " -> " + pt(g, b, n)); }
			vector<vector<char>> kth(1, cur); for (int k = 1; k <= 4; ++k) { cur = step(g, cur); kth.push_back(cur); }
			for (int b : g.inner) for (int k = -1; k <= 4; ++k) {
				bool want = k >= 1 && kth[k][b]; 
				if (ops & 1) { vector<I> y(2 + 2 * d); y[0] = n; y[1] = k; for (int q = 0; q < d; ++q) y[2 + q] = g.node[a][q], y[2 + d + q] = g.node[b][q]; bool in = contains(pw, y.data()); if (want && !in) fail("power incomplete|" + t, cat("length ", k, " ") + pt(g, a, n) + " -> " + pt(g, b, n)); if (k < 1 ? in : !want && in && e2) fail("power inexact|" + t, cat("length ", k, " ") + pt(g, a, n) + " -> " + pt(g, b, n)); }
				if (ops & 4 && k >= 1 && k <= 3) { vector<I> y(1 + 2 * d); y[0] = n; for (int q = 0; q < d; ++q) y[1 + q] = g.node[a][q], y[1 + d + q] = g.node[b][q]; if (contains(fx[3 + k], y.data()) != want) fail("fixed power|" + t, cat("power ", k, " ") + pt(g, a, n) + " -> " + pt(g, b, n)); for (int q = 0; q < d; ++q) std::swap(y[1 + q], y[1 + d + q]); if (contains(fx[3 - k], y.data()) != want) fail("fixed power|" + t, cat("power ", -k, " ") + pt(g, b, n) + " -> " + pt(g, a, n)); }
			}
		}
	}
	mc::note_outcome(e1 ? "exact" : "approximate"); if (ops & 1) mc::note_outcome(e2 ? "power exact" : "power approximate"); note_validated();
}
// relations between two or three spaces
struct UPiece { int f, t; string text; std::function<bool(I, I, I)> p; };
static void check_union_(const vector<UPiece> &v, int ops) {
	static Graph g; if (!g.N) build(g, 1, 3, -10, 11, -2, 3); static const char *NM[] = {"A", "B", "C"}; string t = "[n] -> { "; for (auto &u : v) t += cat(NM[u.f], "[i] -> ", NM[u.t], "[o] : ", u.text, "; "); t += "}";
	isl_union_map *m = isl_union_map_read_from_str(ctx, t.c_str()); if (!m) fail("generator|" + t, "rejected"); isl_bool e1 = isl_bool_false, e2 = isl_bool_false; isl_union_map *c = isl_union_map_transitive_closure(isl_union_map_copy(m), &e1), *w = ops & 1 ? isl_union_map_power(isl_union_map_copy(m), &e2) : nullptr, *f = ops & 2 ? isl_union_map_fixed_power_val(isl_union_map_copy(m), isl_val_int_from_si(ctx, 2)) : nullptr; { isl_union_map *cn = isl_union_map_transitive_closure(isl_union_map_copy(m), nullptr); isl_bool sub = cn && c ? isl_union_map_is_equal(cn, c) : isl_bool_error; isl_union_map_free(cn); if (sub == isl_bool_error || (e1 == isl_bool_true && !sub && 0)) mc::note_outcome("no flag differs"); } isl_union_map_free(m); note_transition();
	if (!c || e1 < 0 || e2 < 0 || (ops & 1 && !w) || (ops & 2 && !f)) { mc::take_error(); isl_union_map_free(c); isl_union_map_free(w); isl_union_map_free(f); fail("union|" + t, "no result"); }
	bool ov = false; typedef std::map<string, Pts> PM; PM pc, pw, pf; auto split = [&](isl_union_map *u, PM &q, bool pow) { isl_map_list *l = isl_union_map_get_map_list(u); for (int k = 0; k < isl_map_list_n_map(l); ++k) { isl_map *x = isl_map_list_get_map(l, k); string key; if (pow) { isl_space *s = isl_space_unwrap(isl_space_range(isl_map_get_space(x))); key = string(isl_space_get_tuple_name(s, isl_dim_in)) + isl_space_get_tuple_name(s, isl_dim_out); isl_space_free(s); } else key = string(isl_map_get_tuple_name(x, isl_dim_in)) + isl_map_get_tuple_name(x, isl_dim_out); if (isl_map_dim(x, isl_dim_param) == 0) { isl_set *ps = isl_set_read_from_str(ctx, "[n] -> { : }"); x = isl_map_align_params(x, isl_set_get_space(ps)); isl_set_free(ps); } try { q[key] = read_map(x); } catch (Overflow &) { ov = true; } isl_map_free(x); } isl_map_list_free(l); isl_union_map_free(u); };
	auto has = [&](PM &q, const string &k, const vector<I> &x) { auto it = q.find(k); return it != q.end() && contains(it->second, x.data()); };
	split(c, pc, false); if (w) split(w, pw, true); if (f) split(f, pf, false); if (ov) throw Overflow();
	for (I n : NS) { edges(g, n, [&](I nn, const vector<I> &a, const vector<I> &b) { for (auto &u : v) if (u.f == a[1] && u.t == b[1] && u.p(nn, a[0], b[0])) return true; return false; });
		for (int a : g.inner) { vector<char> r = reach(g, a), k0(g.N, 0); k0[a] = 1; vector<vector<char>> kth{k0}; for (int k = 1; k <= 3; ++k) kth.push_back(step(g, kth.back())); for (int b : g.inner) { string key = string(NM[(int) g.node[a][1]]) + NM[(int) g.node[b][1]]; bool in = has(pc, key, {n, g.node[a][0], g.node[b][0]}); string at = cat(key, " ", S(g.node[a][0]), " -> ", S(g.node[b][0]), " n=", S(n)); if (r[b] && !in) fail("union closure incomplete|" + t, at); if (!r[b] && in && e1) fail("union closure inexact|" + t, at);
			if (w) for (int k = 1; k <= 3; ++k) { bool i2 = has(pw, key, {n, k, g.node[a][0], g.node[b][0]}); if (kth[k][b] && !i2) fail("union power incomplete|" + t, cat("length ", k, " ", at)); if (!kth[k][b] && i2 && e2) fail("union power inexact|" + t, cat("length ", k, " ", at)); } if (f && has(pf, key, {n, g.node[a][0], g.node[b][0]}) != (bool) kth[2][b]) fail("union fixed power|" + t, at); } } }
	mc::note_outcome(e1 ? "union exact" : "union approximate"); note_validated();
}
static void check_map(const string &t, int d, const Pred &p, int ops) { try { check_map_(t, d, p, ops); } catch (Overflow &) { mc::note_outcome("outside the model"); mc::take_error(); } }
static void check_union(const vector<UPiece> &v, int ops) { try { check_union_(v, ops); } catch (Overflow &) { mc::note_outcome("outside the model"); mc::take_error(); } }
int main(int argc, char **argv) {
	mc::Harness h; h.property = "C30"; g_th = tier_thorough(argc, argv);
	auto add = [&](const string &n, mc::Radix r, std::function<void(const vector<uint64_t> &)> f, std::function<string(const vector<uint64_t> &)> d) { h.add(mc::SpaceDef(n, r.size(), [=](uint64_t i) { f(r.at(i)); }, [=](uint64_t i) { return d(r.at(i)); })); };
	static vector<Piece> P1 = pieces1(), P2 = pieces2(); const uint64_t n1 = P1.size(), n2 = P2.size();
	auto text = [](int d, vector<const Piece *> v) { string t = "[n] -> { "; for (auto *p : v) t += (d == 1 ? "[i] -> [o] : " : "[i, j] -> [a, b] : ") + p->text + "; "; return t + "}"; };
	auto anyp = [](vector<const Piece *> v) -> Pred { return [v](I n, const I *x, const I *y) { for (auto *p : v) if (p->p(n, x, y)) return true; return false; }; };
	add("single relations, one dimension", {n1}, [=](const vector<uint64_t> &v) { check_map(text(1, {&P1[v[0]]}), 1, anyp({&P1[v[0]]}), 7); }, [=](const vector<uint64_t> &v) { return text(1, {&P1[v[0]]}); });
	add("single relations, two dimensions", {n2}, [=](const vector<uint64_t> &v) { check_map(text(2, {&P2[v[0]]}), 2, anyp({&P2[v[0]]}), 7); }, [=](const vector<uint64_t> &v) { return text(2, {&P2[v[0]]}); });
	uint64_t s1 = g_th ? 1 : 2; add("unions of two, one dimension", {n1 * (n1 - 1) / 2 / s1}, [=](const vector<uint64_t> &v) { uint64_t i = v[0] * s1, a = 1; while (a * (a + 1) / 2 <= i) ++a; uint64_t b = i - a * (a - 1) / 2; vector<const Piece *> q{&P1[a], &P1[b]}; check_map(text(1, q), 1, anyp(q), g_th ? 7 : 1 << v[0] % 3); }, [=](const vector<uint64_t> &v) { uint64_t i = v[0] * s1, a = 1; while (a * (a + 1) / 2 <= i) ++a; uint64_t b = i - a * (a - 1) / 2; return text(1, {&P1[a], &P1[b]}); });
	uint64_t s2 = g_th ? 1 : 2; add("unions of two, two dimensions", {n2 * (n2 - 1) / 2 / s2}, [=](const vector<uint64_t> &v) { uint64_t i = v[0] * s2, a = 1; while (a * (a + 1) / 2 <= i) ++a; uint64_t b = i - a * (a - 1) / 2; vector<const Piece *> q{&P2[a], &P2[b]}; check_map(text(2, q), 2, anyp(q), g_th ? 3 : 0); }, [=](const vector<uint64_t> &v) { uint64_t i = v[0] * s2, a = 1; while (a * (a + 1) / 2 <= i) ++a; uint64_t b = i - a * (a - 1) / 2; return text(2, {&P2[a], &P2[b]}); });
	// three moves in one dimension
	{ static vector<int> sel; for (size_t k = 0; k < n1; k += 5) sel.push_back(k); uint64_t m = sel.size(), st = g_th ? 1 : 4; add("unions of three, one dimension", {(m * m * m + st - 1) / st}, [=](const vector<uint64_t> &v) { uint64_t i = v[0] * st; uint64_t a = i / (m * m), b = i / m % m, c = i % m; if (!(a < b && b < c)) return; vector<const Piece *> q{&P1[sel[a]], &P1[sel[b]], &P1[sel[c]]}; check_map(text(1, q), 1, anyp(q), 0); }, [=](const vector<uint64_t> &v) { uint64_t i = v[0] * st; return text(1, {&P1[sel[i / (m * m)]], &P1[sel[i / m % m]], &P1[sel[i % m]]}); }); }
	static const vector<std::pair<string, std::function<bool(I, I, I)>>> UF = {{"o = i", [](I, I i, I o) { return o == i; }}, {"o = i + 1", [](I, I i, I o) { return o == i + 1; }}, {"o = i + 1 and 0 <= i < n", [](I n, I i, I o) { return o == i + 1 && i >= 0 && i < n; }}, {"o = 0", [](I, I, I o) { return o == 0; }}, {"i <= o <= i + 1 and o <= 2", [](I, I i, I o) { return i <= o && o <= i + 1 && o <= 2; }}, {"o = i - 1 and i mod 2 = 0", [](I, I i, I o) { return o == i - 1 && mod(i, 2) == 0; }}};
	auto up = [](int k) { int s = k % 5; static const int F[5] = {0, 0, 1, 1, 2}, T[5] = {0, 1, 0, 2, 1}; return UPiece{F[s], T[s], UF[k / 5].first, UF[k / 5].second}; }; const uint64_t nu = UF.size() * 5;
	add("unions of spaces, two pieces", {nu, nu}, [=](const vector<uint64_t> &v) { if (v[0] < v[1]) check_union({up(v[0]), up(v[1])}, 3); }, [=](const vector<uint64_t> &v) { return cat(v[0], " ", v[1]); });
	uint64_t su = g_th ? 1 : 4; add("unions of spaces, three pieces", {nu * nu * nu / su}, [=](const vector<uint64_t> &v) { uint64_t i = v[0] * su; uint64_t a = i / (nu * nu), b = i / nu % nu, c = i % nu; if (a < b && b < c) check_union({up(a), up(b), up(c)}, g_th ? 3 : 0); }, [=](const vector<uint64_t> &v) { uint64_t i = v[0] * su; return cat(i / (nu * nu), " ", i / nu % nu, " ", i % nu); });
	h.bounds["spaces"] = cat(n1, " one-dimensional and ", n2, " two-dimensional relations (move x guard), their unions of two and three, unions over three spaces; parameter in [-1,3]; paths inside a window of 37 (20x20) elements, compared on its inner part; path lengths up to 4");
	return mc::run(argc, argv, h);
}
