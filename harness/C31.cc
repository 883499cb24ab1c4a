// C31: parametric vertices, chambers, disjoint cells and triangulations.  At every parameter value of a window the vertices of the
// polytope are computed by brute force over all choices of constraints and compared with what the library lists.
#include "common.hpp"
#include <isl/vertices.h>
#include <functional>
#include <set>
extern "C" { isl_stat isl_vertices_foreach_disjoint_cell(isl_vertices *, isl_stat (*)(isl_cell *, void *), void *); isl_stat isl_cell_foreach_simplex(isl_cell *, isl_stat (*)(isl_cell *, void *), void *); }
static bool g_th;
typedef vector<Rat> Pt; struct Less { bool operator()(const Pt &a, const Pt &b) const { for (size_t k = 0; k < a.size(); ++k) { if (a[k] < b[k]) return true; if (b[k] < a[k]) return false; } return false; } }; typedef std::set<Pt, Less> PtSet;
static string show(const PtSet &s) { string r = "{"; for (auto &p : s) { r += " ("; for (auto &x : p) r += x.s() + ","; r.back() = ')'; } return r + " }"; }
// the vertices of { x : rows } (rows: cst, k coefficients; equalities first)
static bool feas(const vector<vector<I>> &eq, const vector<vector<I>> &in, const Pt &x) { auto v = [&](const vector<I> &r) { Rat s(r[0]); for (size_t k = 0; k < x.size(); ++k) if (r[k + 1]) s = s + Rat(r[k + 1]) * x[k]; return s; }; for (auto &r : eq) if (v(r).n) return false; for (auto &r : in) if (v(r).n < 0) return false; return true; }
static PtSet brute(const vector<vector<I>> &eq, const vector<vector<I>> &in, int k) {
	PtSet out; vector<vector<I>> all = eq; all.insert(all.end(), in.begin(), in.end()); int m = all.size();
	std::function<void(int, vector<int> &)> rec = [&](int from, vector<int> &sel) {
		if ((int)sel.size() == k) { vector<vector<Rat>> M; for (int s : sel) { vector<Rat> r; for (int j = 1; j <= k; ++j) r.push_back(Rat(all[s][j])); r.push_back(Rat(-all[s][0])); M.push_back(r); }
			for (int c = 0; c < k; ++c) { int p = -1; for (int r = c; r < k; ++r) if (M[r][c].n) { p = r; break; } if (p < 0) return; std::swap(M[c], M[p]); for (int r = 0; r < k; ++r) if (r != c && M[r][c].n) { Rat f = M[r][c] / M[c][c]; for (int j = c; j <= k; ++j) M[r][j] = M[r][j] - f * M[c][j]; } }
			Pt x; for (int c = 0; c < k; ++c) x.push_back(M[c][k] / M[c][c]); if (feas(eq, in, x)) out.insert(x); return; }
		for (int s = from; s < m; ++s) { sel.push_back(s); rec(s + 1, sel); sel.pop_back(); } };
	vector<int> sel; rec(0, sel); return out;
}
struct V { int id; Pts dom; vector<Aff> e; }; struct Cell { Pts dom; vector<int> v; vector<vector<int>> simp; };
struct Got { vector<V> v; vector<Cell> c; vector<Cell> d; string bad; bool ov = false, simplices = false; std::map<int, int> idx; };
static Pts rd(isl_basic_set *b, Got &g) { isl_set *s = isl_set_from_basic_set(b); if (!s) { g.bad = "no domain"; return Pts(); } Pts p; try { p = read_set(s); } catch (Overflow &) { g.ov = true; } isl_set_free(s); return p; }
static isl_stat on_vertex(isl_vertex *v, void *u) {
	Got &g = *(Got *)u; V x; x.id = isl_vertex_get_id(v); x.dom = rd(isl_vertex_get_domain(v), g); isl_multi_aff *ma = isl_vertex_get_expr(v); isl_vertex_free(v); if (!ma) { g.bad = "no expression"; return isl_stat_ok; }
	int n = isl_multi_aff_dim(ma, isl_dim_set); for (int k = 0; k < n; ++k) { isl_aff *a = isl_multi_aff_get_at(ma, k); try { x.e.push_back(read_aff(a)); } catch (Overflow &) { g.ov = true; } isl_aff_free(a); } isl_multi_aff_free(ma);
	if (g.idx.count(x.id)) g.bad = cat("vertex ", x.id, " listed twice"); g.idx[x.id] = g.v.size(); g.v.push_back(x); return isl_stat_ok;
}
static isl_stat cell_vertex(isl_vertex *v, void *u) { ((vector<int> *)u)->push_back(isl_vertex_get_id(v)); isl_vertex_free(v); return isl_stat_ok; }
static isl_stat on_simplex(isl_cell *s, void *u) { vector<int> w; isl_cell_foreach_vertex(s, &cell_vertex, &w); isl_cell_free(s); ((vector<vector<int>> *)u)->push_back(w); return isl_stat_ok; }
static isl_stat on_cell_(isl_cell *c, Got &g, vector<Cell> &out) { Cell x; x.dom = rd(isl_cell_get_domain(c), g); if (isl_cell_foreach_vertex(c, &cell_vertex, &x.v) < 0) g.bad = "foreach_vertex of a cell failed"; if (g.simplices) { if (isl_cell_foreach_simplex(c, &on_simplex, &x.simp) < 0) g.bad = "foreach_simplex failed"; } else isl_cell_free(c); out.push_back(x); return isl_stat_ok; }
static isl_stat on_cell(isl_cell *c, void *u) { Got &g = *(Got *)u; return on_cell_(c, g, g.c); }
static isl_stat on_dcell(isl_cell *c, void *u) { Got &g = *(Got *)u; return on_cell_(c, g, g.d); }
static Rat det(vector<vector<Rat>> M) { int k = M.size(); Rat r(1); for (int c = 0; c < k; ++c) { int p = -1; for (int i = c; i < k; ++i) if (M[i][c].n) { p = i; break; } if (p < 0) return Rat(0); if (p != c) { std::swap(M[p], M[c]); r = -r; } r = r * M[c][c]; for (int i = c + 1; i < k; ++i) { Rat f = M[i][c] / M[c][c]; for (int j = c; j < k; ++j) M[i][j] = M[i][j] - f * M[c][j]; } } return r; }
static Rat area2(const PtSet &s) { vector<Pt> p(s.begin(), s.end()), h; if (p.size() < 3) return Rat(0); auto cr = [](const Pt &a, const Pt &b, const Pt &c) { return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]); }; for (int pass = 0; pass < 2; ++pass) { size_t base = h.size(); for (auto &q : p) { while (h.size() >= base + 2 && cr(h[h.size() - 2], h.back(), q) <= Rat(0)) h.pop_back(); h.push_back(q); } h.pop_back(); std::reverse(p.begin(), p.end()); } Rat a(0); for (size_t i = 0; i < h.size(); ++i) { auto &x = h[i], &y = h[(i + 1) % h.size()]; a = a + x[0] * y[1] - x[1] * y[0]; } return a.n < 0 ? -a : a; }
static void check_(const string &t, int np, int k, I lo, I hi, bool bounded) {
	isl_basic_set *b = isl_basic_set_read_from_str(ctx, t.c_str()); if (!b) fail("generator|" + t, "rejected"); Got g; g.simplices = bounded && k <= 3;
	Basic B; try { B = read_basic_set(b); } catch (Overflow &) { isl_basic_set_free(b); throw; }
	// implicit equalities over parameters and variables together make integer reasoning legitimate: then only weaker facts are required
	bool exact = B.eq.empty() && !B.nd; if (exact) for (size_t i = 0; i < B.ineq.size() && exact; ++i) { auto in = B.ineq; in[i][0] -= 1; Feas f = FEAS; { vector<vector<I>> q = B.ineq; vector<I> s = B.ineq[i]; // strictly positive somewhere: s >= 1 after scaling by a cone variable
				for (auto &r : q) { r.push_back(r[0]); r[0] = 0; } s.push_back(s[0]); s[0] = -1; q.push_back(s); vector<I> z(q[0].size(), 0); z.back() = 1; q.push_back(z); f = rat_feasible({}, q, np + k + 1); } if (f != FEAS) exact = false; }
	g.simplices = g.simplices && exact;
	isl_vertices *vs = isl_basic_set_compute_vertices(b); string after = mc::str(isl_basic_set_to_str(b)); isl_basic_set_free(b); if (!vs) { mc::take_error(); fail("vertices|" + t, "no result"); }
	int n = isl_vertices_get_n_vertices(vs); isl_stat r1 = isl_vertices_foreach_vertex(vs, &on_vertex, &g), r2 = isl_vertices_foreach_cell(vs, &on_cell, &g), r3 = isl_vertices_foreach_disjoint_cell(vs, &on_dcell, &g); isl_vertices_free(vs); note_transition(4);
	if (g.ov) throw Overflow(); if (r1 < 0 || r2 < 0 || r3 < 0) fail("vertices|" + t, "iteration failed"); if (g.bad.size()) fail("vertices|" + t, g.bad); if (n != (int)g.v.size()) fail("count|" + t, cat("n_vertices is ", n, " but ", g.v.size(), " listed"));
	for (auto &x : g.v) if ((int)x.e.size() != k) fail("vertices|" + t, cat("expression of vertex ", x.id, " has ", x.e.size(), " dimensions"));
	for (auto *cs : {&g.c, &g.d}) for (auto &c : *cs) for (int v : c.v) if (!g.idx.count(v)) fail("cells|" + t, cat("cell refers to unknown vertex ", v));
	note_outcome(exact ? "full-dimensional" : "lower-dimensional"); Window w = Window::cube(np ? np : 1, lo, np ? hi : lo);
	for (int q = 0; q < w.count; ++q) {
		const I *p = w.at(q); string at = cat(" at (", np > 0 ? S(p[0]) : "", np > 1 ? "," + S(p[1]) : "", ")"); auto inst = [&](const vector<vector<I>> &rows) { vector<vector<I>> o; for (auto &r : rows) { vector<I> x(k + 1, 0); x[0] = r[0]; for (int j = 0; j < np; ++j) x[0] += r[1 + j] * p[j]; for (int j = 0; j < k; ++j) x[j + 1] = r[1 + np + j]; o.push_back(x); } return o; };
		if (B.nd) throw Overflow(); auto eq = inst(B.eq), in = inst(B.ineq); PtSet want = brute(eq, in, k), got; vector<Pt> at_v(g.v.size());
		for (size_t i = 0; i < g.v.size(); ++i) { Pt x; for (auto &e : g.v[i].e) x.push_back(eval(e, p)); at_v[i] = x; if (!contains(g.v[i].dom, p)) continue; if (!feas(eq, in, x)) { PtSet o; o.insert(x); fail("feasible|" + t, cat("vertex ", g.v[i].id, at, " is ", show(o), ", outside the polytope")); } got.insert(x); }
		Feas nonempty = FEAS; bool needed = exact || (feasible(eq, in, k) == FEAS);
		if (exact) { if (got != want) fail("vertices|" + t, cat("vertices", at, " are ", show(got), " expected ", show(want))); }
		else if (bounded && needed) { // every integer point of the polytope is in the hull of the listed vertices: compare extreme values in many directions
			if (got.empty()) fail("vertices|" + t, "no vertices" + at); for (auto &x : want) { bool integral = true; for (auto &c : x) integral &= c.isint(); if (integral && !got.count(x)) fail("vertices|" + t, cat("integer vertex missing", at, ": listed ", show(got), " expected ", show(want))); } }
		(void)nonempty; int inside = 0, cover = 0, dis = 0;
		for (auto &c : g.c) { if (!contains(c.dom, p)) continue; ++cover; PtSet s; for (int v : c.v) s.insert(at_v[g.idx[v]]); if (exact && s != want) fail("cell|" + t, cat("vertices of the cell", at, " are ", show(s), " expected ", show(want))); for (auto &x : s) if (!feas(eq, in, x)) fail("cell|" + t, cat("vertex of a cell", at, " outside the polytope")); 
			bool strict = c.dom.b.size() == 1; if (strict) for (auto &r : c.dom.b[0].ineq) { I v = r[0]; for (int j = 0; j < np; ++j) v += r[1 + j] * p[j]; if (v <= 0) strict = false; } if (strict && exact) ++inside; }
		for (auto &c : g.d) { if (!contains(c.dom, p)) continue; ++dis; if (!exact) continue; PtSet s; for (int v : c.v) s.insert(at_v[g.idx[v]]); if (s != want) fail("disjoint cell|" + t, cat("vertices of the disjoint cell", at, " are ", show(s), " expected ", show(want))); }
		if (inside > 1) fail("cells|" + t, cat(inside, " cells contain the parameter value in their interior", at)); if (exact ? !!cover != !want.empty() : (bounded && needed && !cover)) fail("cells|" + t, cat(cover, " cells cover the parameter value", at, " which has vertices ", show(want))); if (dis > 1 || (!!dis != !!cover && (exact || needed))) fail("disjoint cells|" + t, cat(dis, " disjoint cells contain the parameter value", at));
		if (exact && g.simplices) for (auto *cs : {&g.c, &g.d}) for (auto &c : *cs) { if (!contains(c.dom, p)) continue; Rat sum(0); for (auto &sx : c.simp) { if ((int)sx.size() != k + 1) fail("simplex|" + t, cat("simplex with ", sx.size(), " vertices")); vector<vector<Rat>> M; for (int j = 1; j <= k; ++j) { vector<Rat> r; for (int d = 0; d < k; ++d) r.push_back(at_v[g.idx[sx[j]]][d] - at_v[g.idx[sx[0]]][d]); M.push_back(r); } Rat d = det(M); sum = sum + (d.n < 0 ? -d : d); for (int v : sx) if (std::find(c.v.begin(), c.v.end(), v) == c.v.end()) fail("simplex|" + t, "simplex uses a vertex that is not active on the cell"); }
			Rat vol(0); if (k == 1) vol = want.size() < 2 ? Rat(0) : (*want.rbegin())[0] - (*want.begin())[0]; else if (k == 2) vol = area2(want); else continue; if (sum != vol) fail("triangulation|" + t, cat("simplices", at, " have total volume ", sum.s(), "/", k, "! expected ", vol.s())); }
		note_state(mc::hash_bytes(show(want).data(), show(want).size()));
	}
	note_outcome(g.c.size() > 1 ? "several chambers" : g.c.size() ? "one chamber" : "no chamber"); note_validated();
}
static void check(const string &t, int np, int k, I lo, I hi, bool bounded) { try { check_(t, np, k, lo, hi, bounded); } catch (Overflow &) { note_outcome("outside the model"); } }
int main(int argc, char **argv) {
	mc::Harness h; h.property = "C31"; g_th = tier_thorough(argc, argv);
	auto add = [&](const string &n, mc::Radix r, std::function<void(const vector<uint64_t> &)> f, std::function<string(const vector<uint64_t> &)> d) { h.add(mc::SpaceDef(n, r.size(), [=](uint64_t i) { f(r.at(i)); }, [=](uint64_t i) { return d(r.at(i)); })); };
	static const vector<string> C1 = {"", "i >= 0", "i <= n", "2i <= n", "i >= n", "3i >= n - 2", "i <= m", "i <= n + m", "2i >= m", "i <= 3", "i >= -2", "2i = n", "i = n + 1", "i >= 2n - 5", "n >= 1", "n = m", "m >= 2", "i + m <= 4"};
	{ mc::Radix r({C1.size(), C1.size(), C1.size(), C1.size()}); auto tx = [](const vector<uint64_t> &v) { string s = "[n, m] -> { [i] : -4 <= i <= 6"; for (auto x : v) if (C1[x].size()) s += " and " + C1[x]; return s + " }"; }; add("segments, two parameters", r, [=](const vector<uint64_t> &v) { if (!(v[0] <= v[1] && v[1] <= v[2] && v[2] <= v[3])) return; check(tx(v), 2, 1, -5, 8, true); }, tx); }
	static const vector<string> C2 = {"", "i <= n", "j <= n", "j <= i", "i + j <= n", "2i + j <= n", "i - j >= n - 4", "i + 2j >= 3", "j <= m", "i <= m", "i + j <= m", "2j <= 2i - m + n", "2i >= j + 1", "i + j >= n - 3", "j = i", "i + j = n", "n = m", "n >= 3", "3j <= 2i + m", "i <= 4", "2j = n", "n + m <= 5"};
	auto tx2 = [](const char *base, const vector<uint64_t> &v, size_t from) { string s = base; for (size_t k = from; k < v.size(); ++k) if (C2[v[k]].size()) s += " and " + C2[v[k]]; return s + " }"; };
	static const vector<const char *> B2 = {"[n, m] -> { [i, j] : 0 <= i, j <= 7", "[n, m] -> { [i, j] : i >= 0 and j >= 0", "[n, m] -> { [i, j] : i <= j + 5 and j <= 5 - i and i >= -1"};
	for (size_t b = 0; b < B2.size(); ++b) { const char *base = B2[b]; mc::Radix r({C2.size(), C2.size(), C2.size()}); auto f = [=](const vector<uint64_t> &v) { return tx2(base, v, 0); }; add(cat("polygons, two parameters, base ", b), r, [=](const vector<uint64_t> &v) { if (!(v[0] <= v[1] && v[1] <= v[2])) return; check(f(v), 2, 2, g_th ? -4 : -2, g_th ? 9 : 7, b != 1); }, f);
		if (g_th) { mc::Radix r4({C2.size(), C2.size(), C2.size(), C2.size()}); add(cat("polygons, two parameters, four constraints, base ", b), r4, [=](const vector<uint64_t> &v) { if (!(v[0] < v[1] && v[1] < v[2] && v[2] < v[3])) return; check(f(v), 2, 2, -2, 7, b != 1); }, f); } }
	static const vector<string> C3 = {"", "k <= n", "i + j + k <= n", "j <= k", "i + k <= 4", "i <= n", "i + j <= n", "2k <= i + j", "k = i", "j + k >= n - 2", "i <= j", "i + j >= k + n - 5"};
	{ mc::Radix r({C3.size(), C3.size(), C3.size()}); auto f = [=](const vector<uint64_t> &v) { string s = "[n] -> { [i, j, k] : 0 <= i, j, k <= 5"; for (auto x : v) if (C3[x].size()) s += " and " + C3[x]; return s + " }"; }; add("polyhedra in three dimensions, one parameter", r, [=](const vector<uint64_t> &v) { if (!(v[0] <= v[1] && v[1] <= v[2])) return; check(f(v), 1, 3, -3, 18, true); }, f); }
	static const vector<string> C0 = {"", "n >= 1", "n + m <= 4", "n = m", "2n <= 3m", "1 = 0"};
	{ mc::Radix r({C0.size(), C0.size()}); auto f = [=](const vector<uint64_t> &v) { string s = "[n, m] -> { [] : 0 = 0"; for (auto x : v) if (C0[x].size()) s += " and " + C0[x]; return s + " }"; }; add("no set dimensions", r, [=](const vector<uint64_t> &v) { check(f(v), 2, 0, -3, 5, true); }, f); }
	{ // no parameters: arbitrary coefficients
		mc::Radix r({5, 5, 4, 5, 5, 4}); auto f = [=](const vector<uint64_t> &v) { return cat("{ [i, j] : -3 <= i <= 4 and -2 <= j <= 3 and ", (int)v[0] - 2, "i + ", (int)v[1] - 2, "j <= ", (int)v[2] * 2 - 1, " and ", (int)v[3] - 2, "i + ", (int)v[4] - 2, "j <= ", (int)v[5] * 2 - 2, " }"); }; add("polygons without parameters", r, [=](const vector<uint64_t> &v) { check(f(v), 0, 2, 0, 0, true); }, f); }
	h.bounds["spaces"] = "segments, polygons and polyhedra in up to 3 dimensions with up to 2 parameters from 2-4 extra constraints; every integer parameter value in [-5,8]^2 (2 dimensions: [-2,7]^2, 3 dimensions: [-3,18])";
	return mc::run(argc, argv, h);
}
