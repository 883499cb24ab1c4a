// Alphabets of small integer sets, each with its reference model.
#pragma once
#include "model.hpp"
#include <map>
#include <set>
#include <tuple>

namespace shp {
using namespace mdl;
using mc::cat;

struct Shape {
	std::vector<Basic> b;      // union of these (model; divisions as existentials)
	std::string body;          // constraint text over the variable names
};

static const std::vector<std::string> &names(int nv, int np = 0) {
	static std::map<std::pair<int, int>, std::vector<std::string>> m;
	auto &v = m[{nv, np}];
	if (v.empty()) {
		static const char *P[] = {"n", "m", "p", "q"}, *X[] = {"x", "y", "z", "w", "u", "v"};
		for (int i = 0; i < np; ++i) v.push_back(P[i]);
		for (int i = 0; i < nv; ++i) v.push_back(X[i]);
	}
	return v;
}
inline Basic uni(int nv) { Basic b; b.nv = nv; return b; }
inline std::vector<I> row(int nv, int nd, std::initializer_list<int> l) { std::vector<I> r(1 + nv + nd, 0); int i = 0; for (int x : l) r[i++] = x; return r; }
inline void setnd(Basic &b, int nd) {
	for (auto *m : {&b.eq, &b.ineq}) for (auto &r : *m) r.resize(1 + b.nv + nd, 0);
	b.nd = nd; b.divs.assign(nd, Div()); for (auto &d : b.divs) d.known = false;
}
// conjunction; existentials renumbered
inline Basic conj(const Basic &a, const Basic &b) {
	Basic r = a; setnd(r, a.nd + b.nd);
	for (int t = 0; t < 2; ++t) for (auto &q : t ? b.ineq : b.eq) {
		std::vector<I> n(1 + a.nv + r.nd, 0);
		for (int i = 0; i <= a.nv; ++i) n[i] = q[i];
		for (int i = 0; i < b.nd; ++i) n[1 + a.nv + a.nd + i] = q[1 + a.nv + i];
		(t ? r.ineq : r.eq).push_back(n);
	}
	return r;
}
inline Basic ineq(int nv, std::vector<int> l) { Basic b = uni(nv); std::vector<I> r(1 + nv, 0); for (size_t i = 0; i < l.size(); ++i) r[i] = l[i]; b.ineq.push_back(r); return b; }
inline Basic eq(int nv, std::vector<int> l) { Basic b = uni(nv); std::vector<I> r(1 + nv, 0); for (size_t i = 0; i < l.size(); ++i) r[i] = l[i]; b.eq.push_back(r); return b; }
// exists e: rows over [cst, vars, e]
inline Basic exi(int nv, int nd, std::vector<std::vector<int>> eqs, std::vector<std::vector<int>> ins) {
	Basic b = uni(nv); setnd(b, nd);
	for (auto &q : eqs) b.eq.push_back(std::vector<I>(q.begin(), q.end()));
	for (auto &q : ins) b.ineq.push_back(std::vector<I>(q.begin(), q.end()));
	return b;
}
// lin = c + a.x ; stride: lin mod m == 0
inline Basic stride(int nv, std::vector<int> l, int m) { l.resize(1 + nv, 0); l.push_back(-m); return exi(nv, 1, {l}, {}); }
inline Basic box(int nv, int lo, int hi, int from = 0) {
	Basic b = uni(nv);
	for (int i = from; i < nv; ++i) { std::vector<I> r(1 + nv, 0); r[1 + i] = 1; r[0] = -lo; b.ineq.push_back(r); r[1 + i] = -1; r[0] = hi; b.ineq.push_back(r); }
	return b;
}
inline std::string text(const std::vector<Basic> &b, const std::vector<std::string> &nm) {
	std::string s;
	for (auto &x : b) { std::string t = basic_text(x, nm); if (t.empty()) t = "true"; s += (s.empty() ? "(" : " or (") + t + ")"; }
	return s.empty() ? "false" : s;
}
inline Shape mk(std::vector<Basic> b, int nv, int np = 0) { Shape s; s.body = text(b, names(nv - np, np)); s.b = std::move(b); return s; }
inline std::string tuple(int n, const std::vector<std::string> &nm, int from, const std::string &name) {
	std::string s = name + "["; for (int i = 0; i < n; ++i) s += (i ? "," : "") + nm[from + i]; return s + "]";
}
inline std::string params(int np) { if (!np) return ""; auto &nm = names(0, np); std::string s = "["; for (int i = 0; i < np; ++i) s += (i ? "," : "") + nm[i]; return s + "] -> "; }
inline std::string set_text(const Shape &s, int nv, int np = 0, const std::string &name = "") {
	return params(np) + "{ " + tuple(nv, names(nv, np), np, name) + " : " + s.body + " }";
}
inline std::string map_text(const Shape &s, int ni, int no, int np = 0, const std::string &in = "", const std::string &out = "") {
	auto &nm = names(ni + no, np);
	return params(np) + "{ " + tuple(ni, nm, np, in) + " -> " + tuple(no, nm, np + ni, out) + " : " + s.body + " }";
}
inline bool contains(const Shape &s, const I *x) { for (auto &b : s.b) if (mdl::contains(b, x)) return true; return false; }
inline Bits bits(const Shape &s, const Window &w) {
	Bits r((w.count + 63) / 64, 0);
	for (auto &b : s.b) bits_basic(b, w, r);
	return r;
}

// keep at most `per` shapes with the same points in the window and the same kind of description
struct Dedup {
	const Window &w; int per; std::map<std::tuple<Bits, int, int>, int> seen;
	Dedup(const Window &w_, int p) : w(w_), per(p) {}
	bool fresh(const Shape &s) {
		int nd = 0, ne = 0; for (auto &b : s.b) { nd += b.nd; ne += b.eq.size(); }
		return seen[std::make_tuple(bits(s, w), nd, s.b.size() > 1 ? 0 : ne)]++ < per;
	}
};

// primitive directions with coefficients bounded by c in d dimensions (both signs)
inline std::vector<std::vector<int>> dirs(int d, int c) {
	std::vector<std::vector<int>> r; std::vector<int> x(d, -c);
	for (;;) {
		I g = 0; for (int v : x) g = gcdll(g, v);
		if (g == 1) r.push_back(x);
		int k = d - 1; for (; k >= 0; --k) { if (++x[k] <= c) break; x[k] = -c; }
		if (k < 0) break;
	}
	return r;
}
inline std::vector<int> lin(int c, const std::vector<int> &d) { std::vector<int> r(1, c); r.insert(r.end(), d.begin(), d.end()); return r; }

// Basic sets in nv (=2) variables.  depth 1..3: number of cuts of the box.
inline std::vector<Shape> basics2(int per, int cuts, int clo, int chi, bool with_unbounded, bool with_divs, int cap = 1 << 30) {
	const int nv = 2;
	static Window w = Window::cube(2, -3, 6);
	Dedup dd(w, per);
	std::vector<Shape> out;
	auto push = [&](const Basic &b) { Shape s = mk({b}, nv); if ((int) out.size() < cap && dd.fresh(s)) out.push_back(s); };
	Basic bx = box(nv, 0, 3);
	push(uni(nv)); push(bx); push(ineq(nv, {-1}));
	std::vector<Basic> cut;
	for (auto &d : dirs(2, 2)) for (int c = clo; c <= chi; ++c) cut.push_back(ineq(nv, lin(c, d)));
	for (auto &c : cut) { push(conj(bx, c)); if (with_unbounded) push(c); }
	std::vector<Basic> eqs;
	for (auto &d : dirs(2, 2)) if (d[0] > 0 || (d[0] == 0 && d[1] > 0)) for (int c = -3; c <= 1; ++c) eqs.push_back(eq(nv, lin(c, d)));
	for (auto &c : eqs) { push(conj(bx, c)); if (with_unbounded) push(c); }
	if (with_divs) {
		std::vector<Basic> st;
		for (int m = 2; m <= 3; ++m) for (auto d : std::vector<std::vector<int>>{{1, 0}, {0, 1}, {1, 1}, {1, -1}, {1, 2}, {2, 1}}) for (int c = 0; c < m; ++c) st.push_back(stride(nv, lin(c, d), m));
		// floor couplings and integer gaps; columns: cst x y e
		for (int c = 0; c <= 1; ++c) {
			st.push_back(exi(nv, 1, {{c, 1, 0, -2}}, {{0, 0, -1, 1}}));            // x+c = 2e, y <= e
			st.push_back(exi(nv, 1, {}, {{c, 1, 0, -2}, {1 - c, -1, 0, 2}, {0, 0, 1, -1}}));   // e = floor((x+c)/2), y >= e
			st.push_back(exi(nv, 1, {{0, 0, 1, -1}}, {{c, 1, 0, -2}, {1 - c, -1, 0, 2}}));     // y = floor((x+c)/2)
			st.push_back(exi(nv, 1, {}, {{c, 1, 0, -3}, {2 - c, -1, 0, 3}, {1, 0, 1, -2}, {1, 0, -1, 2}})); // |y - 2 floor((x+c)/3)| <= 1
			st.push_back(exi(nv, 1, {}, {{c, -1, 0, 2}, {0, 0, 1, -3}, {1, 0, 0, 1}}));      // 2e >= x-c, 3e <= y
			st.push_back(exi(nv, 1, {}, {{-1, 1, 1, -3}, {c, -1, 0, 2}, {4, 0, 0, -1}}));    // 3e <= x+y-1, 2e >= x-c
			st.push_back(exi(nv, 1, {}, {{0, 2, 1, -4}, {1 + c, -2, -1, 4}}));               // 2x+y mod 4 in {0..1+c}
		}
		for (auto &s : st) { push(conj(bx, s)); if (with_unbounded) push(s); }
		for (size_t i = 0; i < st.size(); i += 1) for (size_t j = 0; j < cut.size(); j += 5) push(conj(conj(bx, st[i]), cut[(j + i) % cut.size()]));
		for (size_t i = 0; i < st.size(); ++i) for (size_t j = i + 1; j < st.size(); j += 4) push(conj(conj(bx, st[i]), st[j]));
	}
	if (cuts >= 2) for (size_t i = 0; i < cut.size(); ++i) for (size_t j = i + 1; j < cut.size(); ++j) push(conj(conj(bx, cut[i]), cut[j]));
	return out;
}

// select k shapes spread deterministically over v
inline std::vector<Shape> pick(const std::vector<Shape> &v, size_t k) {
	if (v.size() <= k) return v;
	std::vector<Shape> r; for (size_t i = 0; i < k; ++i) r.push_back(v[i * v.size() / k]); return r;
}
// all unions of two members (deduplicated)
inline std::vector<Shape> unions2(const std::vector<Shape> &v, int nv, const Window &w, int per, size_t cap = 1 << 30, int np = 0) {
	Dedup dd(w, per); std::vector<Shape> out;
	for (size_t i = 0; i < v.size(); ++i) for (size_t j = i + 1; j < v.size(); ++j) {
		std::vector<Basic> b = v[i].b; b.insert(b.end(), v[j].b.begin(), v[j].b.end());
		Shape s = mk(b, nv, np);
		if (dd.fresh(s)) out.push_back(s);
	}
	return out.size() > cap ? pick(out, cap) : out;
}
} // namespace shp
