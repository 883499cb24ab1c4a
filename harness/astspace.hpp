// The space of code generation problems shared by C19 and C20.
#pragma once
#include "astrun.hpp"
#include <isl/schedule.h>
#include <isl/schedule_node.h>
#include <isl/options.h>
namespace gen {
using ast::Inst;
struct Expr { string t; std::function<I(I, const I *)> f; };   // over n and the statement's dimensions
#define EX(T, C) Expr{T, [](I n, const I *v) -> I { I x = v[0], y = v[1]; (void) n; (void) x; (void) y; return C; }}
typedef vector<Expr> Sched;
struct Stmt { string name; int nd; Shape dom; };
struct Key { vector<I> v; vector<char> un; };                  // un: position of an unordered (set) node
struct TN { string y; std::function<void(const Inst &, I, Key &)> key; };
struct Problem {
	string what, context, options, map, tree; std::function<bool(I)> ctx_ok; int flags = 0; bool unroll = false;
	std::function<vector<Inst>(I)> insts; std::function<void(const Inst &, I, Key &)> key;
};
inline vector<Inst> enumerate(const vector<Stmt> &st, I n, I lo, I hi) {
	vector<Inst> r;
	for (auto &s : st) { I v[4] = {n, 0, 0, 0}; if (s.nd == 0) { if (shp::contains(s.dom, v)) r.push_back({s.name, {}}); continue; }
		for (v[1] = lo; v[1] <= hi; ++v[1]) { if (s.nd == 1) { if (shp::contains(s.dom, v)) r.push_back({s.name, {v[1]}}); continue; } for (v[2] = lo; v[2] <= hi; ++v[2]) if (shp::contains(s.dom, v)) r.push_back({s.name, {v[1], v[2]}}); } }
	return r;
}
inline string dims(const Stmt &s) { return s.nd == 0 ? "[]" : s.nd == 1 ? "[x]" : "[x,y]"; }
inline string dom_text(const Stmt &s, const string &extra = "") { return s.name + dims(s) + " : (" + s.dom.body + ")" + extra; }
inline string domains(const vector<Stmt> &st) { string r; for (auto &s : st) r += (r.empty() ? "" : "; ") + dom_text(s); return "[n] -> { " + r + " }"; }
inline string sched_map(const vector<Stmt> &st, const vector<Sched> &sc) {
	string r; for (size_t i = 0; i < st.size(); ++i) { r += (i ? "; " : "") + st[i].name + dims(st[i]) + " -> ["; for (size_t k = 0; k < sc[i].size(); ++k) r += (k ? "," : "") + ("(" + sc[i][k].t + ")"); r += "] : (" + st[i].dom.body + ")"; }
	return "[n] -> { " + r + " }";
}
inline I ev(const Expr &e, const Inst &i, I n) { I v[3] = {0, 0, 0}; for (size_t k = 0; k < i.x.size(); ++k) v[k] = i.x[k]; return e.f(n, v); }
// tree nodes
inline TN leaf() { return {"", [](const Inst &, I, Key &) {}}; }
inline string child(const TN &c) { return c.y.empty() ? "" : ", child: " + c.y; }
inline TN band(const vector<Stmt> &st, const vector<Sched> &sc, const string &opt, TN c, const string &extra = "") {
	string y = "{ schedule: \"[n] -> ["; size_t m = sc[0].size();
	for (size_t k = 0; k < m; ++k) { string r; for (size_t i = 0; i < st.size(); ++i) r += (i ? "; " : "") + st[i].name + dims(st[i]) + " -> [(" + sc[i][k].t + ")]"; y += (k ? ", " : "") + ("{ " + r + " }"); }
	y += "]\""; if (!opt.empty()) y += ", options: \"" + opt + "\""; y += extra + child(c) + " }";
	std::map<string, Sched> by; for (size_t i = 0; i < st.size(); ++i) by[st[i].name] = sc[i];
	return {y, [by, c](const Inst &i, I n, Key &k) { for (auto &e : by.at(i.name)) { k.v.push_back(ev(e, i, n)); k.un.push_back(0); } c.key(i, n, k); }};
}
struct Branch { string filter; std::function<bool(const Inst &, I)> in; TN c; };
inline TN seq(const vector<Branch> &b, bool isset = false) {
	string y = isset ? "{ set: [" : "{ sequence: [";
	for (size_t k = 0; k < b.size(); ++k) y += (k ? ", " : "") + ("{ filter: \"" + b[k].filter + "\"" + child(b[k].c) + " }");
	y += "] }";
	return {y, [b, isset](const Inst &i, I n, Key &k) { for (size_t j = 0; j < b.size(); ++j) if (b[j].in(i, n)) { k.v.push_back(j); k.un.push_back(isset); b[j].c.key(i, n, k); return; } fail("model", "instance in no branch " + ast::show(i)); }};
}
inline TN mark(const string &m, TN c) { return {"{ mark: \"" + m + "\"" + child(c) + " }", c.key}; }
inline TN context(const string &s, TN c) { return {"{ context: \"" + s + "\"" + child(c) + " }", c.key}; }
inline string root(const string &dom, TN c) { return "{ domain: \"" + dom + "\"" + child(c) + " }"; }
// is a executed strictly before b required to be the other way around?
inline bool before(const Key &a, const Key &b) {   // a strictly before b
	for (size_t k = 0; k < a.v.size() && k < b.v.size(); ++k) if (a.v[k] != b.v[k]) return !(a.un[k] || b.un[k]) && a.v[k] < b.v[k];
	return false;
}
inline void set_flags(int f) {
	isl_options_set_ast_build_atomic_upper_bound(ctx, !(f & 1)); isl_options_set_ast_build_prefer_pdiv(ctx, !(f & 2)); isl_options_set_ast_build_detect_min_max(ctx, !!(f & 4)); isl_options_set_ast_build_exploit_nested_bounds(ctx, !(f & 8));
	isl_options_set_ast_build_group_coscheduled(ctx, !!(f & 16)); isl_options_set_ast_build_separation_bounds(ctx, f & 32 ? ISL_AST_BUILD_SEPARATION_BOUNDS_IMPLICIT : ISL_AST_BUILD_SEPARATION_BOUNDS_EXPLICIT); isl_options_set_ast_build_scale_strides(ctx, !(f & 64));
	isl_options_set_ast_build_allow_else(ctx, !(f & 128)); isl_options_set_ast_build_allow_or(ctx, !(f & 256));
}
static const vector<int> FLAGS = {0, 1, 2, 4, 8, 16, 32, 64, 128, 256, 128 + 256, 1 + 8 + 64, 4 + 16 + 32, 511};
typedef std::function<isl_ast_build *(isl_ast_build *)> BuildHook;
// returns NULL when an unrolling was requested that isl cannot perform
inline isl_ast_node *generate(const Problem &p, BuildHook hook = nullptr) {
	set_flags(p.flags);
	isl_set *c = isl_set_read_from_str(ctx, p.context.c_str()); if (!c) fail("parse", p.context);
	isl_ast_build *b = isl_ast_build_from_context(c); isl_ast_node *n = nullptr; string bad;
	if (hook) b = hook(b);
	if (!p.map.empty()) {
		isl_union_map *s = isl_union_map_read_from_str(ctx, p.map.c_str()); if (!s) bad = "parse: " + p.map;
		if (!p.options.empty()) { isl_union_map *o = isl_union_map_read_from_str(ctx, p.options.c_str()); if (!o) bad = "parse: " + p.options; b = isl_ast_build_set_options(b, o); }
		n = isl_ast_build_node_from_schedule_map(b, s);
	} else { isl_schedule *s = isl_schedule_read_from_str(ctx, p.tree.c_str()); if (!s) bad = "parse: " + p.tree; n = isl_ast_build_node_from_schedule(b, s); }
	isl_ast_build_free(b); note_transition();
	set_flags(0);
	if (!bad.empty()) { isl_ast_node_free(n); fail("parse", bad); }
	if (!n) {
		string m = isl_ctx_last_error_msg(ctx) ? isl_ctx_last_error_msg(ctx) : ""; mc::take_error();
		if (p.unroll && m.find("unroll") != string::npos) { note_outcome("unrolling rejected"); return nullptr; }
		fail(cat("ast|", p.what), "code generation failed: " + m);
	}
	return n;
}
inline string judge(const Problem &p, I n, const vector<Inst> &out) {
	vector<Inst> want = p.insts(n), got = out; std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end());
	for (size_t i = 0; i + 1 < got.size(); ++i) if (got[i] == got[i + 1]) return cat("for n = ", S(n), ": ", ast::show(got[i]), " executed twice");
	for (auto &i : got) if (!std::binary_search(want.begin(), want.end(), i)) return cat("for n = ", S(n), ": ", ast::show(i), " executed but not scheduled");
	for (auto &i : want) if (!std::binary_search(got.begin(), got.end(), i)) return cat("for n = ", S(n), ": ", ast::show(i), " not executed");
	vector<Key> k(out.size()); for (size_t i = 0; i < out.size(); ++i) p.key(out[i], n, k[i]);
	for (size_t i = 0; i < out.size(); ++i) for (size_t j = 0; j < i; ++j) if (before(k[i], k[j])) return cat("for n = ", S(n), ": ", ast::show(out[j]), " executed before ", ast::show(out[i]));
	return "";
}
// ---- the alphabets ----
inline vector<Sched> scheds2() {
	return {{EX("x", x), EX("y", y), EX("0", 0)}, {EX("y", y), EX("x", x), EX("0", 0)}, {EX("x + y", x + y), EX("y", y), EX("0", 0)}, {EX("-x", -x), EX("2y", 2 * y), EX("0", 0)}, {EX("floor(x/2)", fdiv(x, 2)), EX("y", y), EX("x", x)},
		{EX("x - 2*floor(x/2)", mod(x, 2)), EX("x", x), EX("y", y)}, {EX("2x + 1", 2 * x + 1), EX("y", y), EX("0", 0)}, {EX("0", 0), EX("x", x), EX("y", y)}, {EX("x + n", x + n), EX("-y", -y), EX("1", 1)},
		{EX("3*floor(y/3)", 3 * fdiv(y, 3)), EX("x", x), EX("y", y)}, {EX("floor((x + y)/2)", fdiv(x + y, 2)), EX("x", x), EX("y", y)}, {EX("x", x), EX("0", 0), EX("0", 0)}, {EX("3x - 2y", 3 * x - 2 * y), EX("x", x), EX("y", y)}, {EX("0", 0), EX("x - y", x - y), EX("2", 2)}};
}
inline vector<Sched> scheds1() {
	return {{EX("x", x), EX("0", 0), EX("1", 1)}, {EX("x", x), EX("x", x), EX("0", 0)}, {EX("0", 0), EX("x", x), EX("0", 0)}, {EX("2x", 2 * x), EX("0", 0), EX("1", 1)}, {EX("-x", -x), EX("1", 1), EX("0", 0)}, {EX("floor(x/2)", fdiv(x, 2)), EX("x", x), EX("1", 1)}, {EX("x", x), EX("n", n), EX("0", 0)}, {EX("1", 1), EX("x", x), EX("0", 0)}};
}
inline Shape sh(const Basic &b, int nv) { return mk({b}, nv, 1); }
// domains over n,x,y (coefficient rows: [1, n, x, y])
inline vector<Shape> doms2() {
	int N = 3; Basic b = box(N, 0, 3, 1); auto C = [&](std::initializer_list<vector<int>> l) { Basic r = uni(N); for (auto &x : l) r = conj(r, ineq(N, x)); return r; };
	Basic rect = C({{0, 0, 1, 0}, {-1, 1, -1, 0}, {0, 0, 0, 1}, {-1, 1, 0, -1}});          // 0 <= x,y < n
	Basic tri = C({{0, 0, 1, 0}, {0, 0, -1, 1}, {-1, 1, 0, -1}});                            // 0 <= x <= y < n
	Basic mix = C({{0, 0, 1, 0}, {-1, 1, -1, 0}, {0, 0, 0, 1}, {2, 0, 0, -1}});              // 0 <= x < n, 0 <= y <= 2
	vector<Shape> r = {sh(b, N), sh(rect, N), sh(tri, N), sh(mix, N)};
	r.push_back(sh(conj(rect, stride(N, {0, 0, 1, 0}, 2)), N)); r.push_back(sh(conj(b, stride(N, {1, 0, 1, 1}, 3)), N)); r.push_back(sh(conj(mix, stride(N, {0, -1, 1, 0}, 2)), N)); r.push_back(sh(conj(b, eq(N, {0, 0, 2, -1})), N));
	r.push_back(sh(conj(b, ineq(N, {-2, 1, 1, -1})), N)); r.push_back(sh(conj(b, ineq(N, {-3, 1, 0, 0})), N)); r.push_back(mk({conj(b, ineq(N, {1, 0, -1, 0})), conj(rect, ineq(N, {-2, 0, 0, 1}))}, N, 1));
	r.push_back(mk({conj(b, ineq(N, {0, 0, -1, 0})), conj(b, ineq(N, {-2, 0, 1, 0}))}, N, 1)); r.push_back(sh(conj(rect, ineq(N, {1, -1, 1, 1})), N)); r.push_back(sh(conj(b, stride(N, {0, 1, 1, 0}, 3)), N)); r.push_back(sh(conj(mix, ineq(N, {0, -1, 2, 1})), N)); r.push_back(sh(conj(tri, stride(N, {0, 0, 1, -1}, 2)), N));
	r.push_back(mk({conj(b, eq(N, {-1, 0, 1, 0})), conj(b, eq(N, {-3, 0, 0, 1}))}, N, 1)); r.push_back(sh(conj(conj(rect, ineq(N, {0, 1, -3, 0})), ineq(N, {0, 0, 2, -1})), N)); r.push_back(sh(conj(rect, exi(N, 1, {}, {{0, 0, 1, 0, -2}, {1, 0, -1, 0, 2}, {0, 0, 0, 1, -1}, {1, 0, 0, -1, 1}})), N));
	return r;
}
inline vector<Shape> doms1() {
	int N = 2; auto C = [&](std::initializer_list<vector<int>> l) { Basic r = uni(N); for (auto &x : l) r = conj(r, ineq(N, x)); return r; };
	Basic a = C({{0, 0, 1}, {3, 0, -1}}), b = C({{0, 0, 1}, {-1, 1, -1}}), c = C({{0, -1, 1}, {3, 1, -1}});
	return {sh(a, N), sh(b, N), sh(c, N), sh(conj(b, stride(N, {1, 0, 1}, 3)), N), sh(conj(a, ineq(N, {-2, 1, 0})), N), mk({conj(a, ineq(N, {0, 0, -1})), conj(b, ineq(N, {-2, 0, 1}))}, N, 1), sh(conj(a, stride(N, {0, 1, 1}, 2)), N), sh(conj(a, eq(N, {1, -1, 1})), N)};
}
struct Ctx { string t; std::function<bool(I)> ok; };
inline vector<Ctx> contexts() { return {{"{ : }", [](I) { return true; }}, {"[n] -> { : n >= 1 }", [](I n) { return n >= 1; }}, {"[n] -> { : n mod 2 = 0 and n >= 0 }", [](I n) { return n >= 0 && mod(n, 2) == 0; }}, {"[n] -> { : n = 4 }", [](I n) { return n == 4; }}, {"[n] -> { : n <= 0 or n >= 4 }", [](I n) { return n <= 0 || n >= 4; }}}; }
inline vector<string> options3() {
	return {"", "{ [a,b,c] -> separate[x] }", "{ [a,b,c] -> atomic[x] }", "{ [a,b,c] -> separate[0]; [a,b,c] -> atomic[1] }", "{ [a,b,c] -> separate[x] : x >= 1 and a <= 1 }", "{ [a,b,c] -> unroll[0] : 0 <= a <= 3 }", "{ [a,b,c] -> unroll[x] }",
		"{ [a,b,c] -> separation_class[[0] -> [0]] : 1 <= a <= 2 }", "{ [a,b,c] -> unroll[1]; [a,b,c] -> separate[0] }", "[n] -> { [a,b,c] -> separate[0] : a <= n - 2; [a,b,c] -> atomic[1] : b >= 1 }", "{ [a,b,c] -> unroll[2]; [a,b,c] -> unroll[0] : a mod 2 = 0 and 0 <= a <= 2 }", "{ [a,b,c] -> separation_class[[1] -> [0]] : b >= 1; [a,b,c] -> separation_class[[1] -> [1]] : b <= 0 }"};
}
inline Problem map_problem(const vector<Stmt> &st, const vector<Sched> &sc, const Ctx &c, const string &opt, int flags) {
	Problem p; p.map = sched_map(st, sc); p.context = c.t; p.ctx_ok = c.ok; p.options = opt; p.flags = flags; p.unroll = opt.find("unroll") != string::npos;
	p.what = cat(p.map, " context ", c.t, " options ", opt, " flags ", flags);
	p.insts = [st](I n) { return enumerate(st, n, -3, 10); };
	std::map<string, Sched> by; for (size_t i = 0; i < st.size(); ++i) by[st[i].name] = sc[i];
	p.key = [by](const Inst &i, I n, Key &k) { for (auto &e : by.at(i.name)) { k.v.push_back(ev(e, i, n)); k.un.push_back(0); } };
	return p;
}
inline Problem tree_problem(const vector<Stmt> &st, TN t, const Ctx &c, int flags, bool unroll) {
	Problem p; p.tree = root(domains(st), t); p.context = c.t; p.ctx_ok = c.ok; p.flags = flags; p.unroll = unroll; p.what = cat(p.tree, " context ", c.t, " flags ", flags);
	p.insts = [st](I n) { return enumerate(st, n, -3, 10); }; p.key = t.key; return p;
}
// schedule trees over S[x,y] and T[x]; `shape` selects the form
static const int NSHAPES = 15;
inline vector<string> bandopts() { return {"", "{ separate[x] }", "{ atomic[x] }", "{ unroll[x] }", "{ isolate[[] -> [a]] : 1 <= a <= 2 }", "[n] -> { isolate[[] -> [a]] : a <= n - 3; separate[x] }", "{ isolate[[] -> [a]] : a >= 1; [isolate[] -> unroll[x]] : 0 = 1; atomic[x] }"}; }
inline TN shape(int k, const vector<Stmt> &st, const Sched &s, const Sched &t, const string &o) {
	auto one = [](const Sched &q, int i) { return Sched{q[i]}; };
	auto all = [](const Sched &q) { return q; };
	vector<Stmt> vs = {st[0]}, vt = {st[1]};
	auto fS = [](const Inst &i, I) { return i.name == "S"; }; auto fT = [](const Inst &i, I) { return i.name == "T"; };
	string S_ = "[n] -> { S[x,y] }", T_ = "[n] -> { T[x] }";
	string o2 = o.find("isolate") != string::npos ? "" : o;
	switch (k) {
	case 0: return band(st, {all(s), all(t)}, o2, leaf());
	case 1: return seq({{S_, fS, band(vs, {Sched{s[0], s[1]}}, o2, leaf())}, {T_, fT, band(vt, {one(t, 0)}, o, leaf())}});
	case 2: return band(st, {one(s, 0), one(t, 0)}, o, seq({{T_, fT, band(vt, {one(t, 1)}, o2, leaf())}, {S_, fS, band(vs, {Sched{s[1], s[2]}}, o2, leaf())}}));
	case 3: return seq({{S_, fS, band(vs, {one(s, 0)}, o, leaf())}, {T_, fT, band(vt, {one(t, 0)}, o, leaf())}}, true);
	case 4: return mark("m0", band(st, {one(s, 0), one(t, 0)}, o, mark("m1", band(st, {one(s, 1), one(t, 1)}, o2, leaf()))));
	case 5: return context("[n] -> { [] : n <= 5 }", band(st, {one(s, 0), one(t, 0)}, o, seq({{S_, fS, leaf()}, {T_, fT, leaf()}}, true)));
	case 6: { // tiling by 2 of the first band member
		Expr a = s[0], b = t[0]; Expr ta = {"floor((" + a.t + ")/2)", [a](I n, const I *v) { return fdiv(a.f(n, v), 2); }}, tb = {"floor((" + b.t + ")/2)", [b](I n, const I *v) { return fdiv(b.f(n, v), 2); }};
		return band(st, {{ta}, {tb}}, o, band(st, {{a}, {b}}, o2, band(st, {one(s, 1), one(t, 1)}, "", leaf()))); }
	case 7: { // scaled tiles, point band relative to the tile
		Expr a = s[0], b = t[0]; Expr ta = {"3*floor((" + a.t + ")/3)", [a](I n, const I *v) { return 3 * fdiv(a.f(n, v), 3); }}, tb = {"3*floor((" + b.t + ")/3)", [b](I n, const I *v) { return 3 * fdiv(b.f(n, v), 3); }};
		Expr pa = {"(" + a.t + ") - 3*floor((" + a.t + ")/3)", [a](I n, const I *v) { return mod(a.f(n, v), 3); }}, pb = {"(" + b.t + ") - 3*floor((" + b.t + ")/3)", [b](I n, const I *v) { return mod(b.f(n, v), 3); }};
		return band(st, {{ta}, {tb}}, o, band(st, {{pa, s[1]}, {pb, t[1]}}, o2, leaf())); }
	case 8: // filters splitting one statement
		return seq({{"[n] -> { S[x,y] : x mod 2 = 0; T[x] }", [](const Inst &i, I) { return i.name == "T" || mod(i.x[0], 2) == 0; }, band(st, {one(s, 0), one(t, 0)}, o, leaf())}, {"[n] -> { S[x,y] : x mod 2 = 1 }", [](const Inst &i, I) { return i.name == "S" && mod(i.x[0], 2) == 1; }, band(vs, {Sched{s[0], s[1]}}, o2, leaf())}});
	case 9: return band(st, {one(s, 0), one(t, 0)}, o, seq({{"[n] -> { S[x,y] : y >= 2; T[x] : x >= n }", [](const Inst &i, I n) { return i.name == "S" ? i.x[1] >= 2 : i.x[0] >= n; }, band(st, {one(s, 1), one(t, 1)}, "", leaf())}, {"[n] -> { S[x,y] : y <= 1; T[x] : x < n }", [](const Inst &i, I n) { return i.name == "S" ? i.x[1] <= 1 : i.x[0] < n; }, leaf()}}));
	case 10: return band(st, {Sched{s[0], s[1]}, Sched{t[0], t[1]}}, o2.empty() ? "{ isolate[[] -> [a,b]] : 0 <= a <= 1 and b >= 1 }" : o2, leaf(), ", permutable: 1, coincident: [ 1, 0 ]");
	case 11: return seq({{S_, fS, seq({{"[n] -> { S[x,y] : x <= y }", [](const Inst &i, I) { return i.x[0] <= i.x[1]; }, band(vs, {one(s, 1)}, o, leaf())}, {"[n] -> { S[x,y] : x > y }", [](const Inst &i, I) { return i.x[0] > i.x[1]; }, leaf()}})}, {T_, fT, leaf()}}, true);
	case 12: return leaf();
	case 13: return band(st, {one(s, 2), one(t, 2)}, "", band(st, {one(s, 0), one(t, 0)}, o, mark("inner", leaf())));
	case 14: return band(st, {Sched{s[0], s[1], s[2]}, Sched{t[0], t[1], t[2]}}, "[n] -> { isolate[[] -> [a,b,c]] : a >= 1 and b <= n - 2 }", leaf());
	}
	return leaf();
}
} // namespace gen
