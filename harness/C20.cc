// C20: AST expressions generated from sets and expressions have the described value at every point of the context; printed C text means the same as the tree.
#include "astspace.hpp"
#include <memory>
#include <isl/ast_type.h>
#include <isl/ast.h>
using namespace gen;
using ast::Env; using ast::Bad; using ast::CText; using ast::E_;
// ---------- accesses ----------
// value of an expression as a path: names, indices and members
static string path(isl_ast_expr *e, const Env &env) {
	auto t = isl_ast_expr_get_type(e);
	if (t == isl_ast_expr_id) return ast::id_name(e);
	if (t != isl_ast_expr_op) throw Bad{"bad access"};
	auto op = isl_ast_expr_op_get_type(e); int n = isl_ast_expr_op_get_n_arg(e);
	if (op == isl_ast_expr_op_member) { string s; for (int i = 0; i < n; ++i) { E_ a(isl_ast_expr_op_get_arg(e, i)); s += (i ? "." : "") + path(a, env); } return s; }
	if (op == isl_ast_expr_op_address_of) { E_ a(isl_ast_expr_op_get_arg(e, 0)); return "&" + path(a, env); }
	if (op != isl_ast_expr_op_access && op != isl_ast_expr_op_call) throw Bad{cat("bad operator in access ", (int) op)};
	E_ a(isl_ast_expr_op_get_arg(e, 0)); string s = path(a, env);
	if (op == isl_ast_expr_op_call) s += "(";
	for (int i = 1; i < n; ++i) { E_ b(isl_ast_expr_op_get_arg(e, i)); I v = ast::num(b, env); s += op == isl_ast_expr_op_call ? (i > 1 ? "," : "") + S(v) : "[" + S(v) + "]"; }
	return op == isl_ast_expr_op_call ? s + ")" : s;
}
static string text_path(const string &t, const Env &env) {
	vector<Inst> out; CText c(t, &out); c.env = env; string s; c.ws(); if (c.at("&")) { ++c.p; s = "&"; }
	s += c.at("[") ? "" : c.ident();
	for (;;) { c.ws(); if (c.at("[")) { ++c.p; I v = c.cond(true); c.need("]"); s += "[" + S(v) + "]"; } else if (c.at("(")) { auto a = c.args(true); s += "("; for (size_t i = 0; i < a.size(); ++i) s += (i ? "," : "") + S(a[i]); s += ")"; } else if (c.at(".")) { ++c.p; s += "." + (c.at("[") ? string() : c.ident()); } else break; }
	if (c.p != c.s.size()) throw Bad{cat("printed text: trailing ", c.s.substr(c.p))};
	return s;
}
static I text_val(const string &t, const Env &env) { vector<Inst> out; CText c(t, &out); c.env = env; I v = c.cond(true); c.ws(); if (c.p != c.s.size()) throw Bad{cat("printed text: trailing ", c.s.substr(c.p))}; return v; }
// ---------- programs: annotation of each instance with accesses, and the printed text ----------
struct Acc { const char *t; std::function<string(const Inst &, I)> f; };
static string ix(const char *a, std::initializer_list<I> v) { string s = a; for (I x : v) s += "[" + S(x) + "]"; return s; }
static const vector<Acc> &accesses(bool two) {
	static const vector<Acc> S2 = {
		{"[n] -> { S[x,y] -> A[x + y, 2x - n] }", [](const Inst &i, I n) { return ix("A", {i.x[0] + i.x[1], 2 * i.x[0] - n}); }},
		{"[n] -> { S[x,y] -> B[x] : x >= y; S[x,y] -> B[y - 1] : x < y }", [](const Inst &i, I) { return ix("B", {i.x[0] >= i.x[1] ? i.x[0] : i.x[1] - 1}); }},
		{"[n] -> { S[x,y] -> C[floor(x/2) + 1, (x + n) mod 3, floor((y - 2x)/3)] }", [](const Inst &i, I n) { return ix("C", {fdiv(i.x[0], 2) + 1, mod(i.x[0] + n, 3), fdiv(i.x[1] - 2 * i.x[0], 3)}); }},
		{"[n] -> { S[x,y] -> D[] }", [](const Inst &, I) { return string("D"); }},
		{"[n] -> { S[x,y] -> [A[x,n] -> f[y]] }", [](const Inst &i, I n) { return ix("A", {i.x[0], n}) + "." + ix("f", {i.x[1]}); }},
		{"[n] -> { S[x,y] -> [[A[y] -> g[]] -> h[x mod 2]] }", [](const Inst &i, I) { return ix("A", {i.x[1]}) + ".g." + ix("h", {mod(i.x[0], 2)}); }}};
	static const vector<Acc> T1 = {{"[n] -> { T[x] -> A[n - x, floor(x/3)] }", [](const Inst &i, I n) { return ix("A", {n - i.x[0], fdiv(i.x[0], 3)}); }}, {"[n] -> { T[x] -> B[2x] : x mod 2 = 0; T[x] -> B[-x] : x mod 2 = 1 }", [](const Inst &i, I) { return ix("B", {mod(i.x[0], 2) ? -i.x[0] : 2 * i.x[0]}); }}};
	return two ? S2 : T1;
}
struct CondT { const char *t; std::function<bool(const Inst &, I)> f; };
static const vector<CondT> &conds(bool two) {
	static const vector<CondT> S2 = {{"[n] -> { S[x,y] : (x + y) mod 2 = 0 or x <= 1 }", [](const Inst &i, I) { return mod(i.x[0] + i.x[1], 2) == 0 || i.x[0] <= 1; }}, {"[n] -> { S[x,y] : n >= x and 2y = x }", [](const Inst &i, I n) { return n >= i.x[0] && 2 * i.x[1] == i.x[0]; }}, {"[n] -> { S[x,y] : 2*floor(y/2) + x > 3 and n mod 3 = 1 }", [](const Inst &i, I n) { return 2 * fdiv(i.x[1], 2) + i.x[0] > 3 && mod(n, 3) == 1; }}};
	static const vector<CondT> T1 = {{"[n] -> { T[x] : x mod 3 = n mod 3 }", [](const Inst &i, I n) { return mod(i.x[0], 3) == mod(n, 3); }}};
	return two ? S2 : T1;
}
struct Leafs { vector<isl_ast_expr *> acc, cond; string error; ~Leafs() { for (auto e : acc) isl_ast_expr_free(e); for (auto e : cond) isl_ast_expr_free(e); } };
static std::map<isl_id *, std::unique_ptr<Leafs>> *NOTES; static int note_no; static int variant;
static isl_ast_node *at_domain(isl_ast_node *node, isl_ast_build *build, void *) {
	isl_union_map *um = isl_ast_build_get_schedule(build); isl_map *m = isl_map_reverse(isl_map_from_union_map(um));
	if (!m || isl_map_is_single_valued(m) != isl_bool_true) { isl_map_free(m); return node; }
	string nm = isl_map_get_tuple_name(m, isl_dim_out) ? isl_map_get_tuple_name(m, isl_dim_out) : ""; bool two = nm == "S"; if (nm != "S" && nm != "T") { isl_map_free(m); return node; }
	auto L = std::make_unique<Leafs>(); isl_pw_multi_aff *inv = isl_pw_multi_aff_from_map(isl_map_copy(m));
	for (auto &a : accesses(two)) {
		isl_pw_multi_aff *f = isl_pw_multi_aff_read_from_str(ctx, a.t); f = isl_pw_multi_aff_pullback_pw_multi_aff(f, isl_pw_multi_aff_copy(inv)); isl_ast_expr *e;
		switch (variant & 3) {
		case 0: e = isl_ast_build_access_from_pw_multi_aff(build, f); break;
		case 1: e = isl_ast_build_access_from_multi_pw_aff(build, isl_multi_pw_aff_from_pw_multi_aff(f)); break;
		case 2: f = isl_pw_multi_aff_coalesce(f); e = isl_ast_build_access_from_pw_multi_aff(build, f); e = isl_ast_expr_address_of(e); break;
		default: { isl_set *d = isl_map_domain(isl_map_copy(m)); f = isl_pw_multi_aff_gist(f, d); e = isl_ast_build_access_from_pw_multi_aff(build, f); } }
		note_transition(); if (!e) { L->error = cat("access expression failed for ", a.t, ": ", isl_ctx_last_error_msg(ctx) ? isl_ctx_last_error_msg(ctx) : ""); mc::take_error(); }
		L->acc.push_back(e);
	}
	for (auto &c : conds(two)) { isl_set *s = isl_set_read_from_str(ctx, c.t); s = isl_set_apply(s, isl_map_reverse(isl_map_copy(m))); isl_ast_expr *e = isl_ast_build_expr_from_set(build, s); note_transition(); if (!e) { L->error = cat("condition failed for ", c.t); mc::take_error(); } L->cond.push_back(e); }
	isl_pw_multi_aff_free(inv); isl_map_free(m);
	isl_id *id = isl_id_alloc(ctx, cat("note", note_no++).c_str(), nullptr); (*NOTES)[id] = std::move(L);
	return isl_ast_node_set_annotation(node, id);
}
static string inst_seq(const vector<Inst> &v) { string s; for (auto &i : v) s += ast::show(i) + " "; return s; }
static void program(const Problem &p, int v) {
	std::map<isl_id *, std::unique_ptr<Leafs>> notes; NOTES = &notes; note_no = 0; variant = v;
	isl_options_set_ast_always_print_block(ctx, v & 1);
	if (v & 4) isl_options_set_ast_iterator_type(ctx, "long");
	isl_ast_node *node = generate(p, [](isl_ast_build *b) { return isl_ast_build_set_at_each_domain(b, at_domain, nullptr); });
	struct Fr { isl_ast_node *n; ~Fr() { isl_ast_node_free(n); isl_options_set_ast_always_print_block(ctx, 0); isl_options_set_ast_iterator_type(ctx, "int"); } } fr{node}; if (!node) return;
	string txt = mc::str(isl_ast_node_to_C_str(node)), bad; uint64_t h = 5;
	for (auto &kv : notes) if (!kv.second->error.empty()) bad = kv.second->error;
	string it = v & 4 ? "long" : "int"; if (v & 4) { string q; for (size_t i = 0; i < txt.size(); ) if (txt.compare(i, 5, "long ") == 0 && (i == 0 || !isalnum((unsigned char) txt[i - 1]))) { q += "int "; i += 5; } else { if (txt.compare(i, 4, "int ") == 0 && (i == 0 || txt[i - 1] == '(' || isspace((unsigned char) txt[i - 1]))) bad = "iterator type option ignored"; q += txt[i++]; } txt = q; }
	try {
		for (I n = -1; n <= 6 && bad.empty(); ++n) {
			if (!p.ctx_ok(n)) continue;
			ast::strict() = false; Env env; env["n"] = n; ast::Run r; ast::stats().steps = 0;
			int checked = 0;
			r.hook = [&](isl_ast_node *u, const Env &e, const Inst &i) {
				isl_id *id = isl_ast_node_get_annotation(u); if (!id) return; isl_id_free(id); auto f = notes.find(id); if (f == notes.end()) return; auto &L = *f->second; bool two = i.name == "S"; ast::strict() = true;
				for (size_t k = 0; k < L.acc.size(); ++k) { string want = ((variant & 3) == 2 ? "&" : "") + accesses(two)[k].f(i, n), got = path(L.acc[k], e); note_transition(); if (got != want) throw Bad{cat(accesses(two)[k].t, " at ", ast::show(i), " is ", got, " instead of ", want, " through ", mc::str(isl_ast_expr_to_C_str(L.acc[k])))}; 
					if (checked < 6) { string t = mc::str(isl_ast_expr_to_C_str(L.acc[k])); got = text_path(t, e); if (got != want) throw Bad{cat("printed access ", t, " is ", got, " instead of ", want, " at ", ast::show(i))}; } }
				for (size_t k = 0; k < L.cond.size(); ++k) { bool want = conds(two)[k].f(i, n), got = ast::truth(L.cond[k], e); note_transition(); if (got != want) throw Bad{cat(conds(two)[k].t, " at ", ast::show(i), " is ", got, " through ", mc::str(isl_ast_expr_to_C_str(L.cond[k])))}; }
				ast::strict() = false; ++checked; note_validated(); };
			ast::exec(node, env, r);
			vector<Inst> out; CText c(txt, &out); c.env["n"] = n; c.program(); note_transition();
			if (!(out == r.out)) bad = cat("for n = ", S(n), " the printed program performs ", inst_seq(out), "and the tree ", inst_seq(r.out));
			note_validated(); h = mc::hash_mix(h, out.size()); for (auto &i : out) for (I x : i.x) h = mc::hash_mix(h, (uint64_t) (x + 77));
		}
	} catch (Bad &b) { bad = b.why; } catch (Overflow &) { note_outcome("inconclusive"); return; }
	ast::strict() = true;
	if (!bad.empty()) fail(cat("program|", p.what, " variant ", v), cat(bad, " in\n", txt));
	note_state(h);
}
// ---------- expressions over parameters ----------
static const char *VN[] = {"n", "m"};
struct Cx { string t; std::function<bool(I, I)> f; };
static vector<Cx> ctxs() { return {{"[n,m] -> { : }", [](I, I) { return true; }}, {"[n,m] -> { : n >= 0 and m >= 0 }", [](I n, I m) { return n >= 0 && m >= 0; }}, {"[n,m] -> { : n mod 2 = 0 and m >= n }", [](I n, I m) { return mod(n, 2) == 0 && m >= n; }}, {"[n,m] -> { : n mod 4 = 1 and m <= 2 }", [](I n, I m) { return mod(n, 4) == 1 && m <= 2; }},
	{"[n,m] -> { : -3 <= n <= 4 and m = 2n + 1 }", [](I n, I m) { return -3 <= n && n <= 4 && m == 2 * n + 1; }}, {"[n,m] -> { : n <= -1 or m >= 3 }", [](I n, I m) { return n <= -1 || m >= 3; }}, {"[n,m] -> { : (n + m) mod 3 = 2 and 2n <= m }", [](I n, I m) { return mod(n + m, 3) == 2 && 2 * n <= m; }}, {"[n,m] -> { : 0 <= n <= 2 and n <= m <= n + 3 }", [](I n, I m) { return 0 <= n && n <= 2 && n <= m && m <= n + 3; }}}; }
static vector<Cx> CXS; static Window W2;
static isl_ast_build *build_in(int c) { isl_set *s = isl_set_read_from_str(ctx, CXS[c].t.c_str()); if (!s) fail("parse", CXS[c].t); return isl_ast_build_from_context(s); }
static vector<string> linear() { vector<string> r; for (const char *t : {"n", "m", "-n", "n + m", "m - n", "2n - m + 1", "n - 3", "-2m + 5", "3n + 2m - 2", "4", "7 - n - m", "n - 2m", "5n", "-3n - 1"}) r.push_back(t); return r; }
static vector<string> texts(bool th) {
	vector<string> L = linear(), r = L;
	for (auto &l : L) for (int d : {2, 3, 4}) for (int c : {1, -1, 2, -3}) { if (!th && (c == -3 && d != 2)) continue; r.push_back(cat(c, "*floor((", l, ")/", d, ")")); r.push_back(cat(c, "*((", l, ") mod ", d, ")")); }
	for (size_t i = 0; i < L.size(); ++i) for (size_t j = 0; j < L.size(); ++j) for (int d = 2; d <= 4; ++d) for (int k = 0; k < 6; ++k) {
		if (!th && (i * 5 + j * 3 + d + k) % 4) continue;
		const string &a = L[i], &b = L[j];
		switch (k) {
		case 0: r.push_back(cat(a, " + ", d - 1, "*floor((", b, ")/", d, ")")); break;
		case 1: r.push_back(cat(a, " - ", d, "*floor((", b, ")/", d, ")")); break;
		case 2: r.push_back(cat("floor((", a, " + floor((", b, ")/2))/", d, ")")); break;
		case 3: r.push_back(cat("2*floor((", a, ")/", d, ") - 3*floor((", b, ")/", d == 4 ? 2 : d + 1, ")")); break;
		case 4: r.push_back(cat("((", a, ") mod ", d, ") - ((", b, ") mod ", d == 4 ? 3 : d + 1, ") + n")); break;
		case 5: r.push_back(cat("(", a, " + 2*floor((", b, ")/", d, ")) mod ", d + 1)); break; }
	}
	// integer divisions in context
	for (const char *t : {"n/2", "(n + m)/3", "(m - 1)/2", "(n - 1)/4", "(2n + 2m + 2)/6", "-n/2", "(n/2) + m", "(3n - 3)/4", "(m - 2n)/1", "3*(n - 1)/2 - m", "floor(n/2)/2", "(n - floor(m/2))/2"}) r.push_back(t);
	return r;
}
static vector<string> TX; static vector<Shape> PS;
static isl_pw_aff *PA(const string &t) { string s = "[n,m] -> { [(" + t + ")] }"; isl_pw_aff *p = isl_pw_aff_read_from_str(ctx, s.c_str()); if (!p) fail("parse", s); return p; }
// the operators that need a macro when printed: exactly those of the tree are reported
static void macro_ops(isl_ast_expr *e, set<int> &s) { if (isl_ast_expr_get_type(e) != isl_ast_expr_op) return; int o = isl_ast_expr_op_get_type(e), n = isl_ast_expr_op_get_n_arg(e); if (o == isl_ast_expr_op_fdiv_q || o == isl_ast_expr_op_min || o == isl_ast_expr_op_max) s.insert(o); for (int i = 0; i < n; ++i) { E_ a(isl_ast_expr_op_get_arg(e, i)); macro_ops(a, s); } }
static isl_stat put_op(enum isl_ast_expr_op_type o, void *u) { if (!((set<int> *) u)->insert(o).second) ((set<int> *) u)->insert(999); return isl_stat_ok; }
static void check_expr(isl_ast_expr *e, int c, const std::function<int(const I *, Rat &)> &f, bool boolean, const std::function<string()> &who) { // takes e; f: 0 undefined, 1 value
	note_transition();
	if (!e) { string m = isl_ctx_last_error_msg(ctx) ? isl_ctx_last_error_msg(ctx) : ""; mc::take_error(); fail(cat("expr|", who()), "construction failed: " + m); }
	string t = mc::str(isl_ast_expr_to_C_str(e)), bad; struct Fr { isl_ast_expr *e; ~Fr() { isl_ast_expr_free(e); } } fr{e}; uint64_t h = 9;
	try { for (int i = 0; i < W2.count && bad.empty(); ++i) { const I *x = W2.at(i); if (!CXS[c].f(x[0], x[1])) continue; Rat r; if (!f(x, r) || !r.isint()) continue; Env env; env["n"] = x[0]; env["m"] = x[1]; ast::stats().steps = 0; I w = r.floor();
		try { I g = boolean ? ast::truth(e, env) : ast::num(e, env); if (g != w) bad = cat(S(g), " instead of ", S(w)); else { g = text_val(t, env); if (boolean) g = g != 0; if (g != w) bad = cat("printed text gives ", S(g), " instead of ", S(w)); } } catch (Bad &b) { bad = b.why; }
		if (!bad.empty()) bad += cat(" at n = ", S(x[0]), ", m = ", S(x[1]), " in ", t); h = mc::hash_mix(h, (uint64_t) (w + 1000)); } } catch (Overflow &) { note_outcome("inconclusive"); return; }
	if (!bad.empty()) fail(cat("expr|", who()), bad);
	set<int> want, got; macro_ops(e, want); isl_ast_expr_foreach_ast_expr_op_type(e, put_op, &got); if (want != got) fail(cat("foreach_op_type|", who()), cat("wrong operators for ", t));
	note_state(h); note_validated();
}
static void opts(int v) { isl_options_set_ast_build_prefer_pdiv(ctx, !(v & 1)); isl_options_set_ast_build_detect_min_max(ctx, !!(v & 2)); isl_options_set_ast_build_allow_or(ctx, !(v & 4)); isl_options_set_ast_build_exploit_nested_bounds(ctx, 1); }
struct OptReset { ~OptReset() { opts(0); } };
static void pa_item(isl_pw_aff *p, int c, int v, const std::function<string()> &who) {   // takes p
	OptReset rs; PwAff m;
	try { m = read_pw_aff(p); } catch (Overflow &) { isl_pw_aff_free(p); return; }
	opts(v); isl_ast_build *b = build_in(c); isl_ast_expr *e = isl_ast_build_expr_from_pw_aff(b, p); isl_ast_build_free(b);
	check_expr(e, c, [&](const I *x, Rat &r) { return eval(m, x, r) == 1; }, false, [&] { return cat(who(), " context ", CXS[c].t, " options ", v); });
}
// ---------- operator trees ----------
struct T { int op; vector<T> a; };   // op >= 0: operator; -1 a, -2 b, -3 c, -4.. integers
static isl_ast_expr *bin_(int op, isl_ast_expr *x, isl_ast_expr *y) {
	typedef isl_ast_expr *(*B)(isl_ast_expr *, isl_ast_expr *);
	static B f[] = {isl_ast_expr_add, isl_ast_expr_sub, isl_ast_expr_mul, isl_ast_expr_div, isl_ast_expr_pdiv_q, isl_ast_expr_pdiv_r, isl_ast_expr_eq, isl_ast_expr_le, isl_ast_expr_lt, isl_ast_expr_ge, isl_ast_expr_gt, isl_ast_expr_and, isl_ast_expr_and_then, isl_ast_expr_or, isl_ast_expr_or_else};
	return f[op](x, y);
}
static const int NB = 15, NEG = 15; static const char *ON[] = {"+", "-", "*", "/", "pdiv_q", "pdiv_r", "==", "<=", "<", ">=", ">", "and", "and_then", "or", "or_else", "neg"};
static const enum isl_ast_expr_op_type OT[] = {isl_ast_expr_op_add, isl_ast_expr_op_sub, isl_ast_expr_op_mul, isl_ast_expr_op_div, isl_ast_expr_op_pdiv_q, isl_ast_expr_op_pdiv_r, isl_ast_expr_op_eq, isl_ast_expr_op_le, isl_ast_expr_op_lt, isl_ast_expr_op_ge, isl_ast_expr_op_gt, isl_ast_expr_op_and, isl_ast_expr_op_and_then, isl_ast_expr_op_or, isl_ast_expr_op_or_else, isl_ast_expr_op_minus};
static const char *LN[] = {"a", "b", "c"}; static const int LI[] = {2, -3, 0};
static isl_ast_expr *mk_(const T &t) {
	if (t.op <= -4) return isl_ast_expr_from_val(isl_val_int_from_si(ctx, LI[-4 - t.op]));
	if (t.op < 0) return isl_ast_expr_from_id(isl_id_alloc(ctx, LN[-1 - t.op], nullptr));
	if (t.op == NEG) return isl_ast_expr_neg(mk_(t.a[0]));
	return bin_(t.op, mk_(t.a[0]), mk_(t.a[1]));
}
static string show(const T &t) { if (t.op <= -4) return cat(LI[-4 - t.op]); if (t.op < 0) return LN[-1 - t.op]; string s = cat("(", ON[t.op]); for (auto &x : t.a) s += " " + show(x); return s + ")"; }
static I ev(const T &t, const I *v) {
	if (t.op <= -4) return LI[-4 - t.op]; if (t.op < 0) return v[-1 - t.op];
	if (t.op == NEG) return -ev(t.a[0], v);
	if (t.op == 11 || t.op == 12) return ev(t.a[0], v) && ev(t.a[1], v);
	if (t.op == 13 || t.op == 14) return ev(t.a[0], v) || ev(t.a[1], v);
	I x = ev(t.a[0], v), y = ev(t.a[1], v);
	switch (t.op) { case 0: return x + y; case 1: return x - y; case 2: return x * y; case 3: case 4: if (!y) throw Bad{"div"}; return x / y; case 5: if (!y) throw Bad{"div"}; return x % y; case 6: return x == y; case 7: return x <= y; case 8: return x < y; case 9: return x >= y; default: return x > y; }
}
static bool same(const T &t, isl_ast_expr *e) {           // the tree reads back as it was built
	if (t.op <= -4) return isl_ast_expr_get_type(e) == isl_ast_expr_int && int_from_val(isl_ast_expr_int_get_val(e)) == LI[-4 - t.op];
	if (t.op < 0) return isl_ast_expr_get_type(e) == isl_ast_expr_id && ast::id_name(e) == LN[-1 - t.op];
	if (isl_ast_expr_get_type(e) != isl_ast_expr_op || isl_ast_expr_op_get_type(e) != OT[t.op] || isl_ast_expr_op_get_n_arg(e) != (int) t.a.size()) return false;
	for (size_t i = 0; i < t.a.size(); ++i) { E_ x(isl_ast_expr_op_get_arg(e, i)); if (!same(t.a[i], x)) return false; }
	return true;
}
static bool equal(const T &a, const T &b) { if (a.op != b.op || a.a.size() != b.a.size()) return false; for (size_t i = 0; i < a.a.size(); ++i) if (!equal(a.a[i], b.a[i])) return false; return true; }
static T subst(const T &t, int leaf, const T &by) { if (t.op == leaf) return by; T r = t; for (auto &x : r.a) x = subst(x, leaf, by); return r; }
static const I VALS[][3] = {{3, -2, 5}, {0, 1, 0}, {-7, 3, 2}, {4, 4, -1}, {1, 0, 1}, {-1, -1, -3}, {7, 2, 3}, {2, 5, -4}};
static T LEAF(int i) { return {-1 - i, {}}; } static T NUM(int i) { return {-4 - i, {}}; }
static void tree(const T &t) {
	isl_ast_expr *e = mk_(t); note_transition(); if (!e) { mc::take_error(); fail(cat("tree|", show(t)), "construction failed"); }
	struct Fr { isl_ast_expr *e; ~Fr() { isl_ast_expr_free(e); } } fr{e}; string txt = mc::str(isl_ast_expr_to_C_str(e)); uint64_t h = mc::hash_str(txt);
	if (!same(t, e)) fail(cat("tree|", show(t)), "does not read back as built");
	auto judge = [&](const T &u, const string &x) { for (auto &v : VALS) { I w; try { w = ev(u, v); } catch (Bad &) { continue; } Env env; for (int i = 0; i < 3; ++i) env[LN[i]] = v[i]; I g; try { g = text_val(x, env); } catch (Bad &b) { fail(cat("tree|", show(u)), cat(b.why, " in ", x)); } if (g != w) fail(cat("tree|", show(u)), cat("printed as ", x, ", which is ", S(g), " instead of ", S(w))); } note_validated(); };
	judge(t, txt);
	// identifiers replaced by expressions
	if (txt.find('a') != string::npos) {
		T by = {1, {NUM(0), LEAF(1)}}; isl_id_to_ast_expr *m = isl_id_to_ast_expr_alloc(ctx, 2); m = isl_id_to_ast_expr_set(m, isl_id_alloc(ctx, "a", nullptr), mk_(by));
		isl_ast_expr *s = isl_ast_expr_substitute_ids(isl_ast_expr_copy(e), m); note_transition(); if (!s) { mc::take_error(); fail(cat("substitute|", show(t)), "failed"); } struct F2 { isl_ast_expr *e; ~F2() { isl_ast_expr_free(e); } } f2{s}; T u = subst(t, -1, by);
		if (!same(u, s)) fail(cat("substitute|", show(t)), cat("gives ", mc::str(isl_ast_expr_to_C_str(s)))); if (!same(t, e)) fail(cat("substitute|", show(t)), "changed its (copied) argument"); judge(u, mc::str(isl_ast_expr_to_C_str(s)));
		if (isl_ast_expr_is_equal(e, s) != (equal(t, u) ? isl_bool_true : isl_bool_false)) fail(cat("is_equal|", show(t)), "wrong");
	}
	if (t.op >= 0) {
		isl_ast_expr *s = isl_ast_expr_set_op_arg(isl_ast_expr_copy(e), 0, mk_(NUM(1))); struct F2 { isl_ast_expr *e; ~F2() { isl_ast_expr_free(e); } } f2{s}; T u = t; u.a[0] = NUM(1); note_transition(); if (!s || !same(u, s) || !same(t, e)) fail(cat("set_op_arg|", show(t)), "wrong");
		isl_ast_expr *d = mk_(t); struct F3 { isl_ast_expr *e; ~F3() { isl_ast_expr_free(e); } } f3{d}; if (isl_ast_expr_is_equal(e, d) != isl_bool_true) fail(cat("is_equal|", show(t)), "false for identical expressions"); if (isl_ast_expr_is_equal(e, s) != (equal(t, u) ? isl_bool_true : isl_bool_false)) fail(cat("is_equal|", show(t)), "wrong after set_op_arg");
	}
	note_state(h);
}
int main(int argc, char **argv) {
	mc::Harness h; h.property = "C20"; bool th = tier_thorough(argc, argv); CXS = ctxs(); W2 = Window({{-5, 8}, {-5, 8}});
	auto S2 = scheds2(), S1 = scheds1(); auto D2 = doms2(), D1 = doms1(); auto CX = contexts(); auto OP = options3(); auto BO = bandopts();
	auto addp = [&](const string &n, mc::Radix r, std::function<Problem(const vector<uint64_t> &)> f) { h.add(mc::SpaceDef(n, r.size(), [=](uint64_t i) { auto d = r.at(i); int v = 0; for (uint64_t x : d) v += x; program(f(d), v & 7); }, [=](uint64_t i) { return f(r.at(i)).what; })); };
	addp("program-map", mc::Radix{D2.size(), th ? S2.size() : 9, th ? OP.size() : 4}, [=](const vector<uint64_t> &d) { uint64_t s = th ? d[1] : (d[1] * 3 + d[0]) % S2.size(), o = th ? d[2] : (d[2] * 5 + d[0] + d[1]) % OP.size(); return map_problem({{"S", 2, D2[d[0]]}}, {S2[s]}, CX[(d[0] + s) % CX.size()], OP[o], FLAGS[(d[0] * 5 + s * 3 + o) % FLAGS.size()]); });
	addp("program-tree", mc::Radix{(uint64_t) NSHAPES, th ? BO.size() : 4, th ? D2.size() : 4, th ? S2.size() : 6}, [=](const vector<uint64_t> &d) { uint64_t bo = th ? d[1] : (d[1] * 2 + d[0]) % BO.size(), s = th ? d[3] : (d[3] * 3 + d[0]) % S2.size(); vector<Stmt> st = {{"S", 2, D2[th ? d[2] : (d[2] * 5 + 1) % D2.size()]}, {"T", 1, D1[(d[2] + d[3]) % D1.size()]}}; const Ctx &c = d[0] == 5 ? CX[3] : CX[(bo + s) % CX.size()]; return tree_problem(st, shape(d[0], st, S2[s], S1[(d[0] * 3 + s) % S1.size()], BO[bo]), c, FLAGS[(d[0] + bo + d[2] + s) % FLAGS.size()], BO[bo].find("unroll") != string::npos); });
	TX = texts(th); int NC = CXS.size();
	{ mc::Radix r{TX.size(), (uint64_t) NC, 2}; auto who = [](const string &t) { return t; }; h.add(mc::SpaceDef("affine", r.size(), [=](uint64_t i) { auto d = r.at(i); pa_item(PA(TX[d[0]]), d[1], d[2], [&] { return who(TX[d[0]]); }); }, [=](uint64_t i) { auto d = r.at(i); return cat(TX[d[0]], " in ", CXS[d[1]].t); })); }
	{ size_t K = th ? 40 : 18; vector<string> P; for (size_t i = 0; i < K; ++i) P.push_back(TX[(i * 37 + 3) % TX.size()]); mc::Radix r{K, K, 7, (uint64_t) NC};
	  h.add(mc::SpaceDef("piecewise", r.size(), [=](uint64_t i) { auto d = r.at(i); isl_pw_aff *a = PA(P[d[0]]), *b = PA(P[d[1]]), *q; 
		auto on = [&](const char *c, isl_pw_aff *x, isl_pw_aff *y) { isl_set *s = isl_set_read_from_str(ctx, (string("[n,m] -> { : ") + c + " }").c_str()); isl_pw_aff *u = isl_pw_aff_intersect_params(x, isl_set_copy(s)), *v = isl_pw_aff_intersect_params(y, isl_set_complement(s)); return isl_pw_aff_union_add(u, v); };
		switch (d[2]) { case 0: q = isl_pw_aff_max(a, b); break; case 1: q = isl_pw_aff_min(a, b); break; case 2: q = on("n >= m", a, b); break; case 3: q = on("n mod 2 = 0", a, b); break; case 4: q = on("n >= 1 and m <= 2 or m >= 5", a, b); break; case 5: { isl_pw_aff *c = isl_pw_aff_copy(b), *e = isl_pw_aff_neg(isl_pw_aff_copy(b)); q = isl_pw_aff_max(isl_pw_aff_min(a, c), on("m < 0", e, b)); break; } default: { isl_pw_aff *c = isl_pw_aff_copy(b); q = on("n >= 0", isl_pw_aff_max(a, c), on("m mod 3 = 1 or n = -2", b, PA("n + 1"))); } }
		if (!q) { mc::take_error(); fail("piecewise", "construction"); } pa_item(q, d[3], (d[0] + d[1] + d[2]) & 3, [&] { return cat("combination ", d[2], " of ", P[d[0]], " and ", P[d[1]]); }); }, [=](uint64_t i) { auto d = r.at(i); return cat("combination ", d[2], " of ", P[d[0]], " and ", P[d[1]], " in ", CXS[d[3]].t); })); }
	// conditions
	{ GenOpt o; o.lo = -2; o.hi = 4; auto B = basicsN(2, 2, W2, 1, o, th ? 600 : 160); auto N2 = nested2(W2, th ? 200 : 30, 2, -2, 6); B.insert(B.end(), N2.begin(), N2.end()); auto U = unions2(B, 2, W2, 1, th ? 500 : 120, 2); B.insert(B.end(), U.begin(), U.end()); PS = B;
	  mc::Radix r{PS.size(), (uint64_t) NC, 2}; h.add(mc::SpaceDef("condition", r.size(), [=](uint64_t i) { auto d = r.at(i); const Shape &s = PS[d[0]]; OptReset rs; string t = set_text(s, 0, 2); auto &nm = names(0, 2); string hd = "[n,m] -> { [] : ";
		isl_set *x = isl_set_read_from_str(ctx, t.c_str()); if (!x) fail("parse", t); x = isl_set_params(x); x = isl_set_set_dim_name(x, isl_dim_param, 0, "n"); x = isl_set_set_dim_name(x, isl_dim_param, 1, "m"); (void) nm; opts(d[2] * 5); isl_ast_build *b = build_in(d[1]); isl_ast_expr *e = isl_ast_build_expr_from_set(b, x); isl_ast_build_free(b);
		check_expr(e, d[1], [&](const I *p, Rat &v) { v = Rat(shp::contains(s, p) ? 1 : 0); return 1; }, true, [&] { return cat("condition ", t, " context ", CXS[d[1]].t); }); }, [=](uint64_t i) { auto d = r.at(i); return cat(set_text(PS[d[0]], 0, 2), " in ", CXS[d[1]].t); })); }
	// operator trees
	{ mc::Radix r{16, 17, 17, 3}; auto mk1 = [](int op, int v) -> T { auto sub = [&](int i) { return v == 0 ? LEAF(i) : v == 1 ? NUM(i % 3) : i ? NUM(1) : LEAF(0); }; if (op == 16) return sub(0); if (op == NEG) return {NEG, {sub(1)}}; return {op, {sub(0), sub(1)}}; };
	  auto mkt = [=](uint64_t i) -> T { auto d = r.at(i); T l = mk1(d[1], d[3]), q = mk1(d[2], (d[3] + 1) % 3); if (d[0] == NEG) return {NEG, {l}}; return {(int) d[0], {l, q}}; };
	  h.add(mc::SpaceDef("trees", r.size(), [=](uint64_t i) { tree(mkt(i)); }, [=](uint64_t i) { return show(mkt(i)); }));
	  mc::Radix r3{16, 16, 16, 8}; auto mkc = [=](uint64_t i) -> T { auto d = r3.at(i); T t = LEAF(0); for (int k = 2; k >= 0; --k) { T o = k == 2 ? LEAF(1) : k == 1 ? LEAF(2) : NUM(0); if (d[k] == NEG) t = {NEG, {t}}; else if (d[3] >> k & 1) t = {(int) d[k], {o, t}}; else t = {(int) d[k], {t, o}}; } return t; };
	  h.add(mc::SpaceDef("chains", r3.size(), [=](uint64_t i) { tree(mkc(i)); }, [=](uint64_t i) { return show(mkc(i)); })); }
	return mc::run(argc, argv, h);
}
