// Execution of generated code: of the AST through its public accessors, and of the printed C text with C semantics.
#pragma once
#include "common.hpp"
#include <isl/ast.h>
#include <isl/ast_build.h>
#include <isl/id.h>
namespace ast {
struct Bad { string why; };                    // the program misbehaves
struct Inst { string name; vector<I> x; bool operator<(const Inst &o) const { return std::tie(name, x) < std::tie(o.name, o.x); } bool operator==(const Inst &o) const { return name == o.name && x == o.x; } };
inline string show(const Inst &i) { string s = i.name + "("; for (size_t k = 0; k < i.x.size(); ++k) s += (k ? "," : "") + S(i.x[k]); return s + ")"; }
typedef std::map<string, I> Env;
struct Val { I v; bool zdiv = false; bool poison = false; };   // zdiv: only meaningful as zero / non-zero; poison: result of an operation outside its documented domain (harmless while nothing depends on it)
inline bool &strict() { static bool b = true; return b; }   // off: an inexact or negative division has its value in C
struct Stats { std::map<int, int> ops; int steps = 0; };
inline Stats &stats() { static Stats s; return s; }
static const int LIMIT = 40000;

template <class T, T *(*FREE)(T *)> struct Own { T *p; Own(T *q) : p(q) { if (!q) throw Bad{"NULL part of AST"}; } ~Own() { FREE(p); } Own(const Own &) = delete; operator T *() const { return p; } };
typedef Own<isl_ast_expr, isl_ast_expr_free> E_;
typedef Own<isl_ast_node, isl_ast_node_free> N_;

inline string id_name(isl_ast_expr *e) { isl_id *id = isl_ast_expr_id_get_id(e); if (!id) throw Bad{"NULL id"}; string s = isl_id_get_name(id) ? isl_id_get_name(id) : ""; isl_id_free(id); return s; }
inline I num(isl_ast_expr *e, const Env &env);
inline Val eval(isl_ast_expr *e, const Env &env) {
	if (++stats().steps > LIMIT * 20) throw Bad{"does not terminate"};
	switch (isl_ast_expr_get_type(e)) {
	case isl_ast_expr_int: return {int_from_val(isl_ast_expr_int_get_val(e))};
	case isl_ast_expr_id: { string n = id_name(e); auto it = env.find(n); if (it == env.end()) throw Bad{"use of undefined identifier " + n}; return {it->second}; }
	case isl_ast_expr_op: break;
	default: throw Bad{"bad expression"};
	}
	auto op = isl_ast_expr_op_get_type(e); int n = isl_ast_expr_op_get_n_arg(e);
	stats().ops[op]++;
	bool poison = false;                       // some operand used by the result is poison
	auto A = [&](int i) -> I { E_ a(isl_ast_expr_op_get_arg(e, i)); Val v = eval(a, env); if (v.zdiv) throw Bad{"remainder marked to be only compared with zero is used as a value"}; poison |= v.poison; return v.v; };
	auto T = [&](int i) -> Val { E_ a(isl_ast_expr_op_get_arg(e, i)); return eval(a, env); };
	auto R = [&](I v) { Val r; r.v = v; r.poison = poison; return r; };
	auto need = [&](int k) { if (n != k) throw Bad{cat("operator ", (int) op, " with ", n, " arguments")}; };
	auto atleast = [&](int k) { if (n < k) throw Bad{cat("operator ", (int) op, " with ", n, " arguments")}; };
	switch (op) {
	case isl_ast_expr_op_and: case isl_ast_expr_op_or: {      // both arguments may be evaluated: an argument without a meaning must not matter
		atleast(1); bool isor = op == isl_ast_expr_op_or, bad = false; for (int i = 0; i < n; ++i) { Val b = T(i); if (b.poison && strict()) bad = true; else if ((b.v != 0) == isor) return {isor}; }
		Val r; r.v = !isor; r.poison = bad; return r; }
	case isl_ast_expr_op_and_then: atleast(1); for (int i = 0; i < n; ++i) { Val b = T(i); if (b.poison && strict()) return b; if (!b.v) return {0}; } return {1};
	case isl_ast_expr_op_or_else: atleast(1); for (int i = 0; i < n; ++i) { Val b = T(i); if (b.poison && strict()) return b; if (b.v) return {1}; } return {0};
	case isl_ast_expr_op_max: { atleast(1); I r = A(0); for (int i = 1; i < n; ++i) r = std::max(r, A(i)); return R(r); }
	case isl_ast_expr_op_min: { atleast(1); I r = A(0); for (int i = 1; i < n; ++i) r = std::min(r, A(i)); return R(r); }
	case isl_ast_expr_op_minus: need(1); return R(-A(0));
	case isl_ast_expr_op_add: { need(2); I a = A(0); return R(a + A(1)); }
	case isl_ast_expr_op_sub: { need(2); I a = A(0); return R(a - A(1)); }
	case isl_ast_expr_op_mul: { need(2); I a = A(0); return R(mul(a, A(1))); }
	case isl_ast_expr_op_div: { need(2); I a = A(0), b = A(1); if (b == 0) throw Bad{"division by zero"}; if (a % b) poison = true; return R(a / b); }
	case isl_ast_expr_op_fdiv_q: { need(2); I a = A(0), b = A(1); if (b <= 0) throw Bad{"bad divisor"}; return R(fdiv(a, b)); }
	case isl_ast_expr_op_pdiv_q: case isl_ast_expr_op_pdiv_r: { need(2); I a = A(0), b = A(1); if (b <= 0) throw Bad{"bad divisor"}; if (a < 0) poison = true; return R(op == isl_ast_expr_op_pdiv_q ? a / b : a % b); }
	case isl_ast_expr_op_zdiv_r: { need(2); I a = A(0), b = A(1); if (b == 0) throw Bad{"division by zero"}; Val r = R(a % b); r.zdiv = true; return r; }
	case isl_ast_expr_op_cond: case isl_ast_expr_op_select: { need(3); Val c = T(0); if (c.poison && strict()) return c; if (op == isl_ast_expr_op_cond) return T(c.v ? 1 : 2); Val a = T(1), b = T(2); return c.v ? a : b; }
	case isl_ast_expr_op_eq: {
		need(2); E_ a(isl_ast_expr_op_get_arg(e, 0)), b(isl_ast_expr_op_get_arg(e, 1)); Val x = eval(a, env), y = eval(b, env);
		auto zero = [](isl_ast_expr *q) { return isl_ast_expr_get_type(q) == isl_ast_expr_int && int_from_val(isl_ast_expr_int_get_val(q)) == 0; };
		if ((x.zdiv && !zero(b)) || (y.zdiv && !zero(a))) throw Bad{"remainder marked to be only compared with zero is compared with something else"};
		poison = x.poison || y.poison; return R(x.v == y.v); }
	case isl_ast_expr_op_le: { need(2); I a = A(0); return R(a <= A(1)); }
	case isl_ast_expr_op_lt: { need(2); I a = A(0); return R(a < A(1)); }
	case isl_ast_expr_op_ge: { need(2); I a = A(0); return R(a >= A(1)); }
	case isl_ast_expr_op_gt: { need(2); I a = A(0); return R(a > A(1)); }
	default: throw Bad{cat("unexpected operator ", (int) op)};
	}
}
inline bool truth(isl_ast_expr *e, const Env &env) { Val v = eval(e, env); if (v.poison && strict()) throw Bad{"the value depends on a division outside its documented domain (negative dividend or inexact)"}; return v.v != 0; }
inline I num(isl_ast_expr *e, const Env &env) { Val v = eval(e, env); if (v.poison && strict()) throw Bad{"the value depends on a division outside its documented domain (negative dividend or inexact)"}; if (v.zdiv) throw Bad{"remainder marked to be only compared with zero is used as a value"}; return v.v; }
// a call or access: name and arguments
inline Inst instance(isl_ast_expr *e, const Env &env) {
	if (isl_ast_expr_get_type(e) != isl_ast_expr_op) throw Bad{"user expression is not a call"};
	auto op = isl_ast_expr_op_get_type(e);
	if (op != isl_ast_expr_op_call && op != isl_ast_expr_op_access) throw Bad{"user expression is not a call"};
	int n = isl_ast_expr_op_get_n_arg(e); Inst r;
	for (int i = 0; i < n; ++i) { E_ a(isl_ast_expr_op_get_arg(e, i)); if (i) { r.x.push_back(num(a, env)); continue; }
		if (isl_ast_expr_get_type(a) == isl_ast_expr_id) r.name = id_name(a); else if (isl_ast_expr_get_type(a) == isl_ast_expr_op && isl_ast_expr_op_get_type(a) == isl_ast_expr_op_member) { int m = isl_ast_expr_op_get_n_arg(a); for (int k = 0; k < m; ++k) { E_ b(isl_ast_expr_op_get_arg(a, k)); r.name += (k ? "." : "") + id_name(b); } } else throw Bad{"callee is not an identifier"}; }
	return r;
}
typedef std::function<void(isl_ast_node *, const Env &, const Inst &)> Hook;
struct Run { vector<Inst> out; Hook hook; int iters = 0; vector<string> marks; };
inline void exec(isl_ast_node *n, Env &env, Run &r) {
	if (++r.iters > LIMIT) throw Bad{"does not terminate"};
	switch (isl_ast_node_get_type(n)) {
	case isl_ast_node_for: {
		E_ it(isl_ast_node_for_get_iterator(n)), init(isl_ast_node_for_get_init(n)); string v = id_name(it);
		if (env.count(v)) throw Bad{"iterator " + v + " shadows another identifier"};
		isl_bool deg = isl_ast_node_for_is_degenerate(n); I x = num(init, env); N_ body(isl_ast_node_for_get_body(n));
		if (deg == isl_bool_true) { env[v] = x; exec(body, env, r); env.erase(v); return; }
		E_ cond(isl_ast_node_for_get_cond(n)), inc(isl_ast_node_for_get_inc(n));
		for (;;) { env[v] = x; if (!truth(cond, env)) break; if (++r.iters > LIMIT) throw Bad{"does not terminate"}; exec(body, env, r); x += num(inc, env); }
		env.erase(v); return; }
	case isl_ast_node_if: {
		E_ c(isl_ast_node_if_get_cond(n));
		if (truth(c, env)) { N_ t(isl_ast_node_if_get_then_node(n)); exec(t, env, r); }
		else if (isl_ast_node_if_has_else_node(n) == isl_bool_true) { N_ t(isl_ast_node_if_get_else_node(n)); exec(t, env, r); }
		return; }
	case isl_ast_node_block: {
		isl_ast_node_list *l = isl_ast_node_block_get_children(n); int k = isl_ast_node_list_n_ast_node(l);
		struct Fr { isl_ast_node_list *l; ~Fr() { isl_ast_node_list_free(l); } } fr{l};
		for (int i = 0; i < k; ++i) { N_ c(isl_ast_node_list_get_at(l, i)); exec(c, env, r); }
		return; }
	case isl_ast_node_mark: { isl_id *id = isl_ast_node_mark_get_id(n); r.marks.push_back(isl_id_get_name(id)); isl_id_free(id); N_ c(isl_ast_node_mark_get_node(n)); exec(c, env, r); return; }
	case isl_ast_node_user: { E_ e(isl_ast_node_user_get_expr(n)); Inst i = instance(e, env); r.out.push_back(i); if (r.hook) r.hook(n, env, i); return; }
	default: throw Bad{"bad node"};
	}
}

// ---- the printed C text ----
struct CText {
	string s; size_t p = 0; Env env; vector<Inst> *out; int steps = 0; vector<string> marks;
	CText(const string &t, vector<Inst> *o) : s(t), out(o) {}
	void ws() { for (;;) { while (p < s.size() && isspace((unsigned char) s[p])) ++p; if (s.compare(p, 2, "//") == 0) { size_t q = s.find('\n', p); string m = s.substr(p + 2, q - p - 2); marks.push_back(m); p = q == string::npos ? s.size() : q; } else return; } }
	bool at(const char *t) { ws(); return s.compare(p, strlen(t), t) == 0; }
	bool take(const char *t) { if (!at(t)) return false; size_t n = strlen(t); if ((isalnum((unsigned char) t[0])) && p + n < s.size() && (isalnum((unsigned char) s[p + n]) || s[p + n] == '_')) return false; p += n; return true; }
	void need(const char *t) { if (!take(t)) throw Bad{cat("printed text: expected '", t, "' at: ", s.substr(p, 40))}; }
	string ident() { ws(); size_t q = p; while (q < s.size() && (isalnum((unsigned char) s[q]) || s[q] == '_')) ++q; string r = s.substr(p, q - p); if (r.empty()) throw Bad{cat("printed text: expected identifier at: ", s.substr(p, 40))}; p = q; return r; }
	// C expressions; `live` false: parse only
	I cond(bool live) { I c = lor(live); if (take("?")) { I a = cond(live && c); need(":"); I b = cond(live && !c); return c ? a : b; } return c; }
	I lor(bool live) { I a = land(live); while (at("||")) { p += 2; I b = land(live && !a); a = a || b; } return a; }
	I land(bool live) { I a = equ(live); while (at("&&")) { p += 2; I b = equ(live && a); a = a && b; } return a; }
	I equ(bool live) { I a = rel(live); for (;;) { if (take("==")) a = a == rel(live); else if (take("!=")) a = a != rel(live); else return a; } }
	I rel(bool live) { I a = addi(live); for (;;) { if (take("<=")) a = a <= addi(live); else if (take(">=")) a = a >= addi(live); else if (at("<")) { ++p; a = a < addi(live); } else if (at(">")) { ++p; a = a > addi(live); } else return a; } }
	I addi(bool live) { I a = multi(live); for (;;) { if (at("+") && !at("+=")) { ++p; a += multi(live); } else if (at("-")) { ++p; a -= multi(live); } else return a; } }
	I multi(bool live) { I a = unary(live); for (;;) { if (at("*")) { ++p; a = mul(a, unary(live)); } else if (at("/") || at("%")) { char c = s[p++]; I b = unary(live); if (!live) continue; if (b == 0) throw Bad{"printed text: division by zero"}; a = c == '/' ? a / b : a % b; } else return a; } }
	I unary(bool live) { if (at("-")) { ++p; if (at("-")) throw Bad{"printed text: '--'"}; return -unary(live); } if (at("!")) { ++p; return !unary(live); } return prim(live); }
	I prim(bool live) {
		if (take("(")) { I v = cond(live); need(")"); return v; }
		ws(); if (isdigit((unsigned char) s[p])) { I v = 0; while (p < s.size() && isdigit((unsigned char) s[p])) v = add(mul(v, 10), s[p++] - '0'); return v; }
		string n = ident();
		if (at("(")) { auto a = args(live); if (n == "min" && a.size() == 2) return std::min(a[0], a[1]); if (n == "max" && a.size() == 2) return std::max(a[0], a[1]); if (n == "floord" && a.size() == 2) { if (live && a[1] == 0) throw Bad{"printed text: division by zero"}; return live ? fdiv(a[0], a[1]) : 0; } throw Bad{"printed text: unknown function " + n}; }
		auto it = env.find(n); if (it == env.end()) throw Bad{"printed text: undefined identifier " + n}; return it->second;
	}
	vector<I> args(bool live) { vector<I> r; need("("); if (take(")")) return r; for (;;) { r.push_back(cond(live)); if (take(",")) continue; need(")"); return r; } }
	void block(bool live, vector<string> &decl) { while (!at("}") && p < s.size()) { stmt(live, decl); } }
	void stmt(bool live, vector<string> &decl) {
		if (++steps > LIMIT * 4) throw Bad{"printed text: does not terminate"};
		if (take("{")) { vector<string> d; block(live, d); need("}"); for (auto &v : d) env.erase(v); return; }
		if (take(";")) return;
		if (take("for")) {
			need("("); need("int"); string v = ident(); need("="); I x = cond(live); need(";"); size_t pc = p; bool fresh = !env.count(v); if (!fresh) throw Bad{"printed text: iterator shadows " + v};
			env[v] = x; bool c = cond(live); need(";"); size_t pi = p; if (ident() != v) throw Bad{"printed text: increment of another variable"}; need("+="); cond(live); need(")"); size_t pb = p; vector<string> d;
			if (!live || !c) { stmt(false, d); env.erase(v); return; }
			size_t end = 0;
			while (c) { p = pb; stmt(true, d); end = p; p = pi; ident(); need("+="); env[v] += cond(true); p = pc; c = cond(true); }
			p = end; env.erase(v); return; }
		if (take("if")) { need("("); bool c = cond(live); need(")"); vector<string> d; stmt(live && c, d); if (take("else")) stmt(live && !c, d); return; }
		if (take("int")) { string v = ident(); need("="); I x = cond(live); need(";"); if (env.count(v)) throw Bad{"printed text: redeclaration of " + v}; env[v] = x; decl.push_back(v); return; }
		Inst i; i.name = ident(); i.x = args(live); need(";"); if (live) out->push_back(i);
	}
	void program() { vector<string> d; ws(); while (p < s.size()) { stmt(true, d); ws(); } }
};
} // namespace ast
