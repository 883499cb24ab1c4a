// C15: text input.  (1) formulas of the documented grammar, enumerated exhaustively, have the points an independent parser and
// evaluator assigns to them; (2) every token sequence up to a bound and every single-byte mutation of a set of texts is either
// rejected or read, without crash, leak or a damaged context (AddressSanitizer build, exact allocation accounting).
#include "api.hpp"
#include "common.hpp"
#include <isl/polynomial.h>
#include <isl/schedule.h>
#include <isl/schedule_node.h>
#include <isl/flow.h>
#include <isl/stream.h>
#include <isl/obj.h>
#include <isl/vec.h>
static bool g_th;
// ---- independent parser of the formula language -------------------------------------------------
struct Env { I v[8]; };
struct NotFormula { string why; };
typedef std::function<bool(const Env &)> BF; typedef std::function<Rat(const Env &)> RF;
static Rat rmod(Rat a, I m) { return a - Rat(m) * Rat((a / Rat(m)).floor()); }
struct FP {
	string s; size_t p = 0; vector<string> vars; int nv = 0;
	FP(const string &t, vector<string> v) : s(t), vars(v) {}
	void ws() { while (p < s.size() && isspace((unsigned char) s[p])) ++p; }
	static bool idc(char c) { return isalnum((unsigned char) c) || c == '_'; }
	string word() { ws(); size_t q = p; while (q < s.size() && idc(s[q])) ++q; while (q > p && q < s.size() && s[q] == '\'') ++q; return s.substr(p, q - p); }
	bool take(const char *t) { ws(); size_t n = strlen(t); if (s.compare(p, n, t)) return false; if (idc(t[0]) && word() != t) return false; p += n; return true; }
	bool peek(const char *t) { size_t q = p; bool r = take(t); p = q; return r; }
	void need(const char *t) { if (!take(t)) throw NotFormula{cat("expected ", t, " at: ", s.substr(p))}; }
	bool number(I &x) { if (!digits(x)) return false; if (p < s.size() && s[p] == '^') { ++p; I e, b = x; if (!digits(e)) throw NotFormula{"exponent"}; for (x = 1; e > 0; --e) x *= b; } return true; }
	bool digits(I &x) { ws(); if (p >= s.size() || !isdigit((unsigned char) s[p])) return false; x = 0; while (p < s.size() && isdigit((unsigned char) s[p])) x = x * 10 + (s[p++] - '0'); return true; }
	I cst() { I x; if (!number(x)) throw NotFormula{"expected constant"}; return x; }
	int var(bool must = true) { string w = word(); for (int k = vars.size(); k-- > 0;) if (vars[k] == w) { p += w.size(); return k; } if (must) throw NotFormula{"unknown " + w}; return -1; }
	// factor: '(' aff ')' | var | const | floor forms | min/max, followed by at most one of: mod c, * c, / c, // c
	RF factor() {
		RF r; I x;
		if (take("(")) { r = aff(); need(")"); }
		else if (take("[")) { RF a = aff(); need("]"); r = [a](const Env &e) { return Rat(a(e).floor()); }; }
		else if (take("floord") || (take("ceild") && (x = -1))) { bool c = s.compare(p - 5, 5, "ceild") == 0; need("("); RF a = aff(); need(","); I d = cst(); need(")"); r = [a, d, c](const Env &e) { Rat q = a(e) / Rat(d); return Rat(c ? q.ceil() : q.floor()); }; }
		else if (take("floor")) { need("("); RF a = aff(); need(")"); r = [a](const Env &e) { return Rat(a(e).floor()); }; }
		else if (take("ceil")) { need("("); RF a = aff(); need(")"); r = [a](const Env &e) { return Rat(a(e).ceil()); }; }
		else if (peek("min") || peek("max")) { bool mn = take("min"); if (!mn) take("max"); need("("); vector<RF> l = list(); need(")"); r = [l, mn](const Env &e) { Rat b = l[0](e); for (auto &f : l) { Rat q = f(e); if (mn ? q < b : q > b) b = q; } return b; }; }
		else if (number(x)) { if (take("*")) { RF f = factor(); return [f, x](const Env &e) { return f(e) * Rat(x); }; } ws(); if (p < s.size() && (isalpha((unsigned char) s[p]) || s[p] == '_') && !peek("mod") && !peek("and") && !peek("or") && !peek("implies")) { RF f = factor(); return [f, x](const Env &e) { return f(e) * Rat(x); }; } r = [x](const Env &) { return Rat(x); }; }
		else { int k = var(); r = [k](const Env &e) { return Rat(e.v[k]); }; }
		if (take("%") || take("mod")) { I m = cst(); RF a = r; return [a, m](const Env &e) { return rmod(a(e), m); }; }
		if (take("*")) { I m = cst(); RF a = r; r = [a, m](const Env &e) { return a(e) * Rat(m); }; }
		if (take("//")) { I m = cst(); RF a = r; r = [a, m](const Env &e) { return Rat((a(e) / Rat(m)).floor()); }; }
		else if (take("/")) { I m = cst(); RF a = r; r = [a, m](const Env &e) { return a(e) / Rat(m); }; }
		return r;
	}
	RF aff() { vector<std::pair<int, RF>> t; int sg = 1; for (;;) { while (take("-")) sg = -sg; t.push_back({sg, factor()}); if (take("+")) sg = 1; else if (peek("->")) break; else if (take("-")) sg = -1; else break; } return [t](const Env &e) { Rat r(0); for (auto &q : t) r = q.first > 0 ? r + q.second(e) : r - q.second(e); return r; }; }
	vector<RF> list() { vector<RF> l{aff()}; while (take(",")) l.push_back(aff()); return l; }
	string cmp() { for (auto c : {"<<=", ">>=", "<<", ">>", "<=", ">=", "!=", "<", ">", "="}) if (take(c)) return c; return ""; }
	BF chain() {
		vector<RF> a = list(); string c = cmp(); if (c.empty()) throw NotFormula{"missing operator"}; BF r = [](const Env &) { return true; };
		while (!c.empty()) { vector<RF> b = list(); BF q = r; if (c == "<<" || c == ">>" || c == "<<=" || c == ">>=") { if (a.size() != b.size()) throw NotFormula{"sizes"}; r = [=](const Env &e) { if (!q(e)) return false; int o = 0; for (size_t k = 0; k < a.size() && !o; ++k) { Rat x = a[k](e), y = b[k](e); o = x < y ? -1 : x > y ? 1 : 0; } return c == "<<" ? o < 0 : c == ">>" ? o > 0 : c == "<<=" ? o <= 0 : o >= 0; }; }
			else r = [=](const Env &e) { if (!q(e)) return false; for (auto &f : a) for (auto &g : b) { Rat x = f(e), y = g(e); if (!(c == "<" ? x < y : c == ">" ? x > y : c == "<=" ? x <= y : c == ">=" ? x >= y : c == "=" ? x == y : x != y)) return false; } return true; };
			a = b; c = cmp(); }
		return r;
	}
	BF prim() {
		if (take("exists")) { bool par = take("("); size_t base = vars.size(); vector<std::pair<int, RF>> def; do { string w = word(); if (w.empty()) throw NotFormula{"variable"}; p += w.size(); vars.push_back(w); if (take("=")) { string keep = vars.back(); RF f = aff(); def.push_back({(int) vars.size() - 1, f}); } } while (take(",")); need(":"); size_t end = vars.size(); BF b = formula(); vars.resize(base); if (par) need(")"); if (end > 8) throw NotFormula{"too many variables"};
			return [=](const Env &e0) { Env e = e0; std::function<bool(size_t)> go = [&](size_t k) -> bool { if (k == end) return b(e); for (auto &d : def) if (d.first == (int) k) { Rat q = d.second(e); if (!q.isint()) return false; e.v[k] = q.n; return go(k + 1); } for (I x = -9; x <= 9; ++x) { e.v[k] = x; if (go(k + 1)) return true; } return false; }; return go(base); }; }
		if (take("true")) return [](const Env &) { return true; }; if (take("false")) return [](const Env &) { return false; };
		ws(); if (p < s.size() && s[p] == '(') { size_t q = p; auto keep = vars; try { ++p; BF f = formula(); need(")"); if (cmp().empty() && !peek("+") && !peek("-") && !peek("%") && !peek("mod") && !peek("*") && !peek("/") && !peek(",")) return f; } catch (NotFormula &) {} p = q; vars = keep; }
		return chain();
	}
	BF lit() { if (take("not") || (!peek("!=") && take("!"))) { BF f = prim(); return [f](const Env &e) { return !f(e); }; } return prim(); }
	BF conj() { BF r = lit(); while (take("and") || take("&&") || take("/\\")) { BF a = r, b = lit(); r = [a, b](const Env &e) { return a(e) && b(e); }; } return r; }
	BF disj() { BF r = conj(); while (take("or") || take("||") || take("\\/")) { BF a = r, b = conj(); r = [a, b](const Env &e) { return a(e) || b(e); }; } return r; }
	BF formula() { BF r = disj(); if (take("implies")) { BF a = r, b = disj(); r = [a, b](const Env &e) { return !a(e) || b(e); }; } return r; }
	BF all() { BF f = formula(); ws(); if (p != s.size()) throw NotFormula{"trailing: " + s.substr(p)}; return f; }
};
static Window W3() { static Window w = window_np(1, -1, 3, 2, -3, 4); return w; }
static void check_formula(const string &f) {
	string t = "[n] -> { [i, j] : " + f + " }"; BF b; try { FP p(f, {"n", "i", "j"}); b = p.all(); } catch (NotFormula &q) { fail("generator|" + f, "own parser: " + q.why); }
	isl_set *s = isl_set_read_from_str(ctx, t.c_str()); note_transition(); if (!s) { string e = isl_ctx_last_error_msg(ctx) ? isl_ctx_last_error_msg(ctx) : ""; mc::take_error(); fail("rejected|" + f, "not accepted: " + t + " (" + e + ")"); }
	static Window w = W3(); Bits want = where(w, [&](const I *x) { Env e{}; for (int k = 0; k < 3; ++k) e.v[k] = x[k]; return b(e); });
	expect_set("formula", s, w, want, f);
}
static const vector<string> AFF = {"i", "j", "n", "2", "-1", "2i", "3 j", "i + j", "n - 2j + 1", "-(i - j)", "-i", "i mod 2", "(i + j) % 3", "floor(i/2)", "ceil(j/2)", "floord(i + j, 3)", "ceild(i, 2)", "[i/2]", "min(i, j)", "max(i, j, 1)", "i//2", "2*floor(j/3)", "((i + 1))", "i*2", "- -i", "-2i", "-floor(i/2)", "i - 2*floor(i/2)", "floor((i + floor(j/2))/2)", "i/2", "(i + j)/2 - j", "min(i, 2) + max(j, -1)", "-min(i, -j)", "(i)", "0", "3 - 2", "i - -j", "2*3*i", "(i*2)/3", "floor(-i/2)", "floor((2i - 1)/3) mod 2", "2^3 - 6", "3^0 j"};
static const vector<string> CMP = {"<", "<=", "=", ">=", ">", "!="}, LEX = {"<<", "<<=", ">>", ">>="};
static const vector<string> ATOM = {"i >= 1", "j < n", "i = j", "i != 2", "0 <= i <= j", "exists (e : i = 2e)", "true", "false", "i mod 2 = 1", "exists e : e >= i and 2e <= j"};
// ---- texts and readers -----------------------------------------------------------------------------
struct Reader { string name; void *(*rd)(isl_ctx *, const char *); void (*fr)(void *); char *(*str)(void *); };
#define RD(T) {#T, [](isl_ctx *c, const char *s) -> void * { return isl_##T##_read_from_str(c, s); }, [](void *x) { isl_##T##_free((isl_##T *) x); }, [](void *x) -> char * { return isl_##T##_to_str((isl_##T *) x); }}
#define RF_(T, ST) {#T " file", [](isl_ctx *c, const char *s) -> void * { FILE *f = fmemopen((void *) s, strlen(s) ? strlen(s) : 1, "r"); void *r = isl_##T##_read_from_file(c, f); fclose(f); return r; }, [](void *x) { isl_##T##_free((isl_##T *) x); }, ST}
template <class T> static char *viap(T *x, isl_printer *(*p)(isl_printer *, T *), isl_ctx *(*gc)(T *)) { isl_printer *q = isl_printer_to_str(gc(x)); q = p(q, x); char *s = q ? isl_printer_get_str(q) : nullptr; isl_printer_free(q); return s; }
static vector<Reader> RDR = {
	RD(set), RD(map), RD(union_set), RD(union_map), RD(basic_set), RD(basic_map), RD(aff), RD(pw_aff), RD(multi_aff), RD(pw_multi_aff), RD(multi_pw_aff), RD(union_pw_aff), RD(union_pw_multi_aff), RD(multi_union_pw_aff), RD(pw_qpolynomial), RD(union_pw_qpolynomial),
	{"pw_qpolynomial_fold", [](isl_ctx *c, const char *s) -> void * { return isl_pw_qpolynomial_fold_read_from_str(c, s); }, [](void *x) { isl_pw_qpolynomial_fold_free((isl_pw_qpolynomial_fold *) x); }, [](void *x) -> char * { return viap((isl_pw_qpolynomial_fold *) x, isl_printer_print_pw_qpolynomial_fold, isl_pw_qpolynomial_fold_get_ctx); }},
	RD(val), RD(id), RD(space), RD(multi_val), RD(multi_id), RD(schedule), RD(schedule_constraints), RF_(set, [](void *x) -> char * { return isl_set_to_str((isl_set *) x); }), RF_(map, [](void *x) -> char * { return isl_map_to_str((isl_map *) x); }), RF_(schedule, [](void *x) -> char * { return isl_schedule_to_str((isl_schedule *) x); }),
	RF_(pw_qpolynomial, [](void *x) -> char * { return isl_pw_qpolynomial_to_str((isl_pw_qpolynomial *) x); }), RF_(union_access_info, [](void *x) -> char * { return isl_union_access_info_to_str((isl_union_access_info *) x); }), RF_(schedule_constraints, [](void *x) -> char * { return isl_schedule_constraints_to_str((isl_schedule_constraints *) x); }),
	{"vec file", [](isl_ctx *c, const char *s) -> void * { FILE *f = fmemopen((void *) s, strlen(s) ? strlen(s) : 1, "r"); void *r = isl_vec_read_from_file(c, f); fclose(f); return r; }, [](void *x) { isl_vec_free((isl_vec *) x); }, nullptr},
	{"stream obj", [](isl_ctx *c, const char *s) -> void * { isl_stream *st = isl_stream_new_str(c, s); isl_obj *o = (isl_obj *) malloc(sizeof(isl_obj)); *o = isl_stream_read_obj(st); isl_stream_free(st); if (o->type == isl_obj_none || !o->v) { if (o->type != isl_obj_none && o->v) o->type->free(o->v); free(o); return nullptr; } return o; }, [](void *x) { isl_obj *o = (isl_obj *) x; o->type->free(o->v); free(o); }, nullptr}};
static int rdr(const string &n) { for (size_t k = 0; k < RDR.size(); ++k) if (RDR[k].name == n) return k; return -1; }
static void feed(const Reader &r, const string &t, const string &who) {
	isl_ctx *c = isl_ctx_alloc(); isl_options_set_on_error(c, ISL_ON_ERROR_CONTINUE); long live = aw_live; note_transition();
	void *x = r.rd(c, t.c_str()); bool ok = x; if (x) { if (r.str) { char *s = r.str(x); free(s); } r.fr(x); } 
	isl_ctx_reset_error(c);
	isl_set *p = isl_set_read_from_str(c, "[n] -> { [i, j] : 0 <= i < n and j = 2i }"); isl_set *q = isl_set_read_from_str(c, "[n] -> { [i, j] : exists (e : i = e and j = 2e) and 0 <= i <= n - 1 }"); bool usable = p && q && isl_set_is_equal(p, q) == isl_bool_true; isl_set_free(p); isl_set_free(q);
	(void) live; isl_ctx_free(c); if (!usable) fail("context|" + r.name, "context not usable after: " + who); mc::note_outcome(ok ? "accepted" : "rejected"); note_validated();
}
static void fed(const Reader &r, const string &t, const string &who) { long live = aw_live; feed(r, t, who); if (aw_live != live) { long d = aw_live - live; aw_live = live; fail("leak|" + r.name, cat(d, " allocations outstanding after: ", who)); } }
struct Seed { string t; vector<const char *> r; };
static vector<Seed> SEED = {
	{"[n] -> { A[i, j] : 0 <= i < n and (j = 2i or not j >= 3) }", {"set", "union_set", "set file"}}, {"[n, m] -> { [i] -> B[o0 = i + 1, j'] : exists (e = floor((i)/2), f : 2e = i and f > j' mod 3) }", {"map", "union_map", "map file"}},
	{"{ A[]; B[i]; [C[i] -> D[j]] : i <= j; [2, x, x] }", {"union_set", "set"}}, {"{ [i, j] : i, j << j, 2 implies ceild(i, 2) != min(i, j) }", {"set", "basic_set"}}, {"[n] -> { : n % 2 = 0 || n >= 10 && true }", {"set", "union_set", "stream obj"}}, {"{ rat: A[x] -> [y] : 2x = 3y }", {"map", "basic_map", "stream obj"}},
	{"[n] -> { A[i] -> [(2i + floor((i + n)/3))/2] }", {"aff", "pw_aff", "multi_aff", "pw_multi_aff"}}, {"[n] -> { A[i] -> [(max(i, -n) mod 3)] : i < n; A[i] -> [(3)] : i >= n }", {"pw_aff", "union_pw_aff"}}, {"[n] -> { A[i, j] -> R[i + n, (2), [floor(j/2)]] }", {"multi_aff", "pw_multi_aff", "multi_pw_aff", "union_pw_multi_aff"}}, {"[n] -> { A[i] -> [((i) : i > 0; (NaN) : i <= 0), (n)] }", {"multi_pw_aff"}},
	{"[n] -> A[{ S[i] -> [(i)]; T[i, j] -> [(j - n)] }, { S[i] -> [(0)]; T[i, j] -> [(i)] }]", {"multi_union_pw_aff"}}, {"{ [] : 1 = 0 }", {"union_set", "multi_union_pw_aff"}}, {"R[]", {"multi_union_pw_aff", "space"}}, {"([n] -> A[] : { S[i] : i >= 0 })", {"multi_union_pw_aff"}},
	{"[n] -> { A[i, j] -> (1/2 * i^2 * j + 3 * floor((i)/2) - n) : i >= 0; A[i, j] -> 4 : i < 0 }", {"pw_qpolynomial", "union_pw_qpolynomial", "pw_qpolynomial file"}}, {"[n] -> { [i] -> max(n * i, 2 + i, -i^3) : 0 <= i <= n }", {"pw_qpolynomial_fold", "stream obj"}}, {"-12345678901234567890/42", {"val"}}, {"infty", {"val"}}, {"ident_1'", {"id"}}, {"[n] -> { A[i] -> [B[] -> C[x, y]] }", {"space"}}, {"{ A[3, -2/5, NaN] }", {"multi_val"}}, {"{ A[a, b_1] }", {"multi_id"}},
	{"2 4\n1 1 0 3\n0 2 -1 0\n", {"set", "basic_set", "set file"}}, {"2\n\n1 4 1 1 0 0\n0 1 -1 2\n\n1 5 1 1 1 0\n# comment\n1 1 -2 3 0\n", {"map", "map file"}}, {"1\n2 6 1 0 2 1\n1 1 -2 3 1 0\n0 1 0 -3 0 1\n", {"set", "basic_set"}}, {"3 1 -2 5", {"vec file"}},
	{"{ domain: \"[n] -> { S[i] : 0 <= i < n; T[i] }\", child: { sequence: [ { filter: \"{ S[i] }\", child: { schedule: \"[{ S[i] -> [(i)] }, { S[i] -> [(-i)] }]\", permutable: 1, coincident: [ 1, 0 ], options: \"{ unroll[0] }\" } }, { filter: \"{ T[i] }\" } ] } }", {"schedule", "schedule file"}},
	{"domain: \"{ S[i] }\"\nchild:\n  context: \"[n] -> { [] : n > 0 }\"\n  child:\n    mark: \"m\"\n    child:\n      set:\n      - filter: \"{ S[i] : i >= 0 }\"\n        child:\n          schedule: \"[{ S[i] -> [(i)] }]\"\n          child:\n            guard: \"{ [t] : t > 2 }\"\n      - filter: \"{ S[i] : i < 0 }\"\n", {"schedule", "schedule file"}},
	{"{ domain: \"{ G[i] }\", child: { contraction: \"{ S[i, j] -> G[i] }\", expansion: \"{ G[i] -> S[i, j] : 0 <= j < 3 }\", child: { schedule: \"[{ S[i, j] -> [(j)] }]\", child: { extension: \"{ [t] -> X[t] }\" } } } }", {"schedule"}},
	{"{ domain: \"[n] -> { S[i] : 0 <= i < n }\", context: \"[n] -> { : n > 2 }\", validity: \"{ S[i] -> S[i + 1] }\", coincidence: \"{ }\", condition: \"{ S[i] -> S[i] }\", conditional_validity: \"{ S[i] -> S[i] }\", proximity: \"{ }\" }", {"schedule_constraints", "schedule_constraints file"}},
	{"sink: \"{ S[i] -> A[i] }\"\nmust_source: \"{ T[i] -> A[i] }\"\nmay_source: \"{ T[i] -> A[i] }\"\nkill: \"{ }\"\nschedule_map: \"{ S[i] -> [i]; T[i] -> [i] }\"\n", {"union_access_info file"}}, {"{ sink: \"{ S[i] -> A[i] }\", schedule: { domain: \"{ S[i]; T[i] }\", child: { schedule: \"[{ S[i] -> [(i)]; T[i] -> [(i)] }]\" } }, must_source: \"{ T[i] -> A[i] }\" }", {"union_access_info file"}}};
static const vector<string> TOK = {"i", "n", "A", "2", "-1", "[", "]", "{", "}", "(", ")", "->", ":", ";", ",", "=", "<=", "<<", "!=", "+", "-", "*", "/", "//", "mod", "floor", "ceild", "min", "exists", "and", "or", "not", "implies", "true", "?", "NaN", "infty", "\"s\"", "^", "rat", "'", "1.5", "@", "#", "\\", "$"};
static const vector<std::pair<string, vector<const char *>>> TPL = {{"%", {"set", "union_map", "stream obj", "val", "pw_qpolynomial"}}, {"[n] -> { [i, j] : % }", {"set"}}, {"[n] -> { A[%] -> B[i] }", {"map", "space"}}, {"[n] -> { [i] -> [(%)] }", {"pw_aff", "multi_pw_aff", "pw_multi_aff"}}, {"[n] -> { [i] -> % }", {"pw_qpolynomial", "pw_qpolynomial_fold", "union_pw_aff"}}, {"[%] -> { }", {"union_set", "multi_union_pw_aff"}}, {"[n] -> A[% ]", {"multi_union_pw_aff", "space"}}, {"{ A[%] }", {"multi_val", "multi_id"}}, {"{ domain: \"{ S[i] }\", % }", {"schedule", "schedule_constraints"}}};
static string MUTC() { string s = "[]{}():;,=<>!&|/\\*+-%?^@#$.'\"09aeinAr_ \n\t~`"; s += '\x01'; s += '\xff'; s += '\x80'; return s; }
int main(int argc, char **argv) {
	mc::Harness h; h.property = "C15"; g_th = tier_thorough(argc, argv); aw_init();
	auto add = [&](const string &n, mc::Radix r, std::function<void(const vector<uint64_t> &)> f, std::function<string(const vector<uint64_t> &)> d) { h.add(mc::SpaceDef(n, r.size(), [=](uint64_t i) { f(r.at(i)); }, [=](uint64_t i) { return d(r.at(i)); })); };
	auto formula = [&](const string &n, mc::Radix r, std::function<string(const vector<uint64_t> &)> g) { add(n, r, [g](const vector<uint64_t> &v) { string f = g(v); if (!f.empty()) check_formula(f); }, g); };
	const size_t NA = AFF.size();
	formula("comparisons", {NA, CMP.size(), NA}, [](const vector<uint64_t> &v) { return AFF[v[0]] + " " + CMP[v[1]] + " " + AFF[v[2]]; });
	size_t st = g_th ? 1 : 4, NB = (NA + st - 1) / st; formula("chains", {NB, 6, NB, 6, 7}, [st](const vector<uint64_t> &v) { return AFF[v[0] * st] + " " + CMP[v[1]] + " " + AFF[v[2] * st] + " " + CMP[v[3]] + " " + AFF[(v[4] * 6) % AFF.size()]; });
	// lexicographic comparison is defined on integer tuples
	auto rational = [](const string &a) { return a == "i/2" || a == "(i + j)/2 - j" || a == "(i*2)/3"; };
	formula("lists", {NB, NB, 10, 6, 3}, [st, rational](const vector<uint64_t> &v) { if (v[2] >= 6 && (rational(AFF[v[0] * st]) || rational(AFF[v[1] * st]) || rational(AFF[(v[3] * 7 + 1) % AFF.size()]))) return string(); string op = v[2] < 6 ? CMP[v[2]] : LEX[v[2] - 6], r = AFF[(v[3] * 7 + 1) % AFF.size()]; if (v[4] == 0) return AFF[v[0] * st] + ", " + AFF[v[1] * st] + " " + op + " " + r + (v[2] < 6 ? "" : ", j"); if (v[4] == 1) return AFF[v[0] * st] + " " + op + " " + r + (v[2] < 6 ? ", " + AFF[v[1] * st] : " " + op + " " + AFF[v[1] * st]); return AFF[v[0] * st] + ", i " + op + " " + r + ", j " + (v[2] < 6 ? CMP[(v[2] + 1) % 6] : op) + " " + AFF[v[1] * st] + ", 1"; });
	formula("connectives", {ATOM.size(), ATOM.size(), ATOM.size(), 16, 8, 5}, [](const vector<uint64_t> &v) {
		static const vector<string> OP = {" and ", " or ", " implies ", " && "}; string o1 = OP[v[3] & 3], o2 = OP[v[3] >> 2]; int par = v[5]; if (par == 0 && o1 == " implies " && o2 == " implies ") return string(); string a[3]; for (int k = 0; k < 3; ++k) a[k] = (v[4] >> k & 1 ? "not " : "") + ATOM[v[k]];
		if (!g_th && (v[0] * 7 + v[1] * 3 + v[2]) % 10 != (v[4] + 2 * v[5]) % 10) return string();
		for (int k = 0; k < 2; ++k) if (ATOM[v[k]].find("exists e :") == 0 || (par == 1 && k == 1)) { if (ATOM[v[k]].find("exists e :") == 0) a[k] = string(v[4] >> k & 1 ? "not " : "") + "(" + ATOM[v[k]] + ")"; }
		if (par == 0) return a[0] + o1 + a[1] + o2 + a[2]; if (par == 1) return "(" + a[0] + o1 + a[1] + ")" + o2 + a[2]; if (par == 2) return a[0] + o1 + "(" + a[1] + o2 + a[2] + ")"; if (par == 3) return "not (" + a[0] + o1 + a[1] + ")" + o2 + a[2]; return "((" + a[0] + ")" + o1 + "not ((" + a[1] + ")" + o2 + a[2] + "))"; });
	static const vector<string> QV = {"e", "e = [i/2]", "e = floor((i + j)/3)", "e, f", "e, f = [j/2]", "e = [i/2], f = [(e + j)/2]", "e = 2i", "e = [n/2], f"}, QB = {"i = 2e", "e >= i and 3e <= j + n", "i - 2e >= 1", "e = j", "0 <= e <= 3 and i mod 2 = 1", "(e >= i or e <= -2) and -4 <= e <= 4", "not (e = 1) and 0 <= e <= i", "e = i implies e = j", "exists (g : g = 2e and g = i)", "exists g = [e/2] : g = j and 0 <= e <= 3"};
	formula("quantifiers", {QV.size(), QB.size(), 4, ATOM.size(), 4}, [](const vector<uint64_t> &v) { if (!g_th && v[3] % 3 != (v[0] + v[1]) % 3) return string(); string b = QB[v[1]]; bool f = QV[v[0]].find("f") != string::npos && QV[v[0]].find(", f") != string::npos; if (v[0] == 7 && v[1] >= 5) return string(); if (b.find("implies") != string::npos && QV[v[0]].find("=") == string::npos) return string(); if (f) b = "(" + b + ") and 0 <= f <= j + 3"; if (QV[v[0]].find("e,") == 0 || QV[v[0]] == "e") b = "(" + b + ") and -9 <= e <= 9";
		string q = v[4] & 1 ? "exists " + QV[v[0]] + " : " + b : "exists (" + QV[v[0]] + " : " + b + ")"; if (v[4] & 2) q = "not (" + q + ")"; switch (v[2]) { case 0: return q; case 1: return ATOM[v[3]].find("exists e :") == 0 ? string() : ATOM[v[3]] + " and " + q; case 2: return "(" + q + ") or " + ATOM[v[3]]; default: return "(" + q + ") and not " + ATOM[v[3]]; } });
	// tuples: members defined by expressions, repeated names, constants, ternaries
	static const vector<std::pair<string, int>> MEM = {{"i", 0}, {"j", 0}, {"i = 2n", 1}, {"i + 1", 2}, {"i", 3}, {"3", 4}, {"k = i - j", 5}, {"floor(i/2)", 6}, {"(i > n ? 1 : j)", 7}, {"(2i)", 8}, {"*", 9}, {"(i >= 0 and j >= 0 ? i + j : -1)", 10}, {"min(i, n)", 11}, {"i mod 3", 12}};
	add("tuples", {MEM.size(), MEM.size(), 4, 3}, [](const vector<uint64_t> &v) {
		string c = v[2] == 0 ? "" : v[2] == 1 ? " : i >= 0" : v[2] == 2 ? " : i <= n or j = 2" : " : exists (e : i = 2e)"; string a = MEM[v[0]].first, b = MEM[v[1]].first; string t = v[3] == 0 ? "[n] -> { [i, j] -> [" + a + ", " + b + "]" + c + " }" : v[3] == 1 ? "[n] -> { A[i, j] -> [B[" + a + "] -> [" + b + "]]" + c + " }" : "[n] -> { [[i] -> C[j]] -> [" + a + ", D[]," + b + "]" + c + " }";
		if (v[3] == 2) t = "[n] -> { [[i] -> C[j]] -> [[D[] -> [" + a + "]] -> E[" + b + "]]" + c + " }"; auto m = [&](int k, const I *x, I o) { I n = x[0], i = x[1], j = x[2]; switch (MEM[k].second) { case 0: return o == (k ? j : i); case 3: return o == i; case 1: return false; case 2: return o == i + 1; case 4: return o == 3; case 5: return o == i - j; case 6: return o == fdiv(i, 2); case 7: return o == (i > n ? 1 : j); case 8: return o == 2 * i; case 9: return true; case 10: return o == (i >= 0 && j >= 0 ? i + j : -1); case 11: return o == std::min(i, n); case 12: return o == mod(i, 3); } return false; };
		bool rej = MEM[v[0]].second == 1 || MEM[v[1]].second == 1 || (MEM[v[0]].second == 5 && MEM[v[1]].second == 5); if (rej) { isl_map *r = isl_map_read_from_str(ctx, t.c_str()); if (r) isl_map_free(r); else mc::take_error(); return; }
		isl_map *r = isl_map_read_from_str(ctx, t.c_str()); if (!r) { mc::take_error(); fail("tuple|" + t, "rejected"); } static Window w = window_np(1, 0, 2, 4, -1, 3); Bits want = where(w, [&](const I *x) { bool q = v[2] == 0 || (v[2] == 1 ? x[1] >= 0 : v[2] == 2 ? x[1] <= x[0] || x[2] == 2 : mod(x[1], 2) == 0); return q && m(v[0], x, x[3]) && m(v[1], x, x[4]); }); expect_map("tuple", r, w, want, t);
	}, [](const vector<uint64_t> &v) { return MEM[v[0]].first + "," + MEM[v[1]].first; });
	// token sequences
	for (size_t t = 0; t < TPL.size(); ++t) for (int len = 1; len <= 3; ++len) {
		vector<uint64_t> rad(len, TOK.size()); mc::Radix r(rad); uint64_t step = len == 3 ? g_th ? 3 : 19 : 1, n = (r.size() + step - 1) / step; auto text = [=](uint64_t i) { auto v = r.at(i * step); string s; for (auto k : v) s += (s.empty() ? "" : " ") + TOK[k]; string x = TPL[t].first; size_t q = x.find('%'); return x.replace(q, 1, s); };
		h.add(mc::SpaceDef(cat("tokens ", t, " length ", len), n, [=](uint64_t i) { string x = text(i); for (auto *q : TPL[t].second) fed(RDR[rdr(q)], x, x); }, text)); }
	// single-byte mutations: deletion, replacement and insertion of every byte of a set at every position, every prefix
	static const string MC = MUTC();
	for (size_t k = 0; k < SEED.size(); ++k) {
		uint64_t L = SEED[k].t.size(), per = 2 * MC.size() + 3; uint64_t step = g_th ? 1 : L > 150 ? 5 : 2;
		auto text = [=](uint64_t i) { i = i * step; uint64_t pos = i / per, m = i % per; string s = SEED[k].t; if (m == 0) return s.substr(0, pos); if (m == 1) { s.erase(pos, 1); return s; } if (m == 2) { s.insert(pos, s.substr(pos, 3)); return s; } m -= 3; if (m < MC.size()) s[pos] = MC[m]; else s.insert(pos, 1, MC[m - MC.size()]); return s; };
		h.add(mc::SpaceDef(cat("mutations ", k), (L * per + step - 1) / step, [=](uint64_t i) { string x = text(i); size_t ex = x.find('^'); if (ex != string::npos && ex + 4 < x.size() && isdigit(x[ex + 1]) && isdigit(x[ex + 2]) && isdigit(x[ex + 3])) return; /* a power too large to compute */ auto &R = SEED[k].r; fed(RDR[rdr(R[i % R.size()])], x, x); }, text)); }
	add("texts and readers", {SEED.size(), RDR.size()}, [](const vector<uint64_t> &v) { auto &q = SEED[v[0]]; bool own = false; for (auto *n : q.r) own = own || RDR[v[1]].name == n; fed(RDR[v[1]], q.t, q.t); if (own && q.r[0] == RDR[v[1]].name) { void *x = RDR[v[1]].rd(ctx, q.t.c_str()); if (!x) { mc::take_error(); fail("rejected|" + q.t, "own reader rejects it"); } RDR[v[1]].fr(x); } }, [](const vector<uint64_t> &v) { return RDR[v[1]].name + " " + SEED[v[0]].t; });
	// texts that denote nothing
	static const vector<std::pair<const char *, string>> BAD = {{"set", "{ [i] : i = 2^-1 }"}, {"val", "2^-1"}, {"pw_qpolynomial", "{ [i] -> i^-1 }"}, {"vec file", "-1 2"}, {"multi_id", "{ A[2] }"}, {"id", "12"}, {"set", "{ [i] : i }"}, {"set", "{ [i] : i >= }"}, {"set", "{ [i] : j >= 0 }"}, {"set", "{ [i] -> [j] }"}, {"set", "{ [i] : i*i >= 0 }"}, {"set", "{ [i] : 0 <= i <= }"}, {"set", "{ [i] : i << 1, 2 }"}, {"set", "{ [i] ; [i, j] }"}, {"basic_set", "{ [i] : i = 0 or i = 2 }"}, {"set", "{ [i] : i mod j = 0 }"}, {"set", "{ [i"}, {"map", "{ [i] -> [i"}, {"aff", "{ [i] -> [i*i] }"}, {"aff", "{ [i] -> [i, i] }"}, {"pw_aff", "{ [i] -> [(i) : i >= 0] }"}, {"schedule", "{ domain: 3 }"}, {"schedule", "{ child: { mark: \"m\" } }"}, {"set", "{ [i] : i / j >= 0 }"}, {"set", "[n, n] -> { [i] }"}};
	add("malformed", {BAD.size()}, [](const vector<uint64_t> &v) { auto &r = RDR[rdr(BAD[v[0]].first)]; void *x = r.rd(ctx, BAD[v[0]].second.c_str()); if (x) { r.fr(x); fail("malformed|" + BAD[v[0]].second, cat("accepted as ", r.name)); } isl_ctx_reset_error(ctx); mc::take_error(); }, [](const vector<uint64_t> &v) { return BAD[v[0]].second; });
	// long tokens and deep nesting
	add("long tokens", {12, 700}, [](const vector<uint64_t> &v) {
		int n = v[1] + 1; string id(n, 'x'), num(n, '7'), t; switch (v[0]) { case 0: t = "{ " + id + "[i] }"; break; case 1: t = "[" + id + "] -> { [i] : i >= " + id + " }"; break; case 2: t = "{ [i] : i >= " + num + " }"; break; case 3: t = "{ [i] : exists (" + id + " : i = 2" + id + ") }"; break; case 4: t = "{ [" + id + "] -> [" + id + "' ] }"; break; case 5: t = "{ domain: \"{ " + id + "[i] }\" }"; break; case 6: t = string("{ [i] : i = 1 ") + "#" + id + "\n }"; break; case 7: t = "{ [i] : i = " + string(n, '-') + "1 }"; break; case 8: t = num + "/" + num + "1"; break; case 9: t = string(n, ' ') + "{ [i] }"; break; case 10: t = "{ [i" + string(n, '\'') + "] }"; break; case 11: t = id; break; }
		int r = v[0] == 4 ? rdr("map") : v[0] == 5 ? rdr("schedule") : v[0] == 8 ? rdr("val") : v[0] == 11 ? rdr("id") : rdr("set"); fed(RDR[r], t, cat("form ", v[0], " length ", n));
		if (v[0] != 10) { void *x = RDR[r].rd(ctx, t.c_str()); if (!x) { mc::take_error(); fail(cat("rejected|long token form ", v[0]), cat("length ", n)); } if (v[0] == 0 || v[0] == 11) { string s = v[0] ? isl_id_get_name((isl_id *) x) : isl_set_get_tuple_name((isl_set *) x); RDR[r].fr(x); if (s != id) fail("long name", cat("length ", n, " read as ", s.size(), " characters")); return; } RDR[r].fr(x); }
	}, [](const vector<uint64_t> &v) { return cat(v[0], " ", v[1]); });
	static const vector<std::pair<string, string>> NEST = {{"(", ")"}, {"[", "/2]"}, {"floor(", "/2)"}, {"not (", ")"}, {"exists (e# : ", ")"}, {"min(0, ", ")"}, {"-(", ")"}, {"((", "))"}};
	add("nesting", {NEST.size(), 24, 2}, [](const vector<uint64_t> &v) { int n = v[1] + 1; string a, b; for (int k = 0; k < n; ++k) { string q = NEST[v[0]].first; size_t at = q.find('#'); if (at != string::npos) q.replace(at, 1, S(k)); a += q; b += NEST[v[0]].second; } bool cond = v[0] == 3 || v[0] == 4 || (v[0] != 1 && v[0] != 2 && v[0] != 5 && v[0] != 6 && v[2]); string f = cond ? a + "i >= 1" + b : a + "i" + b + " >= 0"; fed(RDR[rdr("set")], "[n] -> { [i, j] : " + f + " }", f); if (n <= (v[0] == 4 ? 2 : 6)) check_formula(f); }, [](const vector<uint64_t> &v) { return cat(NEST[v[0]].first, " ", v[1]); });
	h.bounds["spaces"] = cat("formulas: all comparisons of ", NA, " expressions, chains and lists over a third of them, connectives over ", ATOM.size(), " atoms, quantifiers, tuple members; robustness: ", TPL.size(), " templates x all sequences of up to 2 (and a residue class of those of 3) of ", TOK.size(), " tokens; every prefix, deletion, duplication, replacement and insertion of ", MC.size(), " bytes at every position (quick: a residue class) of ", SEED.size(), " texts; tokens of length up to 700; nesting up to 24");
	return mc::run(argc, argv, h);
}
