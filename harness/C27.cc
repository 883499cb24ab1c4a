// C27: lists, associative arrays and identifiers as abstract data types. Every operation sequence up to a depth.
#include "common.hpp"
#include <isl/id.h>
#include <isl/id_to_id.h>
#include <isl/id_to_pw_aff.h>
#include <isl/id_to_ast_expr.h>
#include <isl/map_to_basic_set.h>
#include <isl/ast.h>
#include <isl/constraint.h>
#include <isl/polynomial.h>
#include <isl/union_set.h>
#include <isl/union_map.h>
#include <set>
typedef vector<int> L;
static isl_ctx *cx;
static string sh(const L &l) { string s = "("; for (int x : l) s += cat(x, " "); return s + ")"; }
static void noerr() { isl_ctx_reset_error(cx); }
// --- lists ----------------------------------------------------------------------------------------------------
struct ListOps { string name; std::function<void(const vector<uint64_t> &, int, int)> seq; std::function<void(int, uint64_t)> scc; };
static const int NOP = 36;
static const char *opname(int o) { static char b[40]; static const char *n[] = {"add 0", "add 1", "add 2", "insert@0", "insert@1", "insert@n", "insert@n+1", "drop 0,1", "drop 0,2", "drop 1,1", "drop n-1,1", "drop n,1", "drop 0,0", "drop n,0", "clear", "swap 0,1", "swap 0,n-1", "swap 0,n", "swap 1,1", "reverse", "concat copy", "concat other", "concat empty", "prepend other", "set 0", "set n-1", "set n", "set -1", "sort", "sort desc", "sort by half", "map +1", "copy", "drop copy", "use copy", "map error"}; snprintf(b, 40, "%s", n[o]); return b; }
// the model of an operation; false: must fail
static bool model(int o, L &l, L &side, bool &hasside) {
	int n = l.size();
	switch (o) {
	case 0: case 1: case 2: l.push_back(o); return true;
	case 3: l.insert(l.begin(), 1); return true; case 4: if (n < 1) return false; l.insert(l.begin() + 1, 2); return true; case 5: l.push_back(0); return true; case 6: return false;
	case 7: if (n < 1) return false; l.erase(l.begin()); return true; case 8: if (n < 2) return false; l.erase(l.begin(), l.begin() + 2); return true; case 9: if (n < 2) return false; l.erase(l.begin() + 1); return true; case 10: if (n < 1) return false; l.pop_back(); return true; case 11: return false; case 12: case 13: return true;
	case 14: l.clear(); return true;
	case 15: if (n < 2) return false; std::swap(l[0], l[1]); return true; case 16: if (n < 1) return false; std::swap(l[0], l[n - 1]); return true; case 17: return n == 0 ? true : false; case 18: return true;
	case 19: std::reverse(l.begin(), l.end()); return true;
	case 20: { L c = l; l.insert(l.end(), c.begin(), c.end()); return true; } case 21: l.push_back(3); l.push_back(1); return true; case 22: return true; case 23: l.insert(l.begin(), {3, 1}); return true;
	case 24: if (n < 1) return false; l[0] = 2; return true; case 25: if (n < 1) return false; l[n - 1] = 0; return true; case 26: case 27: return false;
	case 28: std::sort(l.begin(), l.end()); return true; case 29: std::sort(l.begin(), l.end(), std::greater<int>()); return true; case 30: return true;
	case 31: for (auto &x : l) ++x; return true;
	case 32: side = l; hasside = true; return true; case 33: hasside = false; side.clear(); return true; case 34: if (hasside) std::swap(l, side); return true;
	case 35: return n == 0;
	}
	return true;
}
#define LIST(EL, MAKE, STR) struct T_##EL { typedef isl_##EL E; typedef isl_##EL##_list List; \
	static E *make(int v) { return MAKE; } static E *copy(E *e) { return isl_##EL##_copy(e); } static void free_(E *e) { isl_##EL##_free(e); } static char *str(E *e) { return STR; } \
	static List *alloc(int n) { return isl_##EL##_list_alloc(cx, n); } static List *lcopy(List *l) { return isl_##EL##_list_copy(l); } static void lfree(List *l) { isl_##EL##_list_free(l); } \
	static List *ladd(List *l, E *e) { return isl_##EL##_list_add(l, e); } static List *insert(List *l, unsigned p, E *e) { return isl_##EL##_list_insert(l, p, e); } static List *drop(List *l, unsigned p, unsigned n) { return isl_##EL##_list_drop(l, p, n); } static List *clear(List *l) { return isl_##EL##_list_clear(l); } static List *swap(List *l, unsigned p, unsigned q) { return isl_##EL##_list_swap(l, p, q); } static List *reverse(List *l) { return isl_##EL##_list_reverse(l); } static List *concat(List *a, List *b) { return isl_##EL##_list_concat(a, b); } \
	static int size(List *l) { return isl_##EL##_list_size(l); } static int size2(List *l) { return isl_##EL##_list_n_##EL(l); } static E *at(List *l, int k) { return isl_##EL##_list_get_at(l, k); } static E *at2(List *l, int k) { return isl_##EL##_list_get_##EL(l, k); } static List *set(List *l, int k, E *e) { return isl_##EL##_list_set_##EL(l, k, e); } static List *from(E *e) { return isl_##EL##_list_from_##EL(e); } static List *from2(E *e) { return isl_##EL##_to_list(e); } \
	static isl_stat foreach(List *l, isl_stat (*f)(E *, void *), void *u) { return isl_##EL##_list_foreach(l, f, u); } static isl_bool every(List *l, isl_bool (*f)(E *, void *), void *u) { return isl_##EL##_list_every(l, f, u); } static List *map(List *l, E *(*f)(E *, void *), void *u) { return isl_##EL##_list_map(l, f, u); } static List *sort(List *l, int (*f)(E *, E *, void *), void *u) { return isl_##EL##_list_sort(l, f, u); } static isl_stat scc(List *l, isl_bool (*f)(E *, E *, void *), void *u, isl_stat (*g)(List *, void *), void *v) { return isl_##EL##_list_foreach_scc(l, f, u, g, v); } };
static string P(const char *f, int v) { char b[80]; snprintf(b, 80, f, v); return b; }
static char *viaprinter(isl_printer *(*f)(isl_printer *, void *), void *e) { isl_printer *p = isl_printer_to_str(cx); p = f(p, e); char *s = isl_printer_get_str(p); isl_printer_free(p); return s; }
LIST(val, isl_val_int_from_si(cx, v), isl_val_to_str(e))
LIST(id, isl_id_alloc(cx, P("i%d", v).c_str(), nullptr), isl_id_to_str(e))
LIST(basic_set, isl_basic_set_read_from_str(cx, P("{ [%d] }", v).c_str()), isl_basic_set_to_str(e))
LIST(set, isl_set_read_from_str(cx, P("{ [%d] }", v).c_str()), isl_set_to_str(e))
LIST(basic_map, isl_basic_map_read_from_str(cx, P("{ [%d] -> [] }", v).c_str()), isl_basic_map_to_str(e))
LIST(map, isl_map_read_from_str(cx, P("{ [] -> [%d] }", v).c_str()), isl_map_to_str(e))
LIST(union_set, isl_union_set_read_from_str(cx, P("{ A[%d]; B[] }", v).c_str()), isl_union_set_to_str(e))
LIST(union_map, isl_union_map_read_from_str(cx, P("{ A[%d] -> C[]; B[] -> C[] }", v).c_str()), isl_union_map_to_str(e))
LIST(aff, isl_aff_read_from_str(cx, P("{ [i] -> [i + %d] }", v).c_str()), isl_aff_to_str(e))
LIST(pw_aff, isl_pw_aff_read_from_str(cx, P("{ [i] -> [%d] : i >= 0 }", v).c_str()), isl_pw_aff_to_str(e))
LIST(pw_multi_aff, isl_pw_multi_aff_read_from_str(cx, P("{ [i] -> [%d, i] : i >= 0 }", v).c_str()), isl_pw_multi_aff_to_str(e))
LIST(union_pw_aff, isl_union_pw_aff_read_from_str(cx, P("{ A[i] -> [%d]; B[] -> [0] }", v).c_str()), isl_union_pw_aff_to_str(e))
LIST(union_pw_multi_aff, isl_union_pw_multi_aff_read_from_str(cx, P("{ A[i] -> C[%d]; B[] -> D[] }", v).c_str()), isl_union_pw_multi_aff_to_str(e))
LIST(ast_expr, isl_ast_expr_from_val(isl_val_int_from_si(cx, v)), isl_ast_expr_to_str(e))
LIST(ast_node, isl_ast_node_alloc_user(isl_ast_expr_from_val(isl_val_int_from_si(cx, v))), isl_ast_node_to_str(e))
LIST(constraint, isl_constraint_set_constant_si(isl_constraint_alloc_inequality(isl_local_space_from_space(isl_space_set_alloc(cx, 0, 1))), v), viaprinter([](isl_printer *p, void *x) { return isl_printer_print_constraint(p, (isl_constraint *) x); }, e))
LIST(qpolynomial, isl_qpolynomial_val_on_domain(isl_space_set_alloc(cx, 0, 1), isl_val_int_from_si(cx, v)), viaprinter([](isl_printer *p, void *x) { return isl_printer_print_qpolynomial(p, (isl_qpolynomial *) x); }, e))
LIST(pw_qpolynomial, isl_pw_qpolynomial_read_from_str(cx, P("{ [i] -> %d + i^2 : i > 0 }", v).c_str()), isl_pw_qpolynomial_to_str(e))
LIST(pw_qpolynomial_fold, isl_pw_qpolynomial_fold_from_pw_qpolynomial(isl_fold_max, isl_pw_qpolynomial_read_from_str(cx, P("{ [i] -> %d + i^2 : i > 0 }", v).c_str())), viaprinter([](isl_printer *p, void *x) { return isl_printer_print_pw_qpolynomial_fold(p, (isl_pw_qpolynomial_fold *) x); }, e))
template <class T> struct Run {
	typedef typename T::E E; typedef typename T::List List;
	static std::map<string, int> &names() { static std::map<string, int> m; if (m.empty()) for (int v = 0; v < 12; ++v) { E *e = T::make(v); char *s = T::str(e); m[s] = v; free(s); T::free_(e); } return m; }
	static int value(E *e) { char *s = T::str(e); auto it = names().find(s ? s : "?"); string q = s ? s : "?"; free(s); if (it == names().end()) fail("list|element", "unknown element " + q); return it->second; }
	static int take(E *e) { int v; try { v = value(e); } catch (...) { T::free_(e); throw; } T::free_(e); return v; }
	static L read(List *l) { L r; int n = T::size(l); for (int k = 0; k < n; ++k) { E *e = T::at(l, k); r.push_back(take(e)); } return r; }
	static int cmp(E *a, E *b, void *u) { int x = value(a), y = value(b); int m = (int) (intptr_t) u; if (m == 1) return x < y ? -1 : x > y; if (m == 2) return y < x ? -1 : y > x; x /= 2; y /= 2; return x < y ? -1 : x > y; }
	static List *mk(const L &v) { List *l = T::alloc(1); for (int x : v) l = T::ladd(l, T::make(x)); return l; }
	static List *apply(int o, List *l, List *&side) {
		int n = T::size(l);
		switch (o) {
		case 0: case 1: case 2: return T::ladd(l, T::make(o));
		case 3: return T::insert(l, 0, T::make(1)); case 4: return T::insert(l, 1, T::make(2)); case 5: return T::insert(l, n, T::make(0)); case 6: return T::insert(l, n + 1, T::make(0));
		case 7: return T::drop(l, 0, 1); case 8: return T::drop(l, 0, 2); case 9: return T::drop(l, 1, 1); case 10: return T::drop(l, n - 1, 1); case 11: return T::drop(l, n, 1); case 12: return T::drop(l, 0, 0); case 13: return T::drop(l, n, 0);
		case 14: return T::clear(l); case 15: return T::swap(l, 0, 1); case 16: return n ? T::swap(l, 0, n - 1) : (T::lfree(l), (List *) nullptr); case 17: return n ? T::swap(l, 0, n) : l; case 18: return n > 1 ? T::swap(l, 1, 1) : l; case 19: return T::reverse(l);
		case 20: { List *c = T::lcopy(l); return T::concat(l, c); } case 21: { L q{3, 1}; return T::concat(l, mk(q)); } case 22: return T::concat(l, T::alloc(0)); case 23: { L q{3, 1}; return T::concat(mk(q), l); }
		case 24: return T::set(l, 0, T::make(2)); case 25: return T::set(l, n - 1, T::make(0)); case 26: return T::set(l, n, T::make(0)); case 27: return T::set(l, -1, T::make(0));
		case 28: return T::sort(l, cmp, (void *) 1); case 29: return T::sort(l, cmp, (void *) 2); case 30: return T::sort(l, cmp, (void *) 3);
		case 31: return T::map(l, [](E *e, void *) { int v = take(e); return T::make(v + 1); }, nullptr);
		case 32: if (side) T::lfree(side); side = T::lcopy(l); return l; case 33: if (side) T::lfree(side); side = nullptr; return l; case 34: if (side) std::swap(l, side); return l;
		case 35: return T::map(l, [](E *e, void *) { T::free_(e); return (E *) nullptr; }, nullptr);
		}
		return l;
	}
	static void check(List *l, const L &m, const string &trace) {
		mc::note_validated(); string nm = __PRETTY_FUNCTION__; size_t a = nm.find("T_"); nm = nm.substr(a + 2, nm.find_first_of(";]", a) - a - 2);
		auto bad = [&](const string &w) { fail("list|" + nm + "|" + w.substr(0, w.find(' ')), nm + " list after " + trace + ": " + w + ", expected " + sh(m)); };
		L x = read(l); if (x != m) bad("contents " + sh(x)); if (T::size(l) != (int) m.size() || T::size2(l) != (int) m.size()) bad("size"); int n = m.size();
		for (int k : {-1, n, n + 1}) { E *e = T::at(l, k); noerr(); if (e) { T::free_(e); bad("get_at accepts an index out of range"); } }
		for (int k = 0; k < n; ++k) { E *e = T::at2(l, k); if (take(e) != m[k]) bad("get_el"); }
		L seen; if (T::foreach(l, [](E *e, void *u) { ((L *) u)->push_back(take(e)); return isl_stat_ok; }, &seen) != isl_stat_ok || seen != m) bad("foreach " + sh(seen));
		seen.clear(); isl_stat st = T::foreach(l, [](E *e, void *u) { L &s = *(L *) u; s.push_back(take(e)); return s.size() == 2 ? isl_stat_error : isl_stat_ok; }, &seen); if (st != (n >= 2 ? isl_stat_error : isl_stat_ok) || (int) seen.size() != std::min(n, 2)) bad("foreach does not stop at the error");
		seen.clear(); struct Q { int lim, cnt; } q{1, 0}; isl_bool ev = T::every(l, [](E *e, void *u) { Q *q = (Q *) u; ++q->cnt; return value(e) <= q->lim ? isl_bool_true : isl_bool_false; }, &q); bool all = true; int first = n; for (int k = 0; k < n; ++k) if (m[k] > 1) { all = false; first = std::min(first, k); } if (ev != (isl_bool) all || q.cnt != (all ? n : first + 1)) bad("every");
		isl_bool ee = T::every(l, [](E *, void *) { return isl_bool_error; }, nullptr); if (ee != (n ? isl_bool_error : isl_bool_true)) bad("every does not report an error"); noerr();
	}
	static void seq(const vector<uint64_t> &ops, int cap, int) {
		List *l = T::alloc(cap), *side = nullptr; L m, ms; bool hs = false; string tr = cat("alloc(", cap, ")"); struct G { List *&a, *&b; ~G() { if (a) T::lfree(a); if (b) T::lfree(b); } } g{l, side};
		for (uint64_t o : ops) {
			tr += cat(", ", opname(o)); L before = m; bool ok = model(o, m, ms, hs); if (o == 30) {}
			if (o == 17 && before.empty()) {} List *r = apply(o, l, side); l = r; mc::note_transition();
			if (!ok) { noerr(); mc::note_outcome("rejected"); if (l) fail("list|reject", "accepted " + tr + " on " + sh(before)); if (side) { check(side, ms, tr + " (the copy)"); } mc::note_validated(); return; }
			if (!l) { noerr(); fail("list|fails", tr + " fails on " + sh(before)); }
			if (o == 30) { L x = read(l), a = x, b = before; bool sorted = true; for (size_t k = 1; k < x.size(); ++k) if (x[k - 1] / 2 > x[k] / 2) sorted = false; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); if (!sorted || a != b) fail("list|sort", tr + ": " + sh(x) + " from " + sh(before)); m = x; }
		}
		mc::note_state(mc::hash_mix(mc::hash_str(sh(m)), mc::hash_str(sh(ms)))); mc::note_outcome("completed");
		check(l, m, tr); if (side) check(side, ms, tr + " (the copy)");
	}
	// strongly connected components: every digraph on n elements
	static void scc(int n, uint64_t g) {
		struct D { int n; uint64_t g; vector<L> out; int fail_at; } d{n, g, {}, -1}; L all; for (int k = 0; k < n; ++k) all.push_back(k); List *l = mk(all);
		auto edge = [&](int a, int b) { return a != b && (g >> (a * n + b) & 1); };
		auto fol = [](E *a, E *b, void *u) { D *d = (D *) u; int x = value(a), y = value(b); return x != y && (d->g >> (x * d->n + y) & 1) ? isl_bool_true : isl_bool_false; };
		auto fn = [](List *s, void *u) { D *d = (D *) u; L v = read(s); T::lfree(s); std::sort(v.begin(), v.end()); d->out.push_back(v); return (int) d->out.size() == d->fail_at ? isl_stat_error : isl_stat_ok; };
		isl_stat r = T::scc(l, fol, &d, fn, &d); vector<L> full = d.out; mc::note_transition(); mc::note_validated(); mc::note_state(mc::hash_mix(n, g));
		vector<vector<bool>> reach(n, vector<bool>(n)); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) reach[i][j] = i == j || edge(i, j); for (int k = 0; k < n; ++k) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (reach[i][k] && reach[k][j]) reach[i][j] = true;
		string bad; if (r != isl_stat_ok) bad = "fails"; std::map<int, int> comp; for (size_t c = 0; c < full.size(); ++c) for (int x : full[c]) { if (comp.count(x)) bad = "an element is visited twice"; comp[x] = c; } if ((int) comp.size() != n) bad = "an element is not visited";
		for (int i = 0; i < n && bad.empty(); ++i) for (int j = 0; j < n; ++j) { bool same = reach[i][j] && reach[j][i]; if (same != (comp[i] == comp[j])) bad = "the components are wrong"; if (edge(i, j) && comp[i] < comp[j]) bad = cat(i, " follows ", j, " but is visited first"); }
		if (bad.empty() && full.size() > 1) { d.out.clear(); d.fail_at = 1; isl_stat e = T::scc(l, fol, &d, fn, &d); noerr(); if (e != isl_stat_error || d.out.size() != 1) bad = "does not stop when the callback fails"; }
		T::lfree(l); if (!bad.empty()) { string s; for (auto &c : full) s += sh(c); fail("list|scc", bad + ": " + s); }
	}
};
template <class T> static ListOps ops(const string &n) { return {n, Run<T>::seq, Run<T>::scc}; }
// --- associative arrays -----------------------------------------------------------------------------------------
#define HM(N, K, V, MK, MV, SK, SV, EQV) struct H_##N { typedef isl_##N M; typedef K Key; typedef V Val; static M *alloc(int n) { return isl_##N##_alloc(cx, n); } static M *copy(M *m) { return isl_##N##_copy(m); } static void free_(M *m) { isl_##N##_free(m); } static M *set(M *m, Key *k, Val *v) { return isl_##N##_set(m, k, v); } static M *drop(M *m, Key *k) { return isl_##N##_drop(m, k); } static isl_bool has(M *m, Key *k) { return isl_##N##_has(m, k); } static Val *get(M *m, Key *k) { return isl_##N##_get(m, k); } \
	static int tryget(M *m, Key *k, Val **v) { auto r = isl_##N##_try_get(m, k); *v = r.value; return r.valid; } static isl_stat foreach(M *m, isl_stat (*f)(Key *, Val *, void *), void *u) { return isl_##N##_foreach(m, f, u); } static Key *key(int v) { return MK; } static Val *val(int v) { return MV; } static char *ks(Key *e) { return SK; } static char *vs(Val *e) { return SV; } static Val *vfree(Val *e) { return V##_free(e); } static Key *kfree(Key *e) { return K##_free(e); } static int eq(M *a, M *b) { (void) a; (void) b; return EQV; } static Key *kcopy(Key *e) { return K##_copy(e); } };
HM(id_to_id, isl_id, isl_id, isl_id_alloc(cx, P("k%d", v).c_str(), nullptr), isl_id_alloc(cx, P("v%d", v).c_str(), nullptr), isl_id_to_str(e), isl_id_to_str(e), -2)
HM(id_to_pw_aff, isl_id, isl_pw_aff, isl_id_alloc(cx, P("k%d", v).c_str(), nullptr), isl_pw_aff_read_from_str(cx, P("{ [i] -> [i + %d] }", v).c_str()), isl_id_to_str(e), isl_pw_aff_to_str(e), -2)
HM(id_to_ast_expr, isl_id, isl_ast_expr, isl_id_alloc(cx, P("k%d", v).c_str(), nullptr), isl_ast_expr_from_val(isl_val_int_from_si(cx, v)), isl_id_to_str(e), isl_ast_expr_to_str(e), -2)
HM(map_to_basic_set, isl_map, isl_basic_set, isl_map_read_from_str(cx, P("{ [i] -> [%d] }", v).c_str()), isl_basic_set_read_from_str(cx, P("{ [%d] }", v).c_str()), isl_map_to_str(e), isl_basic_set_to_str(e), -2)
typedef std::map<int, int> MM;
static string sh(const MM &m) { string s = "{"; for (auto &k : m) s += cat(k.first, ":", k.second, " "); return s + "}"; }
template <class T> struct RunH {
	typedef typename T::M M;
	static int dec(char *s, char **(*)(int) = nullptr) { (void) s; return 0; }
	static std::map<string, int> &kn() { static std::map<string, int> m; if (m.empty()) for (int v = 0; v < 48; ++v) { auto *e = T::key(v); char *s = T::ks(e); m[s] = v; free(s); T::kfree(e); } return m; }
	static std::map<string, int> &vn() { static std::map<string, int> m; if (m.empty()) for (int v = 0; v < 48; ++v) { auto *e = T::val(v); char *s = T::vs(e); m[s] = v; free(s); T::vfree(e); } return m; }
	static int vv(typename T::Val *e) { char *s = T::vs(e); int r = vn().count(s) ? vn()[s] : -1; free(s); T::vfree(e); return r; }
	static int kv(typename T::Key *e) { char *s = T::ks(e); int r = kn().count(s) ? kn()[s] : -1; free(s); T::kfree(e); return r; }
	static void check(M *m, const MM &x, int nk, const string &tr) {
		mc::note_validated(); auto bad = [&](const string &w) { fail("hmap|" + w.substr(0, w.find(' ')), tr + ": " + w + ", expected " + sh(x)); };
		for (int k = 0; k < nk; ++k) { auto *key = T::key(k); isl_bool h = T::has(m, key); typename T::Val *v; int valid = T::tryget(m, key, &v); bool in = x.count(k); int got = v ? vv(v) : -9; auto *g = T::get(m, T::kcopy(key)); noerr(); int got2 = g ? vv(g) : -9; T::kfree(key);
			if (h != (isl_bool) in) bad(cat("has of key ", k)); if (valid != (int) in || got != (in ? x.at(k) : -9)) bad(cat("try_get of key ", k, " gives ", valid, ",", got)); if (got2 != (in ? x.at(k) : -9)) bad(cat("get of key ", k, " gives ", got2)); }
		struct D { MM seen; int n; bool dup; } d{{}, 0, false}; isl_stat r = T::foreach(m, [](typename T::Key *k, typename T::Val *v, void *u) { D *d = (D *) u; int a = kv(k), b = vv(v); ++d->n; if (d->seen.count(a)) d->dup = true; d->seen[a] = b; return isl_stat_ok; }, &d); if (r != isl_stat_ok || d.dup || d.seen != x) bad("foreach visits " + sh(d.seen));
		D e{{}, 0, false}; r = T::foreach(m, [](typename T::Key *k, typename T::Val *v, void *u) { kv(k); vv(v); ++((D *) u)->n; return isl_stat_error; }, &e); noerr(); if (r != (x.empty() ? isl_stat_ok : isl_stat_error) || e.n > 1) bad("foreach does not stop at the error");
	}
	// ops: 0..8 set key o/3 to o%3; 9..11 drop; 12 copy; 13 swap with copy; 14 free copy
	static void seq(const vector<uint64_t> &o, int size) {
		M *m = T::alloc(size), *s = nullptr; MM x, xs; string tr = cat("alloc(", size, ")"); struct G { M *&a, *&b; ~G() { if (a) T::free_(a); if (b) T::free_(b); } } g{m, s};
		for (int q : o) { mc::note_transition();
			if (q < 9) { tr += cat(", set ", q / 3, ":", q % 3); m = T::set(m, T::key(q / 3), T::val(q % 3)); x[q / 3] = q % 3; } else if (q < 12) { tr += cat(", drop ", q - 9); m = T::drop(m, T::key(q - 9)); x.erase(q - 9); } else if (q == 12) { tr += ", copy"; if (s) T::free_(s); s = T::copy(m); xs = x; } else if (q == 13) { tr += ", use copy"; if (s) { std::swap(m, s); std::swap(x, xs); } } else { tr += ", free copy"; if (s) T::free_(s); s = nullptr; }
			if (!m) { noerr(); fail("hmap|fails", tr + " fails"); } }
		mc::note_state(mc::hash_mix(mc::hash_str(sh(x)), mc::hash_str(sh(xs)))); check(m, x, 4, tr); if (s) check(s, xs, 4, tr + " (the copy)");
	}
	// growth: insert n keys in stride order, replace every third, drop every second, insert again
	static void grow(int n, int stride, int size) {
		M *m = T::alloc(size); MM x; string tr = cat(n, " keys, stride ", stride, ", size ", size); struct G { M *&a; ~G() { if (a) T::free_(a); } } g{m};
		auto set = [&](int k, int v) { m = T::set(m, T::key(k), T::val(v)); x[k] = v; mc::note_transition(); };
		for (int k = 0; k < n; ++k) set(k * stride % n, k % 5); check(m, x, n + 1, tr); M *c = T::copy(m); MM xc = x; struct G2 { M *a; ~G2() { T::free_(a); } } g2{c};
		for (int k = 0; k < n; k += 3) set(k, 7); for (int k = 0; k < n; k += 2) { m = T::drop(m, T::key(k)); x.erase(k); mc::note_transition(); } check(m, x, n + 1, tr + " after dropping"); check(c, xc, n + 1, tr + " (the copy)");
		for (int k = n - 1; k >= 0; --k) set(k, k % 3); check(m, x, n + 1, tr + " after inserting again"); mc::note_state(mc::hash_mix(n * 64 + stride, size));
	}
};
// --- identifiers --------------------------------------------------------------------------------------------------
static int freed[4]; static int dummy[4];
static void f0(void *u) { for (int k = 0; k < 4; ++k) if (u == &dummy[k]) ++freed[k]; }
static void idseq(const vector<uint64_t> &o) {
	// kinds: name x user: 0 ("a", u0) 1 ("a", u1) 2 (null, u0) 3 ("b", null)
	isl_ctx *c = isl_ctx_alloc(); isl_options_set_on_error(c, ISL_ON_ERROR_CONTINUE); memset(freed, 0, sizeof freed); struct R { isl_id *p; int kind; }; vector<R> refs; struct Kd { int n = 0; bool cb = false; isl_id *p = nullptr; int calls = 0; } kd[4]; string tr, bad; isl_space *held = nullptr; int heldk = -1;
	static const char *nm[] = {"a", "a", nullptr, "b"}; static void *us[] = {&dummy[0], &dummy[1], &dummy[2], nullptr};
	auto drop = [&](int k) { if (--kd[k].n == 0) { if (kd[k].cb && us[k]) ++kd[k].calls; kd[k].cb = false; kd[k].p = nullptr; } };
	for (int q : o) { if (!bad.empty()) break; mc::note_transition();
		if (q < 4) { tr += cat(", alloc ", q); isl_id *p = isl_id_alloc(c, nm[q], us[q]); for (int k = 0; k < 4; ++k) if (kd[k].p && (kd[k].p == p) != (k == q)) bad = "identity"; if (kd[q].n == 0) kd[q].p = p; ++kd[q].n; refs.push_back({p, q}); }
		else if (q == 4) { tr += ", copy last"; if (!refs.empty()) { R r = refs.back(); isl_id *p = isl_id_copy(r.p); if (p != r.p) bad = "copy"; ++kd[r.kind].n; refs.push_back(r); } }
		else if (q == 5) { tr += ", free first"; if (!refs.empty()) { R r = refs.front(); refs.erase(refs.begin()); drop(r.kind); if (isl_id_free(r.p)) bad = "free"; } }
		else if (q == 6) { tr += ", free last"; if (!refs.empty()) { R r = refs.back(); refs.pop_back(); drop(r.kind); isl_id_free(r.p); } }
		else if (q == 7) { tr += ", set_free_user last"; if (!refs.empty()) { R &r = refs.back(); r.p = isl_id_set_free_user(r.p, f0); kd[r.kind].cb = true; if (isl_id_get_free_user(r.p) != f0) bad = "get_free_user"; } }
		else if (q == 8) { tr += ", hold in a space"; if (!refs.empty()) { R r = refs.back(); if (!held) { held = isl_space_set_tuple_id(isl_space_set_alloc(c, 0, 1), isl_dim_set, isl_id_copy(r.p)); heldk = r.kind; ++kd[r.kind].n; } else { isl_space *h = isl_space_set_tuple_id(isl_space_copy(held), isl_dim_set, isl_id_copy(r.p)); isl_space_free(h); } } }
		else { tr += ", release the space"; if (held) { isl_space_free(held); held = nullptr; drop(heldk); } }
		for (int k = 0; k < 3; ++k) if (freed[k] != kd[k].calls) bad = cat("the callback of identifier ", k, " ran ", freed[k], " times, expected ", kd[k].calls);
		for (auto &r : refs) { const char *n = isl_id_get_name(r.p); if ((n && nm[r.kind]) ? strcmp(n, nm[r.kind]) : n != nm[r.kind]) bad = "name"; if (isl_id_get_user(r.p) != us[r.kind]) bad = "user"; if ((isl_id_get_free_user(r.p) == f0) != kd[r.kind].cb) bad = "get_free_user"; }
		for (auto &r : refs) for (auto &s : refs) if (r.kind == s.kind && (r.p != s.p || isl_id_get_hash(r.p) != isl_id_get_hash(s.p))) bad = "equal identifiers differ";
	}
	for (auto &r : refs) { drop(r.kind); isl_id_free(r.p); } if (held) { isl_space_free(held); drop(heldk); } for (int k = 0; k < 3; ++k) if (bad.empty() && freed[k] != kd[k].calls) bad = cat("after releasing everything the callback of ", k, " ran ", freed[k], " times, expected ", kd[k].calls);
	mc::note_validated(); mc::note_state(mc::hash_str(tr)); isl_ctx_free(c); if (!bad.empty()) fail("id", tr + ": " + bad);
}
int main(int argc, char **argv) {
	mc::Harness h; h.property = "C27"; bool th = tier_thorough(argc, argv);
	h.setup = []() { cx = isl_ctx_alloc(); isl_options_set_on_error(cx, ISL_ON_ERROR_CONTINUE); mc::take_error(); }; h.teardown = []() { noerr(); isl_ctx_free(cx); };
	auto add = [&](const string &n, mc::Radix r, std::function<void(const vector<uint64_t> &)> f, std::function<string(const vector<uint64_t> &)> d) { h.add(mc::SpaceDef(n, r.size(), [=](uint64_t i) { f(r.at(i)); }, [=](uint64_t i) { return n + " " + d(r.at(i)); })); };
	vector<ListOps> ls{ops<T_val>("val"), ops<T_id>("id"), ops<T_basic_set>("basic_set"), ops<T_set>("set"), ops<T_basic_map>("basic_map"), ops<T_map>("map"), ops<T_union_set>("union_set"), ops<T_union_map>("union_map"), ops<T_aff>("aff"), ops<T_pw_aff>("pw_aff"), ops<T_pw_multi_aff>("pw_multi_aff"), ops<T_union_pw_aff>("union_pw_aff"), ops<T_union_pw_multi_aff>("union_pw_multi_aff"), ops<T_ast_expr>("ast_expr"), ops<T_ast_node>("ast_node"), ops<T_constraint>("constraint"), ops<T_qpolynomial>("qpolynomial"), ops<T_pw_qpolynomial>("pw_qpolynomial"), ops<T_pw_qpolynomial_fold>("pw_qpolynomial_fold")};
	auto show = [](const vector<uint64_t> &i) { string s = cat("alloc(", i[0], ")"); for (size_t k = 1; k < i.size(); ++k) s += string(", ") + opname(i[k]); return s; };
	static const int caps[] = {0, 3};
	for (size_t q = 0; q < ls.size(); ++q) { int depth = q == 0 ? (th ? 5 : 4) : q == 1 ? (th ? 4 : 3) : th ? 3 : 2; vector<uint64_t> r{q < 2 ? 2ull : 1ull}; for (int d = 0; d < depth; ++d) r.push_back(NOP); mc::Radix rx{1}; rx = mc::Radix(r); ListOps o = ls[q];
		add(o.name + "_list", rx, [o](const vector<uint64_t> &i) { o.seq(vector<uint64_t>(i.begin() + 1, i.end()), caps[i[0]], 0); }, show); }
	// from a non-trivial start: (0 1 2) and two operations, for every type
	for (size_t q = 1; q < ls.size(); ++q) { ListOps o = ls[q]; add(o.name + "_list from (0 1 2)", mc::Radix({(uint64_t) NOP, (uint64_t) NOP}), [o](const vector<uint64_t> &i) { o.seq({0, 1, 2, i[0], i[1]}, 1, 0); }, [](const vector<uint64_t> &i) { string s = opname(i[0]); return s + ", " + opname(i[1]); }); }
	for (size_t q = 0; q < ls.size(); ++q) { ListOps o = ls[q]; for (int n = 0; n <= (q == 0 ? 4 : 3); ++n) add(o.name + cat("_list scc ", n), {1ull << (n * n)}, [o, n](const vector<uint64_t> &i) { for (int k = 0; k < n; ++k) if (i[0] >> (k * n + k) & 1) return; o.scc(n, i[0]); }, [](const vector<uint64_t> &i) { return cat("digraph ", i[0]); }); }
	if (th) { ListOps o = ls[0]; add("val_list scc 5", {1ull << 20}, [o](const vector<uint64_t> &i) { uint64_t g = 0; int b = 0; for (int a = 0; a < 5; ++a) for (int c = 0; c < 5; ++c) if (a != c) { if (i[0] >> b & 1) g |= 1ull << (a * 5 + c); ++b; } o.scc(5, g); }, [](const vector<uint64_t> &i) { return cat("digraph ", i[0]); }); }
	h.bounds["lists"] = cat(ls.size(), " list types, every sequence of ", NOP, " operations (val: depth ", th ? 5 : 4, ", id: ", th ? 4 : 3, ", others: ", th ? 3 : 2, ", and depth 2 from a list of three), every digraph on up to ", th ? 5 : 4, " elements");
	auto hm = [&](const string &n, auto run, auto grow, int depth) { vector<uint64_t> r{2}; for (int d = 0; d < depth; ++d) r.push_back(15); add(n, mc::Radix(r), [run](const vector<uint64_t> &i) { run(vector<uint64_t>(i.begin() + 1, i.end()), i[0] ? 5 : 0); }, [](const vector<uint64_t> &i) { string s; for (auto x : i) s += cat(x, " "); return s; });
		add(n + " growth", {40, 7, 3}, [grow](const vector<uint64_t> &i) { static const int st[] = {1, 3, 7, 11, 13, 17, 19}; if (std::__gcd((int) i[0] + 1, st[i[1]]) != 1) return; grow(i[0] + 1, st[i[1]], i[2] * i[2] * 5); }, [](const vector<uint64_t> &i) { return cat(i[0] + 1, " keys"); }); };
	hm("id_to_id", RunH<H_id_to_id>::seq, RunH<H_id_to_id>::grow, th ? 5 : 4); hm("id_to_pw_aff", RunH<H_id_to_pw_aff>::seq, RunH<H_id_to_pw_aff>::grow, 3); hm("id_to_ast_expr", RunH<H_id_to_ast_expr>::seq, RunH<H_id_to_ast_expr>::grow, 3); hm("map_to_basic_set", RunH<H_map_to_basic_set>::seq, RunH<H_map_to_basic_set>::grow, 3);
	h.bounds["associative arrays"] = cat("4 types, every sequence of 15 operations on 3 keys x 3 values (id_to_id: depth ", th ? 5 : 4, ", others 3), and growth to 40 keys in several orders");
	{ vector<uint64_t> r; for (int d = 0; d < (th ? 6 : 5); ++d) r.push_back(10); add("ids", mc::Radix(r), [](const vector<uint64_t> &i) { idseq(i); }, [](const vector<uint64_t> &i) { string s; for (auto x : i) s += cat(x, " "); return s; }); h.bounds["identifiers"] = cat("every sequence of 10 operations on 4 identifiers, depth ", r.size()); }
	return mc::run(argc, argv, h);
}
