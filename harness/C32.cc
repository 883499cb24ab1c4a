// C32: plain equality, comparison and hash functions.  For each type, a list of objects containing many different representations
// of the same values is enumerated; every pair and every triple is checked, against values computed by the model.
#include "common.hpp"
#include "poly.hpp"
#include <isl/union_map.h>
#include <isl/union_set.h>
#include <isl/constraint.h>
#include <isl/multi.h>
#include <isl/mat.h>
#include <isl/vec.h>
#include <isl/ast.h>
#include <isl/ast_build.h>
#include <isl/schedule.h>
#include <isl/schedule_node.h>
static bool g_th;
struct Obj { void *p; int recipe; };
struct Type {
	string name; vector<string> text; int nvar;    // number of ways to build each text
	std::function<void *(const string &, int)> make; std::function<void *(void *)> copy; std::function<void(void *)> fr;
	std::function<int(void *, void *)> eq; std::function<int(void *, void *)> cmp; std::function<uint32_t(void *)> hash; std::function<string(void *)> sig; bool nan_unequal = false, cmp_value = true, eq_cmp = true, forms_hash = false;
	std::function<string(void *)> dump; std::function<vector<void *>(vector<void *>)> sort;
};
template <class F> static string grid(int n, F f) { string s; vector<I> x(n, -1); for (;;) { s += f(x.data()); int k = 0; while (k < n && ++x[k] > 2) x[k++] = -1; if (k == n) return s; } }
static string spc(isl_space *sp) { for (auto ty : {isl_dim_in, isl_dim_out}) if (!isl_space_is_params(sp) && (ty == isl_dim_out || isl_space_is_map(sp))) for (int k = 0; k < isl_space_dim(sp, ty); ++k) sp = isl_space_set_dim_name(sp, ty, k, cat(ty == isl_dim_in ? "x" : "y", k).c_str()); char *t = isl_space_to_str(sp); string s = t; free(t); isl_space_free(sp); return s + " "; }
static string sig_map(isl_map *m) { string s = spc(isl_map_get_space(m)); Pts p = read_map(m); return s + grid(p.np + p.ni + p.no, [&](const I *x) { return contains(p, x) ? "1" : "0"; }); }
static string sig_set(isl_set *m) { string s = spc(isl_set_get_space(m)); Pts p = read_set(m); return s + grid(p.np + p.ni + p.no, [&](const I *x) { return contains(p, x) ? "1" : "0"; }); }
static string sig_pa(isl_pw_aff *a) { string s = spc(isl_pw_aff_get_space(a)); if (isl_pw_aff_involves_nan(a)) return s + "nan"; PwAff p = read_pw_aff(a); int n = isl_pw_aff_dim(a, isl_dim_param) + isl_pw_aff_dim(a, isl_dim_in); return s + grid(n, [&](const I *x) { Rat r; int k = eval(p, x, r); return k ? r.s() + "," : string("-,"); }); }
static string sig_pma(isl_pw_multi_aff *a) { string s = spc(isl_pw_multi_aff_get_space(a)); if (isl_pw_multi_aff_involves_nan(a)) return s + "nan"; PMA p = read_pma(a); int n = isl_pw_multi_aff_dim(a, isl_dim_param) + isl_pw_multi_aff_dim(a, isl_dim_in); return s + grid(n, [&](const I *x) { vector<Rat> r; int k = eval(p, x, r); string o = k ? "(" : "-"; if (k) for (auto &q : r) o += q.s() + ","; return o; }); }
static string sig_pq(isl_pw_qpolynomial *q) { string s = spc(isl_pw_qpolynomial_get_space(q)); poly::PwPoly p = poly::read(q); int n = isl_pw_qpolynomial_dim(q, isl_dim_param) + isl_pw_qpolynomial_dim(q, isl_dim_in); return s + grid(n, [&](const I *x) { return poly::eval(p, x).s() + ","; }); }
#define AS(T, p) ((isl_##T *) (p))
#define TXT(o, T) { char *c_ = isl_##T##_to_str(AS(T, o)); string r_ = c_ ? c_ : "?"; free(c_); return r_; }
#define BASIC(T) t.name = #T; t.make = [](const string &s, int) -> void * { return isl_##T##_read_from_str(ctx, s.c_str()); }; t.copy = [](void *p) -> void * { return isl_##T##_copy(AS(T, p)); }; t.fr = [](void *p) { isl_##T##_free(AS(T, p)); }; t.dump = [](void *p) -> string { TXT(p, T) }; t.nvar = 1
#define EQ(T, fn) t.eq = [](void *a, void *b) -> int { return isl_##T##_##fn(AS(T, a), AS(T, b)); }
#define CMP(T, fn) t.cmp = [](void *a, void *b) -> int { return isl_##T##_##fn(AS(T, a), AS(T, b)); }
#define HASH(T) t.hash = [](void *a) -> uint32_t { return isl_##T##_get_hash(AS(T, a)); }
#define SORT(T, fn) t.sort = [](vector<void *> v) { isl_##T##_list *l = isl_##T##_list_alloc(ctx, v.size()); for (auto *p : v) l = isl_##T##_list_add(l, AS(T, p)); l = isl_##T##_list_sort(l, [](isl_##T *a, isl_##T *b, void *) -> int { return isl_##T##_##fn(a, b); }, nullptr); vector<void *> r; for (int k = 0; k < isl_##T##_list_n_##T(l); ++k) r.push_back(isl_##T##_list_get_##T(l, k)); isl_##T##_list_free(l); return r; }
static vector<string> cross(const vector<string> &pre, const vector<string> &body) { vector<string> r; for (auto &p : pre) for (auto &b : body) { string s = p; size_t k; while ((k = s.find('%')) != string::npos) s.replace(k, 1, b); r.push_back(s); } return r; }
static vector<string> operator+(vector<string> a, const vector<string> &b) { a.insert(a.end(), b.begin(), b.end()); return a; }
static vector<Type> types() {
	vector<Type> T; static const vector<string> C1 = {"i >= 0", "i >= 0 and i <= 1", "i <= 1 and i >= 0", "0 <= i < 2", "i = 0 or i = 1", "i = 1 or i = 0", "i mod 2 = 0", "exists (e : i = 2e)", "exists (e : 2e >= i and 2e <= i)", "2i >= 1", "i >= 1", "1 = 0", "i > 0 and i < 0", "1 = 1", "i >= 0 or i < 0", "i = 2*floor(i/2)", "i <= n", "n >= i and i >= n", "i = n", "exists (e = floor((i + n)/3) : 3e = i)", "i >= n or i <= n - 1", "i >= 5000000000000000000000", "floor(i/2) >= floor(n/2)", "i >= 0 and i >= -1"};
	static const vector<string> F1 = {"i", "i + 0", "2i - i", "n", "n + i", "i + n", "floor(i/2)", "(2*floor(i/2))/2", "i - (i mod 2)", "2*floor(i/2)", "floor((i + 1)/2)", "-floor((-i)/2)", "(i)/2", "(2i)/4", "0", "1", "(1)/2", "-i", "i + 5000000000000000000000", "floor((i + n)/3)", "floor((n + i)/3)", "floor(floor(i/2)/2)", "floor(i/4)"};
	{ Type t; BASIC(set); EQ(set, plain_is_equal); CMP(set, plain_cmp); HASH(set); SORT(set, plain_cmp); t.eq_cmp = false; t.sig = [](void *p) { return sig_set(AS(set, p)); }; t.nvar = 5; t.make = [](const string &s, int v) -> void * { isl_set *x = isl_set_read_from_str(ctx, s.c_str()); switch (v) { case 1: return isl_set_coalesce(x); case 2: return isl_set_compute_divs(x); case 3: return isl_set_complement(isl_set_complement(x)); case 4: { isl_set *y = isl_set_copy(x); return isl_set_union(y, x); } } return x; }; t.text = cross({"[n] -> { A[i] : % }"}, C1) + cross({"[n, m] -> { A[i] : % }", "[n] -> { [i, j] : % }", "[n] -> { B[i, j] : % }"}, {"i >= 0", "i = n", "1 = 1", "1 = 0", "i mod 2 = 0"}) + vector<string>{"[m] -> { A[i] : i >= 0 }", "{ A[i] : i >= 0 }", "{ A[B[i] -> C[j]] : i >= 0 }", "{ A[] }", "{ A[] : 1 = 0 }", "{ : }", "[n] -> { : n >= 0 }", "{ A[i, j] : i < j }", "{ A[i, j] : j > i }", "{ A[i, j] : i <= j - 1 or j < i }"}; T.push_back(t); }
	{ Type t; BASIC(map); EQ(map, plain_is_equal); HASH(map); t.sig = [](void *p) { return sig_map(AS(map, p)); }; t.nvar = 5; t.make = [](const string &s, int v) -> void * { isl_map *x = isl_map_read_from_str(ctx, s.c_str()); switch (v) { case 1: return isl_map_coalesce(x); case 2: return isl_map_reverse(isl_map_reverse(x)); case 3: return isl_map_make_disjoint(x); case 4: { isl_set *d = isl_map_domain(isl_map_copy(x)); return isl_map_intersect_domain(x, d); } } return x; }; t.text = cross({"[n] -> { A[i] -> B[j] : % }", "[n] -> { [i] -> [j] : j = i + 1 and (%) }"}, C1) + vector<string>{"{ A[i] -> B[j] : 1 = 0 }", "{ A[i] -> B[i] }", "{ A[i] -> B[j] : i = j }", "{ A[i] -> B[j] : j = i or j = i + 1 }", "{ A[i] -> B[j] : i <= j <= i + 1 }", "{ [A[i] -> B[j]] -> C[] }"}; T.push_back(t); }
	{ Type t; BASIC(basic_set); EQ(basic_set, plain_is_equal); t.sig = [](void *p) { isl_set *s = isl_set_from_basic_set(isl_basic_set_copy(AS(basic_set, p))); string r; try { r = sig_set(s); } catch (...) { isl_set_free(s); throw; } isl_set_free(s); return r; }; t.nvar = 3; t.make = [](const string &s, int v) -> void * { isl_basic_set *x = isl_basic_set_read_from_str(ctx, s.c_str()); switch (v) { case 1: return isl_basic_set_remove_redundancies(x); case 2: return isl_basic_set_detect_equalities(x); } return x; }; for (auto &c : C1) if (c.find(" or ") == string::npos) t.text.push_back("[n] -> { A[i] : " + c + " }"); t.text.push_back("{ A[i] : i >= 0 }"); t.text.push_back("[n] -> { B[i, j] : i >= j }"); T.push_back(t); }
	{ Type t; BASIC(union_set); EQ(union_set, is_equal); HASH(union_set); t.sig = [](void *p) { vector<string> v; isl_set_list *l = isl_union_set_get_set_list(AS(union_set, p)); bool ov = false; for (int k = 0; k < isl_set_list_n_set(l); ++k) { isl_set *s = isl_set_list_get_set(l, k); try { if (!isl_set_is_empty(s)) v.push_back(sig_set(s)); } catch (Overflow &) { ov = true; } isl_set_free(s); } isl_set_list_free(l); if (ov) throw Overflow(); std::sort(v.begin(), v.end()); string r; for (auto &x : v) r += x + ";"; return r; }; t.text = {"[n] -> { A[i] : i >= 0; B[i] : i <= n }", "[n] -> { B[i] : i <= n; A[i] : i >= 0 }", "{ }", "[n] -> { A[i] : 1 = 0 }", "{ A[i] : i >= 0; B[i, j]; C[] }", "{ C[]; B[i, j]; A[i] : i >= 0 }", "{ A[i] : i >= 0; A[i] : i < 0 }", "{ A[i] }", "{ A[i]; A[i, j] }"}; t.hash = nullptr; T.push_back(t); t.name = "union_set hash"; t.nvar = 3; t.make = [](const string &s, int v) -> void * { isl_union_set *x = isl_union_set_read_from_str(ctx, s.c_str()); if (v) { isl_union_set *r = isl_union_set_empty(isl_union_set_get_space(x)); isl_set_list *l = isl_union_set_get_set_list(x); int n = isl_set_list_n_set(l); for (int k = 0; k < n; ++k) r = isl_union_set_union(isl_union_set_from_set(isl_set_list_get_set(l, v == 1 ? n - 1 - k : k)), r); isl_set_list_free(l); isl_union_set_free(x); return r; } return x; }; t.eq = nullptr; t.forms_hash = true; t.hash = [](void *a) -> uint32_t { return isl_union_set_get_hash(AS(union_set, a)); }; T.push_back(t); }
	{ Type t; BASIC(aff); EQ(aff, plain_is_equal); HASH(aff); t.nan_unequal = true; t.sig = [](void *p) { isl_pw_aff *a = isl_pw_aff_from_aff(isl_aff_copy(AS(aff, p))); string r; try { r = sig_pa(a); } catch (...) { isl_pw_aff_free(a); throw; } isl_pw_aff_free(a); return r; }; t.nvar = 3; t.make = [](const string &s, int v) -> void * { isl_aff *x = isl_aff_read_from_str(ctx, s.c_str()); switch (v) { case 1: return isl_aff_neg(isl_aff_neg(x)); case 2: { isl_aff *y = isl_aff_copy(x); return isl_aff_scale_down_ui(isl_aff_add(y, x), 2); } } return x; }; t.text = cross({"[n] -> { A[i] -> [(%)] }"}, F1) + vector<string>{"{ A[i] -> [(i)] }", "[n] -> { [i, j] -> [(i)] }", "[n] -> { [i, j] -> [(j)] }", "{ A[i] -> [(NaN)] }", "[n] -> { [(n)] }"}; T.push_back(t); }
	{ Type t; BASIC(pw_aff); EQ(pw_aff, plain_is_equal); CMP(pw_aff, plain_cmp); HASH(pw_aff); SORT(pw_aff, plain_cmp); t.eq_cmp = false; t.nan_unequal = true; t.sig = [](void *p) { return sig_pa(AS(pw_aff, p)); }; t.nvar = 4; t.make = [](const string &s, int v) -> void * { isl_pw_aff *x = isl_pw_aff_read_from_str(ctx, s.c_str()); switch (v) { case 1: return isl_pw_aff_coalesce(x); case 2: return isl_pw_aff_neg(isl_pw_aff_neg(x)); case 3: { isl_set *d = isl_pw_aff_domain(isl_pw_aff_copy(x)); return isl_pw_aff_intersect_domain(x, d); } } return x; }; t.text = cross({"[n] -> { A[i] -> [(%)] }", "[n] -> { A[i] -> [(%)] : i >= 0 }", "[n] -> { A[i] -> [(%)] : i > 0; A[i] -> [(3)] : i <= 0 }"}, F1) + vector<string>{"[n] -> { A[i] -> [(3)] : i <= 0; A[i] -> [(i)] : i > 0 }", "[n] -> { A[i] -> [(i)] : 1 = 0 }", "{ A[i] -> [(i)] }", "{ [i, j] -> [(i)] }", "{ A[i] -> [(NaN)] }", "[n] -> { [(n)] }"}; T.push_back(t); }
	{ Type t; BASIC(multi_aff); EQ(multi_aff, plain_is_equal); CMP(multi_aff, plain_cmp); t.nan_unequal = true; t.sig = [](void *p) { isl_pw_multi_aff *a = isl_pw_multi_aff_from_multi_aff(isl_multi_aff_copy(AS(multi_aff, p))); string r; try { r = sig_pma(a); } catch (...) { isl_pw_multi_aff_free(a); throw; } isl_pw_multi_aff_free(a); return r; }; t.text = cross({"[n] -> { A[i] -> [(%)] }", "[n] -> { A[i] -> B[(%), (i)] }", "[n] -> { A[i] -> B[(i), (%)] }"}, F1) + vector<string>{"{ A[i] -> B[] }", "{ A[] -> B[] }", "[n] -> { [n] }", "{ A[i] -> B[(NaN)] }"}; T.push_back(t); }
	{ Type t; BASIC(pw_multi_aff); EQ(pw_multi_aff, plain_is_equal); t.nan_unequal = true; t.sig = [](void *p) { return sig_pma(AS(pw_multi_aff, p)); }; t.nvar = 3; t.make = [](const string &s, int v) -> void * { isl_pw_multi_aff *x = isl_pw_multi_aff_read_from_str(ctx, s.c_str()); switch (v) { case 1: return isl_pw_multi_aff_coalesce(x); case 2: { isl_pw_multi_aff *y = isl_pw_multi_aff_intersect_domain(isl_pw_multi_aff_copy(x), isl_set_read_from_str(ctx, "{ A[i] : i >= 0 }")); x = isl_pw_multi_aff_intersect_domain(x, isl_set_read_from_str(ctx, "{ A[i] : i < 0 }")); return isl_pw_multi_aff_union_add(y, x); } } return x; }; t.text = cross({"[n] -> { A[i] -> [(%)] }", "[n] -> { A[i] -> B[(%), (i)] : i >= 0; A[i] -> B[(0), (n)] : i < 0 }", "[n] -> { A[i] -> B[(0), (n)] : i < 0; A[i] -> B[(%), (i)] : i >= 0 }"}, F1); T.push_back(t); }
	{ Type t; BASIC(multi_pw_aff); EQ(multi_pw_aff, plain_is_equal); HASH(multi_pw_aff); t.nan_unequal = true; t.sig = [](void *p) { string s = spc(isl_multi_pw_aff_get_space(AS(multi_pw_aff, p))); int n = isl_multi_pw_aff_size(AS(multi_pw_aff, p)); bool ov = false; for (int k = 0; k < n; ++k) { isl_pw_aff *a = isl_multi_pw_aff_get_at(AS(multi_pw_aff, p), k); try { s += sig_pa(a); } catch (Overflow &) { ov = true; } isl_pw_aff_free(a); } if (ov) throw Overflow(); isl_set *d = isl_multi_pw_aff_domain(isl_multi_pw_aff_copy(AS(multi_pw_aff, p))); if (n == 0) try { s += sig_set(d); } catch (Overflow &) { ov = true; } isl_set_free(d); if (ov) throw Overflow(); return s; }; t.text = cross({"[n] -> { A[i] -> [((%) : i >= 0)] }", "[n] -> { A[i] -> B[(%), ((i) : i > n)] }"}, F1) + vector<string>{"{ A[i] -> B[] : i >= 0 }", "{ A[i] -> B[] }", "[n] -> { A[i] -> B[] : n >= i }", "[n] -> { A[i] -> B[] : i >= 0 }", "{ A[i] -> B[] : 0 <= i }"}; T.push_back(t); }
	{ Type t; BASIC(multi_val); EQ(multi_val, plain_is_equal); t.sig = [](void *p) -> string { TXT(p, multi_val) }; t.text = {"{ A[1, 2] }", "{ A[2, 1] }", "{ [1, 2] }", "{ A[1] }", "{ A[] }", "{ A[infty, 1] }", "{ A[-infty, 1] }", "{ A[1/2, 1] }", "{ A[2/4, 1] }", "{ A[NaN, 1] }", "[n] -> { A[1, 2] }"}; t.nan_unequal = true; T.push_back(t); }
	{ Type t; BASIC(multi_id); EQ(multi_id, plain_is_equal); t.sig = [](void *p) -> string { TXT(p, multi_id) }; t.text = {"{ A[a, b] }", "{ A[b, a] }", "{ [a, b] }", "{ A[a] }", "{ A[] }", "[n] -> { A[a, b] }"}; T.push_back(t); }
	{ Type t; BASIC(multi_union_pw_aff); EQ(multi_union_pw_aff, plain_is_equal); t.sig = [](void *p) -> string { TXT(p, multi_union_pw_aff) }; t.cmp_value = false; t.text = {"[{ A[i] -> [(i)]; B[i] -> [(0)] }]", "[{ B[i] -> [(0)]; A[i] -> [(i)] }]", "[{ A[i] -> [(i)] }]", "R[{ A[i] -> [(i)] }]", "R[{ A[i] -> [(i)] }, { A[i] -> [(0)] }]", "R[{ A[i] -> [(0)] }, { A[i] -> [(i)] }]", "(R[] : { A[i] : i >= 0 })", "(R[] : { A[i] : 0 <= i })", "(R[] : { A[i] })"}; T.push_back(t); }
	{ Type t; BASIC(val); EQ(val, eq); HASH(val); t.sig = [](void *p) -> string { TXT(p, val) }; t.nan_unequal = true; t.cmp = nullptr; t.text = {"0", "1", "-1", "1/2", "2/4", "-3/6", "7", "14/2", "infty", "-infty", "NaN", "12345678901234567890123", "24691357802469135780246/2", "-12345678901234567890123", "1/12345678901234567890123", "4294967296", "8589934592/2", "0/5"}; t.nvar = 3; t.make = [](const string &s, int v) -> void * { isl_val *x = isl_val_read_from_str(ctx, s.c_str()); switch (v) { case 1: return isl_val_neg(isl_val_neg(x)); case 2: return isl_val_sub(isl_val_add(x, isl_val_read_from_str(ctx, "1/3")), isl_val_read_from_str(ctx, "1/3")); } return x; }; T.push_back(t); }
	{ Type t; BASIC(id); t.eq = [](void *a, void *b) -> int { return a == b; }; HASH(id); t.sig = [](void *p) -> string { TXT(p, id) }; t.text = {"a", "b", "ab", "ba", "a1", "A"}; T.push_back(t); }
	{ Type t; BASIC(space); EQ(space, is_equal); t.sig = [](void *p) { return spc(isl_space_copy(AS(space, p))); }; t.text = {"{ A[i] }", "{ A[j] }", "{ B[i] }", "{ A[i, j] }", "{ [i] }", "[n] -> { A[i] }", "[m] -> { A[i] }", "[n, m] -> { A[i] }", "[m, n] -> { A[i] }", "{ A[i] -> B[j] }", "{ B[i] -> A[j] }", "{ [A[i] -> B[j]] }", "{ C[A[i] -> B[j]] }", "[n] -> { : }", "{ : }", "{ [] }", "{ [] -> [] }", "{ [[] -> A[]] -> B[] }"}; t.sig = nullptr; T.push_back(t); }
	{ Type t; BASIC(pw_qpolynomial); EQ(pw_qpolynomial, plain_is_equal); t.nan_unequal = true; t.sig = [](void *p) { return sig_pq(AS(pw_qpolynomial, p)); }; t.nvar = 3; t.make = [](const string &s, int v) -> void * { isl_pw_qpolynomial *x = isl_pw_qpolynomial_read_from_str(ctx, s.c_str()); switch (v) { case 1: return isl_pw_qpolynomial_neg(isl_pw_qpolynomial_neg(x)); case 2: return isl_pw_qpolynomial_coalesce(x); } return x; }; static const vector<string> Q = {"i", "i * n", "n * i", "i^2", "i * i", "(i + 1) * (i - 1)", "i^2 - 1", "-1 + i^2", "1/2 * i", "floor((i)/2)", "1/2 * i^2 + 1/2 * i", "i * floor((i)/2)", "floor((i)/2) * i", "0", "1", "n", "infty", "-infty"}; t.text = cross({"[n] -> { A[i] -> % }", "[n] -> { A[i] -> % : i >= 0 }", "[n] -> { A[i] -> % : i >= 0; A[i] -> 7 : i < 0 }", "[n] -> { A[i] -> 7 : i < 0; A[i] -> % : i >= 0 }"}, Q); T.push_back(t); }
	{ Type t; t.name = "vec"; t.nvar = 1; t.copy = [](void *p) -> void * { return isl_vec_copy(AS(vec, p)); }; t.fr = [](void *p) { isl_vec_free(AS(vec, p)); }; t.make = [](const string &s, int) -> void * { int n = s.size(); isl_vec *v = isl_vec_alloc(ctx, n); for (int k = 0; k < n; ++k) v = isl_vec_set_element_si(v, k, s[k] - '5'); return v; }; t.eq = [](void *a, void *b) -> int { return isl_vec_is_equal(AS(vec, a), AS(vec, b)); }; t.dump = [](void *p) { string s; for (int k = 0; k < isl_vec_size(AS(vec, p)); ++k) { isl_val *v = isl_vec_get_element_val(AS(vec, p), k); s += cat(isl_val_get_num_si(v), ","); isl_val_free(v); } return s; }; t.sig = t.dump; for (int a = 4; a < 7; ++a) { t.text.push_back(cat(a)); for (int b = 4; b < 7; ++b) { t.text.push_back(cat(a, b)); for (int c = 4; c < 7; ++c) t.text.push_back(cat(a, b, c)); } } t.text.push_back(""); T.push_back(t); t.name = "vec element"; t.text.clear(); for (int a = 4; a < 7; ++a) for (int b = 4; b < 7; ++b) t.text.push_back(cat(b, a)); t.eq = nullptr; t.sig = [](void *p) { isl_val *v = isl_vec_get_element_val(AS(vec, p), 1); string s = cat(isl_val_get_num_si(v)); isl_val_free(v); return s; }; t.cmp = [](void *a, void *b) -> int { return isl_vec_cmp_element(AS(vec, a), AS(vec, b), 1); }; T.push_back(t); }
	{ Type t; t.name = "constraint"; t.nvar = 2; t.copy = [](void *p) -> void * { return isl_constraint_copy(AS(constraint, p)); }; t.fr = [](void *p) { isl_constraint_free(AS(constraint, p)); }; EQ(constraint, is_equal); CMP(constraint, plain_cmp); t.cmp_value = false; SORT(constraint, plain_cmp); t.dump = [](void *p) { isl_printer *q = isl_printer_to_str(ctx); q = isl_printer_print_constraint(q, AS(constraint, p)); char *c = isl_printer_get_str(q); string s = c; free(c); isl_printer_free(q); return s; };
		t.make = [](const string &s, int v) -> void * { isl_space *sp = isl_space_set_alloc(ctx, 1, 2); isl_local_space *ls = isl_local_space_from_space(sp); if (s[4] == 'd') { isl_aff *a = isl_aff_var_on_domain(isl_local_space_copy(ls), isl_dim_set, 0); isl_aff *fl = isl_aff_floor(isl_aff_scale_down_ui(a, 2)); isl_local_space_free(ls); ls = isl_aff_get_domain_local_space(fl); isl_aff_free(fl); } isl_constraint *c = s[5] == 'e' ? isl_constraint_alloc_equality(ls) : isl_constraint_alloc_inequality(ls); auto set = [&](int k) { int x = s[k] - '5'; if (k == 0) c = isl_constraint_set_constant_si(c, x); else if (k == 1) c = isl_constraint_set_coefficient_si(c, isl_dim_param, 0, x); else c = isl_constraint_set_coefficient_si(c, isl_dim_set, k - 2, x); }; if (v) for (int k = 3; k >= 0; --k) set(k); else for (int k = 0; k < 4; ++k) set(k); return c; };
		t.sig = [](void *p) { string s = cat(isl_constraint_is_equality(AS(constraint, p)) == isl_bool_true, " ", isl_constraint_dim(AS(constraint, p), isl_dim_div), ":"); auto add = [&](isl_val *v) { s += cat(isl_val_get_num_si(v), ","); isl_val_free(v); }; add(isl_constraint_get_constant_val(AS(constraint, p))); add(isl_constraint_get_coefficient_val(AS(constraint, p), isl_dim_param, 0)); for (int k = 0; k < 2; ++k) add(isl_constraint_get_coefficient_val(AS(constraint, p), isl_dim_set, k)); return s; };
		for (int c = 4; c < 7; ++c) for (int q = 4; q < 6; ++q) for (int a = 4; a < 7; a++) for (int b = 4; b < 7; b += 2) t.text.push_back(cat(c, q, a, b, "-", (a + b + q) % 3 ? "i" : "e")); t.text.push_back("5566de"); t.text.push_back("5566di"); t.text.push_back("5576di"); T.push_back(t);
		t.name = "constraint last"; t.eq = nullptr; t.sort = nullptr; t.cmp_value = false; CMP(constraint, cmp_last_non_zero); T.push_back(t); }
	{ Type t; t.name = "ast_expr"; t.nvar = 2; t.copy = [](void *p) -> void * { return isl_ast_expr_copy(AS(ast_expr, p)); }; t.fr = [](void *p) { isl_ast_expr_free(AS(ast_expr, p)); }; t.eq = [](void *a, void *b) -> int { return isl_ast_expr_is_equal(AS(ast_expr, a), AS(ast_expr, b)); }; t.dump = [](void *p) { char *c = isl_ast_expr_to_C_str(AS(ast_expr, p)); string s = c; free(c); return s; }; t.sig = t.dump; t.make = [](const string &s, int) -> void * { isl_ast_build *b = isl_ast_build_from_context(isl_set_read_from_str(ctx, "[n, i] -> { : }")); isl_ast_expr *e = isl_ast_build_expr_from_pw_aff(b, isl_pw_aff_read_from_str(ctx, ("[n, i] -> { [" + s + "] }").c_str())); isl_ast_build_free(b); return e; }; t.text = {"(i)", "(n)", "(i + n)", "(n + i)", "(2i)", "(i + i)", "(floor(i/2))", "(i mod 2)", "(min(i, n))", "(min(n, i))", "(max(i, n))", "(1)", "(-i)", "(floor((i + 1)/2))", "(i - n)", "(n - i)"}; T.push_back(t); }
	{ Type t; BASIC(schedule); EQ(schedule, plain_is_equal); t.sig = [](void *p) -> string { TXT(p, schedule) }; t.cmp_value = false; t.text = {"{ domain: \"{ A[i] : i >= 0 }\" }", "{ domain: \"{ A[i] : 0 <= i }\" }", "{ domain: \"{ A[i] : i >= 0 }\", child: { schedule: \"[{ A[i] -> [(i)] }]\" } }", "{ domain: \"{ A[i] : i >= 0 }\", child: { schedule: \"[{ A[i] -> [(-i)] }]\" } }", "{ domain: \"{ A[i] : i >= 0 }\", child: { schedule: \"[{ A[i] -> [(i)] }]\", permutable: 1 } }", "{ domain: \"{ A[i] : i >= 0 }\", child: { schedule: \"[{ A[i] -> [(i)] }]\", coincident: [ 1 ] } }", "{ domain: \"{ A[i]; B[i] }\", child: { sequence: [ { filter: \"{ A[i] }\" }, { filter: \"{ B[i] }\" } ] } }", "{ domain: \"{ A[i]; B[i] }\", child: { sequence: [ { filter: \"{ B[i] }\" }, { filter: \"{ A[i] }\" } ] } }", "{ domain: \"{ A[i]; B[i] }\", child: { set: [ { filter: \"{ A[i] }\" }, { filter: \"{ B[i] }\" } ] } }", "{ domain: \"{ A[i] }\", child: { mark: \"m\" } }", "{ domain: \"{ A[i] }\", child: { mark: \"q\" } }", "{ domain: \"{ A[i] }\", child: { context: \"[n] -> { : n > 0 }\" } }", "{ domain: \"{ A[i] : i >= 0 }\", child: { schedule: \"[{ A[i] -> [(i)] }]\", options: \"{ separate[x] }\" } }"}; T.push_back(t); }
	return T;
}
static void check(const Type &t, uint64_t a0) {
	size_t M = t.text.size() * t.nvar; vector<void *> o(M); vector<string> sg(M); vector<char> known(M, 0); auto who = [&](size_t k) { return t.text[k / t.nvar] + cat(" (form ", k % t.nvar, ")"); };
	auto drop = [&]() { for (auto *p : o) if (p) t.fr(p); }; auto bad = [&](const string &what, size_t a, size_t b) { string x = t.dump ? t.dump(o[a]) : "", y = t.dump ? t.dump(o[b]) : "", w = who(a) + " / " + who(b); drop(); fail(t.name + " " + what + "|" + w, x + "   /   " + y); };
	for (size_t k = 0; k < M; ++k) { o[k] = t.make(t.text[k / t.nvar], k % t.nvar); if (!o[k]) { drop(); mc::take_error(); fail("generator|" + t.name, who(k)); } }
	auto sig = [&](size_t k) -> bool { if (!t.sig) return false; if (!known[k]) { known[k] = 2; try { sg[k] = t.sig(o[k]); known[k] = 1; } catch (Overflow &) { mc::take_error(); } } return known[k] == 1; };
	auto sgn = [](int x) { return (x > 0) - (x < 0); }; size_t a = a0; note_transition(); bool nan = t.nan_unequal && (t.text[a / t.nvar].find("NaN") != string::npos);
	vector<int> row(M, 0); if (t.cmp) for (size_t b = 0; b < M; ++b) row[b] = sgn(t.cmp(o[a], o[b]));
	// the order depends on the internal representation, which the other functions may normalize: compare first
	auto void_ = [&](size_t k) { return sg[k].find('1', sg[k].rfind(' ')) == string::npos; };
	if (t.cmp) for (size_t b = 0; b < M; ++b) { if (sgn(t.cmp(o[b], o[a])) != -row[b]) bad("comparison not antisymmetric", a, b); if (!row[b] && t.cmp_value && sig(a) && sig(b) && sg[a] != sg[b] && !(t.name == "set" && void_(a) && void_(b))) bad("objects of different value compare equal", a, b); }
	if (t.cmp) for (size_t b = 0; b < M; ++b) if (row[b] <= 0) for (size_t k = 0; k < M; ++k) if (row[k] > 0 || (row[k] == 0 && row[b] < 0)) { if (t.cmp(o[b], o[k]) < 0 || (row[k] > 0 && t.cmp(o[b], o[k]) == 0)) bad("comparison not transitive via " + who(k), a, b); }
	if (t.sort) { vector<void *> in; for (size_t k = 0; k < M; ++k) in.push_back(t.copy(o[(a + k * (M % 7 ? 7 : 11)) % M])); vector<void *> r = t.sort(in); string what; if (r.size() != M) what = "length"; size_t le = 0, lt = 0; for (size_t k = 0; k < M; ++k) { le += row[k] >= 0; lt += row[k] > 0; } for (size_t k = 0; k + 1 < r.size() && what.empty(); ++k) if (t.cmp(r[k], r[k + 1]) > 0) what = "not sorted"; for (size_t k = lt; k < le && k < r.size() && what.empty(); ++k) if (t.cmp(r[k], o[a])) what = "position"; for (auto *p : r) t.fr(p); if (!what.empty()) bad("sort " + what, a, a); }
	void *c = t.copy(o[a]); if (t.eq && (t.eq(o[a], c) != 1 || t.eq(o[a], o[a]) != 1) && !nan) { t.fr(c); bad("copy not equal", a, a); } if (t.cmp && (t.cmp(o[a], c) || t.cmp(o[a], o[a]))) { t.fr(c); bad("copy compares different", a, a); } if (t.hash && (t.hash(o[a]) != t.hash(c) || t.hash(o[a]) != t.hash(o[a]))) { t.fr(c); bad("copy hashes differently", a, a); } t.fr(c);
	void *again = t.make(t.text[a / t.nvar], a % t.nvar); if (t.eq && t.eq(o[a], again) != 1 && !nan) { t.fr(again); bad("same construction not equal", a, a); } if (t.cmp && t.cmp(o[a], again) && !nan) { t.fr(again); bad("same construction compares different", a, a); } if (t.hash && t.hash(o[a]) != t.hash(again)) { t.fr(again); bad("same construction hashes differently", a, a); } t.fr(again);
	for (int k = 0; t.forms_hash && k < t.nvar; ++k) if (t.hash(o[a]) != t.hash(o[a / t.nvar * t.nvar + k])) bad("hash depends on the order of construction", a, a / t.nvar * t.nvar + k);
	for (size_t b = 0; b < M; ++b) {
		int e = t.eq ? t.eq(o[a], o[b]) : 0; if (e < 0) bad("equality failed", a, b); if (t.eq && e != t.eq(o[b], o[a])) bad("equality not symmetric", a, b); if (e == 1 && sig(a) && sig(b) && sg[a] != sg[b]) bad("equal objects have different values", a, b); if (e == 1 && t.hash && t.hash(o[a]) != t.hash(o[b])) bad("equal objects hash differently", a, b); if (e == 1 && t.eq_cmp && t.cmp && row[b]) bad("equal objects compare different", a, b);
		for (size_t k = 0; e == 1 && k < M; ++k) if (t.eq(o[b], o[k]) == 1 && t.eq(o[a], o[k]) != 1) bad("equality not transitive via " + who(k), a, b);
	}
	drop(); note_validated(); mc::note_outcome(t.name.c_str());
}
int main(int argc, char **argv) {
	mc::Harness h; h.property = "C32"; g_th = tier_thorough(argc, argv); static vector<Type> T = types(); string b;
	for (size_t k = 0; k < T.size(); ++k) { uint64_t M = T[k].text.size() * T[k].nvar; h.add(mc::SpaceDef(T[k].name, M, [=](uint64_t i) { check(T[k], i); }, [=](uint64_t i) { return T[k].text[i / T[k].nvar] + cat(" (form ", i % T[k].nvar, ")"); })); b += cat(T[k].name, ": ", M, "; "); }
	h.bounds["objects per type (all pairs and triples)"] = b; return mc::run(argc, argv, h);
}
