// C33: Farkas duals, strides and lattices.  A coefficient tuple must be in the dual exactly when the constraint holds on all rational
// points (decided by an own Fourier-Motzkin elimination); the solutions of the dual are the set again; strides and lattice tiles
// must hold for every element of a window.
#include "common.hpp"
#include <isl/union_set.h>
#include <isl/fixed_box.h>
#include <isl/stride_info.h>
static bool g_th;
static bool rat_empty(const Basic &b) { return rat_feasible(b.eq, b.ineq, b.nv + b.nd) == INFEAS; }
// does c.(1,x) >= 0 hold for all rational x in b (no local variables)?  c small, so a violation scaled away from 0 by 1/1000 suffices on the bounded shapes used here, and on unbounded ones
static Feas valid_on(const Basic &b, const vector<I> &c) { auto in = b.ineq; vector<I> r(c.size()); for (size_t i = 0; i < c.size(); ++i) r[i] = -1000 * c[i]; r[0] -= 1; in.push_back(r); Feas f = rat_feasible(b.eq, in, b.nv); return f == UNKNOWN ? UNKNOWN : f == INFEAS ? FEAS : INFEAS; }
// the same over the integer points: the library may have tightened the set to those (c.x < 0 is c.x <= -1)
static Feas valid_on_integers(const Basic &b, const vector<I> &c) { auto in = b.ineq; vector<I> r(c.size()); for (size_t i = 0; i < c.size(); ++i) r[i] = -c[i]; r[0] -= 1; in.push_back(r); Feas f = feasible(b.eq, in, b.nv); return f == UNKNOWN ? UNKNOWN : f == INFEAS ? FEAS : INFEAS; }
static vector<Basic> disjuncts(isl_set *s) { return read_set(s).b; }
// all coefficient tuples of the window
static void each_tuple(int n, int clo, int chi, int lo, int hi, const std::function<void(const vector<I> &)> &f) { vector<I> c(1 + n, lo); c[0] = clo; for (;;) { f(c); int k = 0; for (; k <= n; ++k) { if (++c[k] <= (k ? hi : chi)) break; c[k] = k ? lo : clo; } if (k > n) break; } }
static string tup(const vector<I> &c) { string s; for (auto x : c) s += (s.empty() ? "(" : ",") + S(x); return s + ")"; }
static void check_space(isl_space *s, int np, int nv, const string &what, const string &who) {   // takes s: coefficients[[c_cst, params] -> set dims]
	bool ok = isl_space_is_wrapping(s) == isl_bool_true && isl_space_dim(s, isl_dim_param) == 0; const char *n = ok ? isl_space_get_tuple_name(s, isl_dim_set) : nullptr; ok = n && string(n) == "coefficients"; if (ok) { s = isl_space_unwrap(s); ok = isl_space_dim(s, isl_dim_in) == 1 + np && isl_space_dim(s, isl_dim_out) == nv - np; } isl_space_free(s); mc::take_error(); if (!ok) fail(what + " space|" + who, "not of the documented form");
}
// one set (any number of disjuncts without local variables)
static void check_dual_(isl_set *s, int np, int nv, int range, const string &who) {   // keeps s
	vector<Basic> d = disjuncts(s); bool empty = true; for (auto &b : d) if (b.nd) { note_outcome("local variables"); return; }
	for (auto &b : d) empty = empty && rat_empty(b);
	isl_basic_set *c = isl_set_coefficients(isl_set_copy(s)); note_transition(); if (!c) { mc::take_error(); fail("coefficients|" + who, "no result"); }
	isl_basic_set *c1 = nullptr; if (d.size() == 1) { isl_basic_set_list *l = isl_set_get_basic_set_list(s); l = isl_basic_set_list_coefficients(l); c1 = l ? isl_basic_set_list_get_at(l, 0) : nullptr; isl_basic_set_list_free(l); isl_bool e = isl_basic_set_is_equal(c, c1); isl_basic_set_free(c1); if (e != isl_bool_true) { isl_basic_set_free(c); mc::take_error(); fail("list coefficients|" + who, "differs from the coefficients of the set"); } }
	string ct = mc::str(isl_basic_set_to_str(c)); check_space(isl_basic_set_get_space(c), np, nv, "coefficients", who); Basic cb; try { cb = read_basic_set(c); } catch (Overflow &) { isl_basic_set_free(c); throw; }
	string bad; try { each_tuple(nv, -2 * range - 1, 3 * range, -range, range, [&](const vector<I> &t) { if (!bad.empty()) return; bool want = true, wanti = true; for (auto &b : d) { if (rat_empty(b)) { continue; } Feas f = valid_on(b, t); if (f == UNKNOWN) throw Overflow(); if (f != FEAS) { want = false; if (valid_on_integers(b, t) != FEAS) { wanti = false; break; } } } bool got = contains(cb, t.data()); if (got && !wanti) bad = cat(tup(t), " is in ", ct, " but not valid"); if (want && !got && !empty) { bool mixed = false; for (auto &b : d) mixed = mixed || rat_empty(b); if (!mixed) bad = cat(tup(t), " is valid but not in ", ct); } }); } catch (Overflow &) { isl_basic_set_free(c); throw; }
	if (!bad.empty()) { isl_basic_set_free(c); fail("coefficients|" + who, bad); }
	// solving the dual again
	if (!empty) {
		isl_basic_set *sol = isl_basic_set_solutions(isl_basic_set_copy(c)); note_transition(); if (!sol) { isl_basic_set_free(c); mc::take_error(); fail("solutions|" + who, "no result"); } string t = mc::str(isl_basic_set_to_str(sol)); isl_space *a = isl_basic_set_get_space(sol), *b = isl_set_get_space(s); bool ok = isl_space_dim(a, isl_dim_param) == np && isl_space_dim(a, isl_dim_set) == nv - np && isl_space_has_equal_tuples(a, b); isl_space_free(a); isl_space_free(b); Basic sb; try { sb = read_basic_set(sol); } catch (Overflow &) { ok = true; isl_basic_set_free(sol); isl_basic_set_free(c); throw; } isl_basic_set_free(sol); if (!ok) { isl_basic_set_free(c); fail("solutions space|" + who, t); }
		// points on a half-integer grid: x = p / 2
		string bad; each_tuple(nv - 1, -5, 8, -5, 8, [&](const vector<I> &p) { if (!bad.empty()) return; auto inr = [&](const Basic &q) { for (auto &r : q.eq) { I v = 2 * r[0]; for (int i = 0; i < nv; ++i) v += r[1 + i] * p[i]; if (v) return false; } for (auto &r : q.ineq) { I v = 2 * r[0]; for (int i = 0; i < nv; ++i) v += r[1 + i] * p[i]; if (v < 0) return false; } return true; }; bool got = inr(sb); bool any = false; for (auto &q : d) any = any || inr(q); bool ip = true; for (auto x : p) ip = ip && mod(x, 2) == 0; if (any && !got && ip) bad = cat("2x=", tup(p), " missing from ", t); if (!any && got && d.size() == 1) bad = cat("2x=", tup(p), " too many in ", t); });
		if (sb.nd) note_outcome("solutions with local variables"); else if (!bad.empty()) { isl_basic_set_free(c); fail("solutions|" + who, bad); }
	}
	isl_basic_set_free(c); note_outcome(empty ? "empty" : d.size() == 1 ? "single" : "union"); note_validated();
}
#define GUARD(call) try { call; } catch (Overflow &) { note_outcome("outside the model"); mc::take_error(); }
// solutions of several cones together: the intersection; of union sets: per space
// integer points of the parts of u named A and B against the two models
static bool same_points(isl_union_set *u, const Window &w, const Basic &a, const Basic &b) { isl_set_list *l = isl_union_set_get_set_list(u); bool ok = isl_set_list_n_set(l) == 2; try { for (int k = 0; ok && k < isl_set_list_n_set(l); ++k) { isl_set *s = isl_set_list_get_set(l, k); const char *n = isl_set_get_tuple_name(s); const Basic &m = n && *n == 'A' ? a : b; Pts p; try { p = read_set(s); } catch (Overflow &) { isl_set_free(s); throw; } isl_set_free(s); if (p.np + p.no != m.nv) { ok = false; break; } ok = bits(p, w) == bits(m, w); } } catch (Overflow &) { isl_set_list_free(l); throw; } isl_set_list_free(l); return ok; }
static void check_two_(Alpha &A, size_t i, size_t j) {
	isl_set *a = isl_set_coalesce(isl_set_copy(A.set(i))), *b = isl_set_coalesce(isl_set_copy(A.set(j))); vector<Basic> da, db; try { da = disjuncts(a); db = disjuncts(b); } catch (Overflow &) { isl_set_free(a); isl_set_free(b); throw; } string who = A.text(i) + " and " + A.text(j); auto bail = [&]() { isl_set_free(a); isl_set_free(b); }; if (da.size() != 1 || db.size() != 1 || da[0].nd || db[0].nd || rat_empty(da[0]) || rat_empty(db[0])) { bail(); return; }
	isl_basic_set *ca = isl_set_coefficients(isl_set_copy(a)), *cb = isl_set_coefficients(isl_set_copy(b)); isl_basic_set *sol = isl_set_solutions(isl_basic_set_union(isl_basic_set_copy(ca), isl_basic_set_copy(cb))); note_transition();
	isl_set *a2 = isl_set_set_tuple_name(isl_set_copy(a), "A"), *b2 = isl_set_set_tuple_name(isl_set_copy(b), "B"); isl_union_set *u = isl_union_set_union(isl_union_set_from_set(a2), isl_union_set_from_set(b2)); isl_union_set *uc = isl_union_set_coefficients(isl_union_set_copy(u)), *us = isl_union_set_solutions(isl_union_set_copy(uc)); bool eq = us && same_points(us, A.w, da[0], db[0]); isl_size nn = isl_union_set_n_set(uc);
	isl_union_set_free(u); isl_union_set_free(uc); isl_union_set_free(us); isl_basic_set_free(ca); isl_basic_set_free(cb); bail(); if (!sol) { mc::take_error(); fail("set solutions|" + who, "no result"); }
	string t = mc::str(isl_basic_set_to_str(sol)); Basic sb; try { sb = read_basic_set(sol); } catch (Overflow &) { isl_basic_set_free(sol); throw; } isl_basic_set_free(sol);
	for (int k = 0; k < A.w.count; ++k) { bool want = contains(da[0], A.w.at(k)) && contains(db[0], A.w.at(k)), got = contains(sb, A.w.at(k)); if (want != got) fail("set solutions|" + who, cat("point ", tup(vector<I>(A.w.at(k), A.w.at(k) + A.w.n)), got ? " too many in " : " missing from ", t)); }
	if (!eq) fail("union solutions|" + who, "solutions of the coefficients of a union set differ from it"); if (nn != 2) fail("union coefficients|" + who, cat("result has ", nn, " spaces")); note_validated();
}
static void check_two(Alpha &A, size_t i, size_t j) { GUARD(check_two_(A, i, j)) }
// strides, lattices
static bool congruent(const Rat &v, I s) { return v.isint() && mod(v.n, s) == 0; }
static void stride_one(const string &op, isl_stride_info *si, const Pts *, const Window &w, const Bits &b, int at, int nin, const string &who, I *out) {   // takes si; offset is over the first nin coordinates (or all when nin < 0)
	if (!si) { mc::take_error(); fail(op + "|" + who, "no result"); } note_transition(); isl_val *sv = isl_stride_info_get_stride(si); isl_aff *o = isl_stride_info_get_offset(si); isl_stride_info_free(si); I s = 0; Aff a; string t = mc::str(isl_aff_to_str(o)); isl_size od = isl_aff_dim(o, isl_dim_in) + isl_aff_dim(o, isl_dim_param); isl_bool dep = nin < 0 ? isl_aff_involves_dims(o, isl_dim_in, at - isl_aff_dim(o, isl_dim_param), 1) : isl_bool_false;
	try { s = int_from_val(sv); a = read_aff(o); } catch (Overflow &) { isl_aff_free(o); throw; } isl_aff_free(o); *out = s;
	if (od != (nin < 0 ? w.n : nin)) fail(op + " space|" + who, t); if (dep != isl_bool_false) fail(op + " self|" + who, "offset " + t + " depends on the position itself"); if (s < 1) fail(op + " sign|" + who, "stride " + S(s));
	for (int k = 0; k < w.count; ++k) if (bit(b, k)) { Rat v = Rat(w.at(k)[at]) - eval(a, w.at(k)); if (!congruent(v, s)) fail(op + "|" + who, cat("x", at, " = ", S(w.at(k)[at]), " at ", tup(vector<I>(w.at(k), w.at(k) + w.n)), " is not ", t, " modulo ", S(s))); }
	note_outcome(s > 1 ? "stride" : "no stride");
}
static void tile(const string &op, isl_fixed_box *fb, const Window &w, const Bits &b, int nin, const string &who, const vector<I> &want) {
	if (!fb) { mc::take_error(); fail(op + "|" + who, "no result"); } note_transition(); isl_bool v = isl_fixed_box_is_valid(fb); isl_multi_aff *o = isl_fixed_box_get_offset(fb); isl_multi_val *s = isl_fixed_box_get_size(fb); isl_fixed_box_free(fb); int n = w.n - nin; string bad; if (v != isl_bool_true) bad = "not a valid box";
	try { for (int i = 0; i < n && bad.empty(); ++i) { isl_aff *a = isl_multi_aff_get_at(o, i); Aff m; try { m = read_aff(a); } catch (Overflow &) { isl_aff_free(a); throw; } string t = mc::str(isl_aff_to_str(a)); isl_aff_free(a); I z = int_from_val(isl_multi_val_get_at(s, i)); if (z < 1) bad = "size " + S(z); else if (!want.empty() && z != want[i]) bad = cat("size ", S(z), " where the stride is ", S(want[i])); else for (int k = 0; k < w.count; ++k) if (bit(b, k) && !congruent(Rat(w.at(k)[nin + i]) - eval(m, w.at(k)), z)) { bad = cat("element ", tup(vector<I>(w.at(k), w.at(k) + w.n)), " is not ", t, " modulo ", S(z)); break; } } } catch (Overflow &) { isl_multi_aff_free(o); isl_multi_val_free(s); throw; }
	isl_multi_aff_free(o); isl_multi_val_free(s); if (!bad.empty()) fail(op + "|" + who, bad); note_validated();
}
static void check_stride_(Alpha &A, size_t i) {
	isl_set *s = A.set(i); int np = A.np, n = A.nv - np; string who = A.text(i); vector<I> st(n);
	for (int k = 0; k < n; ++k) { stride_one("stride info", isl_set_get_stride_info(s, k), nullptr, A.w, A.b[i], np + k, -1, who, &st[k]); isl_val *v = isl_set_get_stride(s, k); I x = v ? int_from_val(v) : -1; if (x != st[k]) fail("stride|" + who, cat("stride ", S(x), " but the stride information says ", S(st[k]))); }
	for (int ni = 0; ni < n; ++ni) { isl_map *m = A.map(i, ni); vector<I> ms(n - ni); for (int k = 0; k < n - ni; ++k) stride_one(cat("range stride info ", ni), isl_map_get_range_stride_info(m, k), nullptr, A.w, A.b[i], np + ni + k, np + ni, who, &ms[k]); tile(cat("range lattice tile ", ni), isl_map_get_range_lattice_tile(m), A.w, A.b[i], np + ni, who, ms); if (!ni) tile("lattice tile", isl_set_get_lattice_tile(s), A.w, A.b[i], np, who, ms); }
}
static void check_stride(Alpha &A, size_t i) { GUARD(check_stride_(A, i)) }
// sets that are a lattice by construction: the stride has to be found in full
static void check_lattice_(int form, int m, int r, int a, int m2) {
	string t; I want = m; switch (form) { case 0: t = cat("[n] -> { [i, j] : (i - ", r, ") mod ", m, " = 0 }"); break; case 1: t = cat("[n] -> { [i, j] : (i - ", a, " n - ", r, ") mod ", m, " = 0 and 0 <= j <= i }"); break; case 2: t = cat("[n] -> { [i, j] : exists e : i = ", r, " + ", m, " e and e >= n }"); break; case 3: t = cat("[n] -> { [i, j] : (i - ", r, ") mod ", m, " = 0 and (i - ", a, ") mod ", m2, " = 0 }"); want = (I) m / gcdll(m, m2) * m2; break; case 4: t = cat("[n] -> { [i, j] : (i - ", r, ") mod ", m, " = 0 and j >= 0; [i, j] : (i - ", r + m * a, ") mod ", m, " = 0 and j < -1 }"); break; default: t = cat("[n] -> { [i, j] : (", m2 % m ? m2 : 1, " i - ", r, " - n) mod ", m, " = 0 }"); { I g = gcdll(m2 % m ? m2 : 1, m); want = m / g; } }
	isl_set *s = isl_set_read_from_str(ctx, t.c_str()); if (!s) fail("generator|" + t, "rejected"); Pts p; try { p = read_set(s); } catch (Overflow &) { isl_set_free(s); throw; } static Window w(vector<std::pair<I, I>>{{-2, 3}, {-7, 13}, {-2, 1}}); Bits b = bits(p, w);
	if (form == 3 && mod(r - a, gcdll(m, m2))) { isl_set_free(s); return; }
	I got = 0; isl_stride_info *si = isl_set_get_stride_info(s, 0); isl_val *v = isl_set_get_stride(s, 0); isl_fixed_box *fb = isl_set_get_lattice_tile(s); isl_set_free(s); I x = v ? int_from_val(v) : -1; if (!si) isl_fixed_box_free(fb); try { stride_one("lattice stride", si, nullptr, w, b, 1, -1, t, &got); } catch (...) { isl_fixed_box_free(fb); throw; } if (got != want || x != want) { isl_fixed_box_free(fb); fail("lattice stride|" + t, cat("stride ", S(got), " and ", S(x), ", expected ", S(want))); } tile("lattice tile", fb, w, b, 1, t, {});
}
static void check_lattice(int form, int m, int r, int a, int m2) { GUARD(check_lattice_(form, m, r, a, m2)) }
int main(int argc, char **argv) {
	mc::Harness h; h.property = "C33"; g_th = tier_thorough(argc, argv);
	h.teardown = [] { Alpha::drop_all(); };
	auto add = [&](const string &n, mc::Radix r, std::function<void(const vector<uint64_t> &)> f, std::function<string(const vector<uint64_t> &)> d) { h.add(mc::SpaceDef(n, r.size(), [=](uint64_t i) { f(r.at(i)); }, [=](uint64_t i) { return d(r.at(i)); })); };
	struct Dimn { int nv, np, cap; GenOpt o; int range; }; GenOpt o1; o1.coef = 2; o1.divs = false; GenOpt o2 = o1, o3 = o1; o3.coef = 1; int th = g_th ? 4 : 1;
	for (Dimn d : {Dimn{1, 0, 80 * th, o1, 3}, Dimn{2, 1, 160 * th, o2, 2}, Dimn{2, 0, 200 * th, o2, 2}, Dimn{3, 1, 90 * th, o3, 1}, Dimn{3, 0, 90 * th, o3, 1}}) {
		Window w = Window::cube(d.nv, -3, 5); auto *A = new Alpha(d.nv, d.np, w, basicsN(d.nv, d.np, w, 2, d.o, d.cap)); string nm = cat(d.nv - d.np, " dimensions, ", d.np, " parameters");
		add("duals, " + nm, {A->size()}, [=](const vector<uint64_t> &v) { isl_set *s = A->set(v[0]); GUARD(check_dual_(s, A->np, A->nv, d.range, A->text(v[0]))) }, [=](const vector<uint64_t> &v) { return A->text(v[0]); });
		auto *U = new Alpha(d.nv, d.np, w, unions2(pick(A->s, 14 * (d.nv == 3 ? 1 : 2)), d.nv, w, 2, (d.nv == 3 ? 50 : 150) * th, d.np));
		add("duals of unions, " + nm, {U->size()}, [=](const vector<uint64_t> &v) { isl_set *s = U->set(v[0]); GUARD(check_dual_(s, U->np, U->nv, d.range, U->text(v[0]))) }, [=](const vector<uint64_t> &v) { return U->text(v[0]); });
		if (d.nv == 2) { auto *P = new Alpha(d.nv, d.np, w, pick(A->s, g_th ? 60 : 28)); add("solutions of two cones, " + nm, {P->size(), P->size()}, [=](const vector<uint64_t> &v) { check_two(*P, v[0], v[1]); }, [=](const vector<uint64_t> &v) { return P->text(v[0]) + " and " + P->text(v[1]); }); }
	}
	{ // products: a set that factors, possibly after a unimodular change of basis
		static vector<string> F = {"0 <= X <= 2", "X >= 0", "X <= 1", "X = 1", "-1 <= X <= n", "X >= n", ""}, Y = {"0 <= P <= 1 and 0 <= Q <= 1", "P >= 0 and Q >= 0", "0 <= P and P + Q <= 2", "P = Q", "P >= 0 and P <= Q and Q <= 2", "2*P <= 3*Q and Q <= 1", "P + 2*Q = 1", ""}; static const char *T[] = {"a|b|c", "a|b|c + b", "a + c|b|c", "a|b + 2a|c - b", "c|a|b", "a - b|c|a + c", "b|a + b|c + a"};
		auto tx = [=](const vector<uint64_t> &v, int &np) { string f[3], s = T[v[2]]; size_t p = s.find('|'), q = s.rfind('|'); f[0] = "(" + s.substr(0, p) + ")"; f[1] = "(" + s.substr(p + 1, q - p - 1) + ")"; f[2] = "(" + s.substr(q + 1) + ")"; string r; for (char c : F[v[0]]) r += c == 'X' ? f[0] : string(1, c); if (!F[v[0]].empty() && !Y[v[1]].empty()) r += " and "; for (char c : Y[v[1]]) r += c == 'P' ? f[1] : c == 'Q' ? f[2] : string(1, c); np = v[0] == 4 || v[0] == 5; return string(np ? "[n] -> " : "") + "{ [a, b, c]" + (r.empty() ? "" : " : ") + r + " }"; };
		add("duals of products", {F.size(), Y.size(), 7}, [=](const vector<uint64_t> &v) { int np; string t = tx(v, np); isl_set *s = isl_set_read_from_str(ctx, t.c_str()); if (!s) fail("generator|" + t, "rejected"); try { check_dual_(s, np, 3 + np, np ? 1 : 2, t); } catch (Overflow &) { note_outcome("outside the model"); } catch (...) { isl_set_free(s); throw; } isl_set_free(s); }, [=](const vector<uint64_t> &v) { int np; return tx(v, np); });
		static vector<string> G = {"0 <= X <= 2", "X = 1", "X >= 0", "2 <= X <= 3", "X >= n"}; add("duals of four independent or paired variables", {G.size(), G.size(), Y.size(), 3}, [=](const vector<uint64_t> &v) { string r; auto sub = [&](const string &q, const char *p, const char *p2) { if (q.empty()) return; if (!r.empty()) r += " and "; for (char c : q) r += c == 'X' || c == 'P' ? string(p) : c == 'Q' ? string(p2) : string(1, c); }; static const char *O[3][4] = {{"a", "b", "c", "d"}, {"a", "d", "b", "c"}, {"a", "(b + c)", "c", "d"}}; auto &o = O[v[3]]; sub(G[v[0]], o[0], ""); sub(G[v[1]], o[1], ""); sub(Y[v[2]], o[2], o[3]); bool p = r.find('n') != string::npos && (v[0] == 4 || v[1] == 4); string t = string(p ? "[n] -> " : "") + "{ [a, b, c, d] : " + r + " }"; isl_set *s = isl_set_read_from_str(ctx, t.c_str()); if (!s) fail("generator|" + t, "rejected"); try { if (!p || g_th) check_dual_(s, p, 4 + p, 1, t); } catch (Overflow &) { note_outcome("outside the model"); } catch (...) { isl_set_free(s); throw; } isl_set_free(s); }, [=](const vector<uint64_t> &v) { return cat(v[0], " ", v[1], " ", v[2], " ", v[3]); }); }
	{ GenOpt o; o.coef = 2; Window w1 = window_np(1, -1, 4, 1, -4, 9), w2 = window_np(1, -1, 3, 2, -3, 7), w3 = Window::cube(2, -3, 9);
		struct D { int nv, np; Window *w; int cap; const char *n; }; for (D d : {D{2, 1, &w1, 300 * th, "1 dimension, 1 parameter"}, D{3, 1, &w2, 200 * th, "2 dimensions, 1 parameter"}, D{2, 0, &w3, 300 * th, "2 dimensions"}}) { auto *A = new Alpha(d.nv, d.np, *d.w, basicsN(d.nv, d.np, *d.w, 2, o, d.cap)); add(string("strides, ") + d.n, {A->size()}, [=](const vector<uint64_t> &v) { check_stride(*A, v[0]); }, [=](const vector<uint64_t> &v) { return A->text(v[0]); });
			auto dv = A->s; dv.clear(); for (auto &s : A->s) if (s.b[0].nd) dv.push_back(s); auto *U = new Alpha(d.nv, d.np, *d.w, unions2(pick(dv, g_th ? 40 : 16), d.nv, *d.w, 2, 120 * th, d.np)); add(string("strides of unions, ") + d.n, {U->size()}, [=](const vector<uint64_t> &v) { check_stride(*U, v[0]); }, [=](const vector<uint64_t> &v) { return U->text(v[0]); }); }
		auto *N = new Alpha(2, 0, w3, nested2(w3, 150 * th)); add("strides, nested divisions", {N->size()}, [=](const vector<uint64_t> &v) { check_stride(*N, v[0]); }, [=](const vector<uint64_t> &v) { return N->text(v[0]); }); }
	add("lattices", {6, 6, 4, 4, 6}, [](const vector<uint64_t> &v) { check_lattice(v[0], 2 + v[1], v[2] - 1, v[3] - 1, 2 + v[4]); }, [](const vector<uint64_t> &v) { return cat("form ", v[0], " modulus ", v[1] + 2, " ", v[2], " ", v[3], " ", v[4] + 2); });
	h.bounds["spaces"] = "sets without local variables in 1-5 unknowns with coefficients up to 2, unions of two, products up to change of basis; coefficient tuples with |c| up to 3, constant terms up to 9; primal points on a half-integer grid in [-2.5,4]; strides of sets with up to two divisions over windows, lattices of moduli 2-7";
	return mc::run(argc, argv, h);
}
