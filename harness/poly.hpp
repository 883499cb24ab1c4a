// Independent reading and evaluation of (piecewise) quasi-polynomials and folds through their public term accessors.
#pragma once
#include "common.hpp"
#include <isl/polynomial.h>
#include <isl/aff.h>
#include <isl/point.h>
namespace poly {
struct Term { Rat c; vector<int> e, de; };         // exponents of parameters+inputs, of divisions
struct Poly { int nv = 0, np = 0, nd = 0; vector<Term> t; vector<Aff> divs; int special = 0; };   // special: 1 +inf, -1 -inf, 2 NaN
struct V { int k; Rat r; bool operator==(const V &o) const { return k == o.k && (k != 0 || r == o.r); } string s() const { return k == 1 ? "infty" : k == -1 ? "-infty" : k == 2 ? "NaN" : r.s(); } };   // k as special
inline V val(Rat r) { return {0, r}; }
inline isl_stat term_fn(isl_term *t, void *u) {
	Poly &p = *(Poly *) u; Term x; bool over = false;
	try { x.c = rat_from_val(isl_term_get_coefficient_val(t)); } catch (Overflow &) { over = true; }
	int np = isl_term_dim(t, isl_dim_param), ni = isl_term_dim(t, isl_dim_set), nd = isl_term_dim(t, isl_dim_div);
	for (int i = 0; i < np; ++i) x.e.push_back(isl_term_get_exp(t, isl_dim_param, i));
	for (int i = 0; i < ni; ++i) x.e.push_back(isl_term_get_exp(t, isl_dim_set, i));
	for (int i = 0; i < nd; ++i) x.de.push_back(isl_term_get_exp(t, isl_dim_div, i));
	if (p.divs.empty() && !over) for (int i = 0; i < nd; ++i) { isl_aff *a = isl_term_get_div(t, i); try { p.divs.push_back(read_aff(a)); } catch (Overflow &) { over = true; } isl_aff_free(a); }
	isl_term_free(t); if (over) return isl_stat_error; p.t.push_back(x); return isl_stat_ok;
}
inline Poly read(isl_qpolynomial *q) {              // keeps
	Poly p; if (!q) fail("read", "NULL qpolynomial");
	p.np = isl_qpolynomial_dim(q, isl_dim_param); p.nv = p.np + isl_qpolynomial_dim(q, isl_dim_in); p.nd = isl_qpolynomial_dim(q, isl_dim_div);
	if (isl_qpolynomial_is_nan(q)) p.special = 2; else if (isl_qpolynomial_is_infty(q)) p.special = 1; else if (isl_qpolynomial_is_neginfty(q)) p.special = -1;
	else if (isl_qpolynomial_foreach_term(q, term_fn, &p) < 0) { mc::take_error(); throw Overflow(); }
	return p;
}
inline Rat ipow(Rat b, int e) { Rat r(1); while (e-- > 0) r = r * b; return r; }
inline V eval(const Poly &p, const I *x) {
	if (p.special) return {p.special, 0};
	Rat s(0); vector<Rat> dv; for (auto &d : p.divs) dv.push_back(Rat(mdl::eval(d, x).floor()));
	for (auto &t : p.t) { Rat v = t.c; for (size_t i = 0; i < t.e.size(); ++i) if (t.e[i]) v = v * ipow(Rat(x[i]), t.e[i]); for (size_t i = 0; i < t.de.size(); ++i) if (t.de[i]) v = v * ipow(dv[i], t.de[i]); s = s + v; }
	return val(s);
}
struct PwPoly { vector<std::pair<Pts, Poly>> p; bool over = false; };
inline PwPoly read(isl_pw_qpolynomial *q) {
	PwPoly r; if (!q) fail("read", "NULL pw_qpolynomial");
	isl_pw_qpolynomial_foreach_piece(q, [](isl_set *s, isl_qpolynomial *f, void *u) { PwPoly &r = *(PwPoly *) u; try { r.p.push_back({read_set(s), read(f)}); } catch (Overflow &) { r.over = true; } isl_set_free(s); isl_qpolynomial_free(f); return isl_stat_ok; }, &r);
	if (r.over) throw Overflow(); return r;
}
// pieces are disjoint; zero outside; n returns the number of pieces containing the point
inline V eval(const PwPoly &p, const I *x, int *n = nullptr) { V r = val(Rat(0)); int k = 0; for (auto &q : p.p) if (contains(q.first, x)) { r = eval(q.second, x); ++k; } if (n) *n = k; return r; }
struct Fold { int type; vector<Poly> q; };
inline V extreme(int type, const vector<V> &v) { V r = val(Rat(0)); bool first = true; for (auto &x : v) { if (x.k == 2) return x; auto less = [](const V &a, const V &b) { if (a.k == 0 && b.k == 0) return a.r < b.r; return a.k < b.k; }; if (first || (type == isl_fold_max ? less(r, x) : less(x, r))) r = x; first = false; } return r; }
inline Fold read(isl_qpolynomial_fold *f) {
	Fold r; r.type = isl_qpolynomial_fold_get_type(f); struct D { Fold *r; bool over; } d{&r, false};
	isl_qpolynomial_fold_foreach_qpolynomial(f, [](isl_qpolynomial *q, void *u) { D &d = *(D *) u; try { d.r->q.push_back(read(q)); } catch (Overflow &) { d.over = true; } isl_qpolynomial_free(q); return isl_stat_ok; }, &d);
	if (d.over) throw Overflow(); return r;
}
struct PwFold { int type; vector<std::pair<Pts, Fold>> p; bool over = false; };
inline PwFold read(isl_pw_qpolynomial_fold *q) {
	PwFold r; if (!q) fail("read", "NULL pw_qpolynomial_fold"); r.type = isl_pw_qpolynomial_fold_get_type(q);
	isl_pw_qpolynomial_fold_foreach_piece(q, [](isl_set *s, isl_qpolynomial_fold *f, void *u) { PwFold &r = *(PwFold *) u; try { r.p.push_back({read_set(s), read(f)}); } catch (Overflow &) { r.over = true; } isl_set_free(s); isl_qpolynomial_fold_free(f); return isl_stat_ok; }, &r);
	if (r.over) throw Overflow(); return r;
}
inline V eval(const PwFold &p, const I *x, int *n = nullptr) { V r = val(Rat(0)); int k = 0; for (auto &q : p.p) if (contains(q.first, x)) { vector<V> v; for (auto &f : q.second.q) v.push_back(eval(f, x)); r = extreme(p.type, v); ++k; } if (n) *n = k; return r; }
inline V from_val(isl_val *v) { if (!v) fail("eval", "NULL value"); if (isl_val_is_nan(v)) { isl_val_free(v); return {2, 0}; } if (isl_val_is_infty(v)) { isl_val_free(v); return {1, 0}; } if (isl_val_is_neginfty(v)) { isl_val_free(v); return {-1, 0}; } return val(rat_from_val(v)); }
inline isl_point *point(isl_space *sp, const I *x) { int np = isl_space_dim(sp, isl_dim_param), n = isl_space_dim(sp, isl_dim_set); isl_point *p = isl_point_zero(sp); for (int i = 0; i < np; ++i) p = isl_point_set_coordinate_val(p, isl_dim_param, i, valI(x[i])); for (int i = 0; i < n; ++i) p = isl_point_set_coordinate_val(p, isl_dim_set, i, valI(x[np + i])); return p; }
} // namespace poly
