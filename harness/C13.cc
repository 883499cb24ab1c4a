// C13: value arithmetic against exact rationals (GMP mpq) extended with infinities and NaN.
#include "common.hpp"
#include <isl/val_gmp.h>
#include <gmp.h>
#include <cmath>
struct Q {                                       // k: 0 rational, 1 +inf, -1 -inf, 2 NaN, 3 error (NULL)
	int k = 0; mpq_t q;
	Q() { mpq_init(q); }
	Q(const Q &o) : k(o.k) { mpq_init(q); mpq_set(q, o.q); }
	Q &operator=(const Q &o) { k = o.k; mpq_set(q, o.q); return *this; }
	~Q() { mpq_clear(q); }
	static Q kind(int k) { Q r; r.k = k; return r; }
	static Q si(long n, unsigned long d = 1) { Q r; mpq_set_si(r.q, n, d); mpq_canonicalize(r.q); return r; }
	static Q text(const char *s) { Q r; mpq_set_str(r.q, s, 10); mpq_canonicalize(r.q); return r; }
	bool fin() const { return k == 0; } bool isint() const { return k == 0 && mpz_cmp_ui(mpq_denref(q), 1) == 0; }
	int sgn() const { return k == 0 ? mpq_sgn(q) : k == 2 ? 0 : k; }
	string s() const { if (k == 1) return "infty"; if (k == -1) return "-infty"; if (k == 2) return "NaN"; if (k == 3) return "(error)"; char *c = mpq_get_str(nullptr, 10, q); string r(c); free(c); return r; }
};
static Q NaN() { return Q::kind(2); } static Q ERR() { return Q::kind(3); } static Q inf(int s) { return s > 0 ? Q::kind(1) : s < 0 ? Q::kind(-1) : NaN(); }
static Q neg(Q a) { if (a.k == 0) mpq_neg(a.q, a.q); else if (a.k != 2) a.k = -a.k; return a; }
static Q add(const Q &a, const Q &b) { if (a.k == 2 || b.k == 2) return NaN(); if (a.k && b.k) return a.k == b.k ? a : NaN(); if (a.k) return a; if (b.k) return b; Q r; mpq_add(r.q, a.q, b.q); return r; }
static Q sub(const Q &a, const Q &b) { return add(a, neg(b)); }
static Q mul(const Q &a, const Q &b) { if (a.k == 2 || b.k == 2) return NaN(); if (a.k || b.k) return inf(a.sgn() * b.sgn()); Q r; mpq_mul(r.q, a.q, b.q); return r; }
static Q dv(const Q &a, const Q &b) { if (a.k == 2 || b.k == 2) return NaN(); if (b.fin() && b.sgn() == 0) return NaN(); if (a.k && b.k) return NaN(); if (b.k) return Q::si(0); if (a.k) return inf(a.sgn() * b.sgn()); Q r; mpq_div(r.q, a.q, b.q); return r; }
static int cmp(const Q &a, const Q &b) { if (a.k == 0 && b.k == 0) { int c = mpq_cmp(a.q, b.q); return (c > 0) - (c < 0); } return (a.k > b.k) - (a.k < b.k); }
static bool nn(const Q &a, const Q &b) { return a.k == 2 || b.k == 2; }
static Q rnd(Q a, int how) { if (a.k) return a; mpz_t z; mpz_init(z); (how == 0 ? mpz_fdiv_q : how == 1 ? mpz_cdiv_q : mpz_tdiv_q)(z, mpq_numref(a.q), mpq_denref(a.q)); mpq_set_z(a.q, z); mpz_clear(z); return a; }
static Q modq(const Q &a, const Q &b) { if (!a.isint() || !b.isint()) return ERR(); return sub(a, mul(b, rnd(dv(a, b), 0))); }
static Q gcdq(const Q &a, const Q &b) { if (!a.isint() || !b.isint()) return ERR(); Q r; mpz_gcd(mpq_numref(r.q), mpq_numref(a.q), mpq_numref(b.q)); return r; }
static Q absq(Q a) { return a.k == 2 ? a : a.sgn() < 0 ? neg(a) : a; }
struct Leaf { string t; Q q; };
static vector<Leaf> L;
static isl_val *mk(int i) {
	const Leaf &l = L[i];
	switch (l.q.k) { case 1: return isl_val_infty(ctx); case -1: return isl_val_neginfty(ctx); case 2: return isl_val_nan(ctx); }
	switch (i % 3) {      // three independent ways of building the same value
	case 0: { isl_val *v = isl_val_read_from_str(ctx, l.t.c_str()); if (!v) fail("parse", l.t); return v; }
	case 1: return isl_val_from_gmp(ctx, mpq_numref(l.q.q), mpq_denref(l.q.q));
	default: return isl_val_div(isl_val_int_from_gmp(ctx, (mpz_ptr) mpq_numref(l.q.q)), isl_val_int_from_gmp(ctx, (mpz_ptr) mpq_denref(l.q.q))); }
}
// keeps v
static void same(const char *op, isl_val *v, const Q &w, const std::function<string()> &who) {
	note_transition();
	if (w.k == 3) { if (v) fail(cat(op, "|", who()), cat("accepted, giving ", mc::str(isl_val_to_str(v)))); if (!mc::take_error()) fail(cat(op, "|", who()), "no error recorded"); return; }
	if (!v) { mc::take_error(); fail(cat(op, "|", who()), "failed"); }
	bool ok; mpz_t z; mpz_init(z);
	if (isl_val_is_nan(v)) ok = w.k == 2; else if (isl_val_is_infty(v)) ok = w.k == 1; else if (isl_val_is_neginfty(v)) ok = w.k == -1;
	else { ok = w.k == 0 && isl_val_is_rat(v) == isl_bool_true; if (ok) { isl_val_get_num_gmp(v, z); ok = mpz_cmp(z, mpq_numref(w.q)) == 0; isl_val_get_den_gmp(v, z); ok = ok && mpz_cmp(z, mpq_denref(w.q)) == 0; } }
	mpz_clear(z);
	if (!ok) fail(cat(op, "|", who()), cat(mc::str(isl_val_to_str(v)), " instead of ", w.s()));
	note_validated();
}
struct Un { const char *n; isl_val *(*f)(isl_val *); Q (*m)(const Q &); };
static vector<Un> UN = {{"neg", isl_val_neg, [](const Q &a) { return neg(a); }}, {"abs", isl_val_abs, [](const Q &a) { return absq(a); }}, {"floor", isl_val_floor, [](const Q &a) { return rnd(a, 0); }}, {"ceil", isl_val_ceil, [](const Q &a) { return rnd(a, 1); }}, {"trunc", isl_val_trunc, [](const Q &a) { return rnd(a, 2); }}, {"inv", isl_val_inv, [](const Q &a) { return a.k == 2 ? a : a.k ? Q::si(0) : dv(Q::si(1), a); }}};
struct Bi { const char *n; isl_val *(*f)(isl_val *, isl_val *); Q (*m)(const Q &, const Q &); bool (*ok)(const Q &, const Q &); };
static bool any(const Q &, const Q &) { return true; }
static vector<Bi> BI = {{"add", isl_val_add, add, any}, {"sub", isl_val_sub, sub, any}, {"mul", isl_val_mul, mul, any}, {"div", isl_val_div, dv, any},
	{"min", isl_val_min, [](const Q &a, const Q &b) { return nn(a, b) ? NaN() : cmp(a, b) <= 0 ? a : b; }, any}, {"max", isl_val_max, [](const Q &a, const Q &b) { return nn(a, b) ? NaN() : cmp(a, b) >= 0 ? a : b; }, any},
	{"mod", isl_val_mod, modq, [](const Q &, const Q &b) { return !(b.fin() && b.sgn() == 0); }}, {"gcd", isl_val_gcd, gcdq, any}};
static void preds(isl_val *v, const Q &q, const std::function<string()> &who) {
	auto B = [&](const char *n, isl_bool b, bool w) { note_transition(); if (b != (w ? isl_bool_true : isl_bool_false)) fail(cat(n, "|", who()), cat((int) b, " for ", q.s())); };
	B("is_zero", isl_val_is_zero(v), q.fin() && q.sgn() == 0); B("is_one", isl_val_is_one(v), q.fin() && cmp(q, Q::si(1)) == 0); B("is_negone", isl_val_is_negone(v), q.fin() && cmp(q, Q::si(-1)) == 0);
	B("is_nonneg", isl_val_is_nonneg(v), q.k != 2 && q.sgn() >= 0); B("is_nonpos", isl_val_is_nonpos(v), q.k != 2 && q.sgn() <= 0); B("is_pos", isl_val_is_pos(v), q.sgn() > 0); B("is_neg", isl_val_is_neg(v), q.sgn() < 0);
	B("is_int", isl_val_is_int(v), q.isint()); B("is_rat", isl_val_is_rat(v), q.fin()); B("is_nan", isl_val_is_nan(v), q.k == 2); B("is_infty", isl_val_is_infty(v), q.k == 1); B("is_neginfty", isl_val_is_neginfty(v), q.k == -1);
	if (q.k != 2) { int s = isl_val_sgn(v); if (((s > 0) - (s < 0)) != q.sgn()) fail(cat("sgn|", who()), cat(s)); }
	for (long c : {0L, 1L, -1L, 2L, -7L, 2147483647L, -2147483648L, LONG_MAX, LONG_MIN}) {
		Q w = Q::si(c); B("gt_si", isl_val_gt_si(v, c), q.k != 2 && cmp(q, w) > 0); B("eq_si", isl_val_eq_si(v, c), q.k != 2 && cmp(q, w) == 0);
		if (q.k != 2) { int s = isl_val_cmp_si(v, c); if (((s > 0) - (s < 0)) != cmp(q, w)) fail(cat("cmp_si|", who()), cat(s, " against ", c)); }
	}
	note_validated();
}
static void cmps(isl_val *a, const Q &p, isl_val *b, const Q &q, const std::function<string()> &who) {
	auto B = [&](const char *n, isl_bool x, bool w) { note_transition(); if (x != (w ? isl_bool_true : isl_bool_false)) fail(cat(n, "|", who()), cat((int) x)); };
	bool ok = !nn(p, q); int c = ok ? cmp(p, q) : 0;
	B("lt", isl_val_lt(a, b), ok && c < 0); B("le", isl_val_le(a, b), ok && c <= 0); B("gt", isl_val_gt(a, b), ok && c > 0); B("ge", isl_val_ge(a, b), ok && c >= 0); B("eq", isl_val_eq(a, b), ok && c == 0); B("ne", isl_val_ne(a, b), ok && c != 0);
	B("abs_eq", isl_val_abs_eq(a, b), ok && cmp(absq(p), absq(q)) == 0);
	bool ints = p.isint() && q.isint(); note_transition(); isl_bool d = isl_val_is_divisible_by(a, b);
	if (!ints) { if (d != isl_bool_error) fail(cat("is_divisible_by|", who()), "accepted a non-integer"); mc::take_error(); }
	else if ((d == isl_bool_true) != (mpz_divisible_p(mpq_numref(p.q), mpq_numref(q.q)) != 0) || d == isl_bool_error) fail(cat("is_divisible_by|", who()), cat((int) d));
	note_validated();
}
static void item(int i, int op, int j) {          // v = L[i] op L[j], then everything once more
	isl_val *a = mk(i), *b = mk(j); const Q &p = L[i].q, &q = L[j].q; Q r; isl_val *v = nullptr; const char *nm = "";
	struct Fr { isl_val *&a, *&b, *&v; ~Fr() { isl_val_free(a); isl_val_free(b); isl_val_free(v); } } fr{a, b, v};
	auto who = [&] { return cat(L[i].t, " ", nm, " ", L[j].t); };
	if (op < (int) BI.size()) { auto &o = BI[op]; nm = o.n; if (!o.ok(p, q)) return; r = o.m(p, q); v = o.f(isl_val_copy(a), isl_val_copy(b)); same(o.n, v, r, who); }
	else { auto &o = UN[op - BI.size()]; nm = o.n; r = o.m(p); v = o.f(isl_val_copy(a)); same(o.n, v, r, who); if (r.k != 3) { Q r2 = add(r, q); isl_val *w = isl_val_add(v, isl_val_copy(b)); r = r2; v = w; same("un+add", v, r, who); } }
	same("left operand", a, p, who); same("right operand", b, q, who);
	if (!v) return;
	note_state(mc::hash_str(r.s()));
	preds(v, r, who); cmps(v, r, b, q, who); cmps(a, p, v, r, who);
	string t = mc::str(isl_val_to_str(v)); isl_val *w = isl_val_read_from_str(ctx, t.c_str()); struct F1 { isl_val *v; ~F1() { isl_val_free(v); } } f1{w}; same("print+parse", w, r, who);
	for (int k = 0; k < (int) L.size(); ++k) for (auto &o : BI) for (int side = 0; side < 2; ++side) {
		const Q &x = side ? L[k].q : r, &y = side ? r : L[k].q; if (!o.ok(x, y)) continue;
		isl_val *c = mk(k), *z = side ? o.f(c, isl_val_copy(v)) : o.f(isl_val_copy(v), c);
		struct F2 { isl_val *v; ~F2() { isl_val_free(v); } } f2{z};
		same(o.n, z, o.m(x, y), [&] { return cat(side ? L[k].t + " " : "", side ? o.n : "", " (", who(), ") ", side ? "" : o.n, side ? "" : " " + L[k].t); });
	}
	for (auto &o : UN) { isl_val *z = o.f(isl_val_copy(v)); struct F2 { isl_val *v; ~F2() { isl_val_free(v); } } f2{z}; same(o.n, z, o.m(r), [&] { return cat(o.n, "(", who(), ")"); }); }
	for (unsigned long u : {0ul, 1ul, 2ul, 7ul, 4294967296ul, ~0ul}) {
		Q w = Q::text(cat(u).c_str());
		auto U = [&](const char *n, isl_val *z, const Q &x) { struct F2 { isl_val *v; ~F2() { isl_val_free(v); } } f2{z}; same(n, z, x, [&] { return cat("(", who(), ") ", n, " ", u); }); };
		U("add_ui", isl_val_add_ui(isl_val_copy(v), u), add(r, w)); U("sub_ui", isl_val_sub_ui(isl_val_copy(v), u), sub(r, w)); U("mul_ui", isl_val_mul_ui(isl_val_copy(v), u), mul(r, w)); U("div_ui", isl_val_div_ui(isl_val_copy(v), u), dv(r, w));
	}
	same("value after use", v, r, who);
}
static void exotic(int i, int j) {                // conversions and gcdext
	isl_val *a = mk(i), *b = mk(j); const Q &p = L[i].q, &q = L[j].q; struct Fr { isl_val *&a, *&b; ~Fr() { isl_val_free(a); isl_val_free(b); } } fr{a, b};
	auto who = [&] { return cat(L[i].t, ", ", L[j].t); };
	isl_val *x = nullptr, *y = nullptr, *g = isl_val_gcdext(isl_val_copy(a), isl_val_copy(b), &x, &y); struct F1 { isl_val *&a, *&b, *&c; ~F1() { isl_val_free(a); isl_val_free(b); isl_val_free(c); } } f1{x, y, g};
	same("gcdext", g, gcdq(p, q), who);
	if (g) { isl_val *s = isl_val_add(isl_val_mul(isl_val_copy(x), isl_val_copy(a)), isl_val_mul(isl_val_copy(y), isl_val_copy(b))); struct F2 { isl_val *v; ~F2() { isl_val_free(v); } } f2{s}; same("gcdext combination", s, gcdq(p, q), who); if (!isl_val_is_int(x) || !isl_val_is_int(y)) fail(cat("gcdext|", who()), "cofactors are not integers"); }
	if (j == 0) {
		if (p.fin()) {
			isl_val *d = isl_val_get_den_val(a); Q dq; mpq_set_z(dq.q, mpq_denref(p.q)); struct F2 { isl_val *v; ~F2() { isl_val_free(v); } } f2{d}; same("get_den_val", d, dq, who);
			if (mpz_fits_slong_p(mpq_numref(p.q))) { if (isl_val_get_num_si(a) != mpz_get_si(mpq_numref(p.q))) fail(cat("get_num_si|", who()), "wrong"); } else { isl_val_get_num_si(a); if (!mc::take_error()) fail(cat("get_num_si|", who()), "truncated silently"); }
			if (mpz_fits_slong_p(mpq_denref(p.q))) { if (isl_val_get_den_si(a) != mpz_get_si(mpq_denref(p.q))) fail(cat("get_den_si|", who()), "wrong"); } else { isl_val_get_den_si(a); if (!mc::take_error()) fail(cat("get_den_si|", who()), "truncated silently"); }
			double dd = isl_val_get_d(a), ex = mpq_get_d(p.q); if (!(dd == ex || std::fabs(dd - ex) <= std::fabs(ex) * 4e-16)) fail(cat("get_d|", who()), cat(dd, " instead of ", ex));
			for (size_t sz : {size_t(1), size_t(2), size_t(3), size_t(4), size_t(7), size_t(8), size_t(16)}) {
				isl_size n = isl_val_n_abs_num_chunks(a, sz); mpz_t z; mpz_init(z); mpz_abs(z, mpq_numref(p.q)); size_t bits = mpz_sgn(z) ? mpz_sizeinbase(z, 2) : 0, want = (bits + 8 * sz - 1) / (8 * sz); if (!bits) want = n;
				if (n < 0 || (size_t) n != want) { mpz_clear(z); fail(cat("n_abs_num_chunks|", who()), cat(n, " chunks of ", sz)); }
				vector<unsigned char> buf(n * sz + 8, 0xa5);
				if (isl_val_get_abs_num_chunks(a, sz, buf.data()) < 0) fail(cat("get_abs_num_chunks|", who()), "error");
				for (int k = 0; k < 8; ++k) if (buf[n * sz + k] != 0xa5) fail(cat("get_abs_num_chunks|", who()), "wrote beyond the digits");
				isl_val *c = isl_val_int_from_chunks(ctx, n, sz, buf.data()); Q zq; mpq_set_z(zq.q, z); mpz_clear(z); struct F3 { isl_val *v; ~F3() { isl_val_free(v); } } f3{c}; same("chunks", c, zq, who);
			}
		} else { isl_val_get_num_si(a); if (!mc::take_error()) fail(cat("get_num_si|", who()), "no error"); isl_val_get_d(a); if (!mc::take_error()) fail(cat("get_d|", who()), "no error"); if (isl_val_n_abs_num_chunks(a, 4) >= 0) fail(cat("chunks|", who()), "no error"); mc::take_error(); isl_val *d = isl_val_get_den_val(a); if (d) fail("get_den_val", who()); mc::take_error(); }
		for (auto f : {isl_val_2exp, isl_val_pow2}) { Q w; bool small = p.isint() && mpz_cmpabs_ui(mpq_numref(p.q), 200) <= 0; if (!p.isint()) w = ERR(); else if (small) { w = Q::si(1); long e = mpz_get_si(mpq_numref(p.q)); if (e >= 0) mpq_mul_2exp(w.q, w.q, e); else mpq_div_2exp(w.q, w.q, -e); } else if (!mpz_fits_slong_p(mpq_numref(p.q)) && mpz_sizeinbase(mpq_numref(p.q), 2) > 64) w = ERR(); else continue; isl_val *c = f(isl_val_copy(a)); struct F3 { isl_val *v; ~F3() { isl_val_free(v); } } f3{c}; same("pow2", c, w, who); }
		for (long s : {0L, -5L, LONG_MAX}) { isl_val *c = isl_val_set_si(isl_val_copy(a), s); struct F3 { isl_val *v; ~F3() { isl_val_free(v); } } f3{c}; same("set_si", c, Q::si(s), who); }
		isl_val *one[] = {isl_val_zero(ctx), isl_val_one(ctx), isl_val_negone(ctx)}; for (int k = 0; k < 3; ++k) { struct F3 { isl_val *v; ~F3() { isl_val_free(v); } } f3{one[k]}; same("constants", one[k], Q::si(k == 2 ? -1 : k), who); }
	}
	// equal values hash alike however they were obtained
	isl_val *c = isl_val_add(isl_val_sub(isl_val_copy(a), isl_val_copy(b)), isl_val_copy(b)); struct F4 { isl_val *v; ~F4() { isl_val_free(v); } } f4{c};
	if (p.fin() && q.fin()) { same("a-b+b", c, p, who); if (isl_val_get_hash(c) != isl_val_get_hash(a)) fail(cat("hash|", who()), "differs for equal values"); }
	// as components of tuples
	isl_space *sp = isl_space_set_alloc(ctx, 0, 2);
	auto MVL = [&](const Q &, isl_val *u, isl_val *v) { isl_val_list *l = isl_val_list_alloc(ctx, 2); l = isl_val_list_add(l, isl_val_copy(u)); l = isl_val_list_add(l, isl_val_copy(v)); return isl_multi_val_from_val_list(isl_space_copy(sp), l); };
	isl_multi_val *m1 = MVL(p, a, b), *m2 = MVL(q, b, a);
	struct MO { const char *n; isl_multi_val *(*f)(isl_multi_val *, isl_multi_val *); Q (*m)(const Q &, const Q &); };
	static vector<MO> MOS = {{"multi add", isl_multi_val_add, add}, {"multi sub", isl_multi_val_sub, sub}, {"multi min", isl_multi_val_min, BI[4].m}, {"multi max", isl_multi_val_max, BI[5].m}};
	struct F5 { isl_multi_val *&a, *&b; isl_space *s; ~F5() { isl_multi_val_free(a); isl_multi_val_free(b); isl_space_free(s); } } f5{m1, m2, sp};
	auto comp = [&](const char *n, isl_multi_val *m, const Q &u, const Q &v) { struct F6 { isl_multi_val *m; ~F6() { isl_multi_val_free(m); } } f6{m}; for (int k = 0; k < 2; ++k) { isl_val *e = isl_multi_val_get_at(m, k); struct F7 { isl_val *v; ~F7() { isl_val_free(v); } } f7{e}; same(n, e, k ? v : u, who); } };
	for (auto &o : MOS) comp(o.n, o.f(isl_multi_val_copy(m1), isl_multi_val_copy(m2)), o.m(p, q), o.m(q, p));
	comp("multi neg", isl_multi_val_neg(isl_multi_val_copy(m1)), neg(p), neg(q));
	comp("multi add_val", isl_multi_val_add_val(isl_multi_val_copy(m1), isl_val_copy(b)), add(p, q), add(q, q));
	if (q.fin()) { comp("multi scale_val", isl_multi_val_scale_val(isl_multi_val_copy(m1), isl_val_copy(b)), mul(p, q), mul(q, q)); if (q.sgn() != 0) comp("multi scale_down_val", isl_multi_val_scale_down_val(isl_multi_val_copy(m1), isl_val_copy(b)), dv(p, q), dv(q, q)); }
	if (p.isint() && q.isint() && p.sgn() && q.sgn()) comp("multi mod", isl_multi_val_mod_multi_val(isl_multi_val_copy(m1), isl_multi_val_copy(m2)), modq(p, q), modq(q, p));
	if (q.fin() && p.fin()) comp("multi scale_multi", isl_multi_val_scale_multi_val(isl_multi_val_copy(m1), isl_multi_val_copy(m2)), mul(p, q), mul(q, p));
	if (q.fin() && p.fin() && p.sgn() && q.sgn()) comp("multi scale_down_multi", isl_multi_val_scale_down_multi_val(isl_multi_val_copy(m1), isl_multi_val_copy(m2)), dv(p, q), dv(q, p));
}
int main(int argc, char **argv) {
	mc::Harness h; h.property = "C13"; bool th = tier_thorough(argc, argv);
	for (const char *t : {"0", "1", "-1", "2", "-2", "3", "-3", "6", "12", "-7", "1/2", "-1/2", "3/2", "-7/3", "5/6", "2147483647", "-2147483647", "2147483648", "-2147483648", "-2147483649", "4294967296", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "-18446744073709551617", "2147483648/2147483647", "-1/4294967296", "340282366920938463463374607431768211456"}) L.push_back({t, Q::text(t)});
	if (th) for (const char *t : {"4", "5", "-5", "-6", "7", "10", "-12", "1/3", "-2/3", "7/2", "-9/4", "4/3", "65536", "-65536", "4294967295", "-4294967297", "18446744073709551615", "-9223372036854775807", "1/9223372036854775807", "-4611686018427387904/3", "3/18446744073709551616", "100000000000000000000000000000000000000000000001", "-99999999999999999999/100000000000000000001"}) L.push_back({t, Q::text(t)});
	for (int k : {1, -1, 2}) L.push_back({Q::kind(k).s(), Q::kind(k)});
	uint64_t n = L.size(), o = BI.size() + UN.size(); mc::Radix r{n, o, n};
	h.bounds["values"] = cat(n, " values of all magnitudes (below, at and above 32 and 64 bit limits), infinities, NaN");
	h.bounds["depth"] = cat("all expressions a op b and all (a op b) op' c and c op' (a op b) for ", BI.size(), " binary and ", UN.size(), " unary operations");
	h.add(mc::SpaceDef("expr", r.size(), [=](uint64_t i) { auto d = r.at(i); item(d[0], d[1], d[2]); }, [=](uint64_t i) { auto d = r.at(i); return cat(L[d[0]].t, " op", d[1], " ", L[d[2]].t); }));
	h.add(mc::SpaceDef("conversions", n * n, [=](uint64_t i) { exotic(i / n, i % n); }, [=](uint64_t i) { return cat(L[i / n].t, ", ", L[i % n].t); }));
	return mc::run(argc, argv, h);
}
