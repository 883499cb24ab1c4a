#include "model.hpp"
namespace mdl {

static bool normalize_eq(std::vector<I> &r, bool &infeas) {
	I g = 0; for (size_t i = 1; i < r.size(); ++i) g = gcdll(g, r[i]);
	if (g == 0) { if (r[0] != 0) infeas = true; return false; }
	if (r[0] % g) { infeas = true; return false; }
	for (auto &x : r) x /= g;
	return true;
}
static bool normalize_ineq(std::vector<I> &r, bool &infeas) {
	I g = 0; for (size_t i = 1; i < r.size(); ++i) g = gcdll(g, r[i]);
	if (g == 0) { if (r[0] < 0) infeas = true; return false; }
	for (size_t i = 1; i < r.size(); ++i) r[i] /= g;
	r[0] = fdiv(r[0], g);
	return true;
}
static void subst_col(std::vector<I> &r, int col, const std::vector<I> &by /* row giving var = by (col entry 0) */) {
	I f = r[col]; if (!f) return;
	r[col] = 0;
	for (size_t i = 0; i < r.size(); ++i) r[i] = add(r[i], mul(f, by[i]));
}
static void drop_col(std::vector<std::vector<I>> &m, int col) { for (auto &r : m) r.erase(r.begin() + col); }

// rational bounds of variable col (1-based column) through Fourier-Motzkin on the others
static bool fm_bounds(std::vector<std::vector<I>> q, int k, int col, bool &haslo, I &lo, bool &hashi, I &hi, bool &infeas) {
	for (int c = k; c >= 1; --c) {
		if (c == col) continue;
		std::vector<std::vector<I>> nq, pos, neg;
		for (auto &r : q) { if (r[c] > 0) pos.push_back(r); else if (r[c] < 0) neg.push_back(r); else nq.push_back(r); }
		for (auto &p : pos) for (auto &n : neg) {
			std::vector<I> r(p.size());
			for (size_t i = 0; i < r.size(); ++i) r[i] = add(mul(p[i], -n[c]), mul(n[i], p[c]));
			// rational normalisation only (keep exactness)
			I g = 0; for (auto x : r) g = gcdll(g, x);
			if (g > 1) for (auto &x : r) x /= g;
			nq.push_back(r);
		}
		if (nq.size() > 4000) return false;
		q.swap(nq);
	}
	haslo = hashi = false; infeas = false;
	for (auto &r : q) {
		if (r[col] > 0) { I b = cdiv(-r[0], r[col]); if (!haslo || b > lo) lo = b; haslo = true; }
		else if (r[col] < 0) { I b = fdiv(r[0], -r[col]); if (!hashi || b < hi) hi = b; hashi = true; }
		else if (r[0] < 0) infeas = true;
	}
	return true;
}

Feas feasible(std::vector<std::vector<I>> eq, std::vector<std::vector<I>> ineq, int k) {
	bool inf = false;
	for (;;) {
		std::vector<std::vector<I>> e2, i2;
		for (auto &r : eq) { if (normalize_eq(r, inf)) e2.push_back(r); if (inf) return INFEAS; }
		for (auto &r : ineq) { if (normalize_ineq(r, inf)) i2.push_back(r); if (inf) return INFEAS; }
		eq.swap(e2); ineq.swap(i2);
		if (eq.empty()) break;
		// eliminate one equality
		std::vector<I> r = eq.back();
		int best = -1;
		for (int c = 1; c <= k; ++c) if (r[c] && (best < 0 || iabs(r[c]) < iabs(r[best]))) best = c;
		I a = r[best];
		if (a == 1 || a == -1) {
			eq.pop_back();
			std::vector<I> by(r.size());
			for (size_t i = 0; i < r.size(); ++i) by[i] = a == 1 ? -r[i] : r[i];
			by[best] = 0;
			for (auto &q : eq) subst_col(q, best, by);
			for (auto &q : ineq) subst_col(q, best, by);
			drop_col(eq, best); drop_col(ineq, best); --k;
		} else {
			// x_best = t - sum floor(r_i / a) x_i  (unimodular change of variable)
			std::vector<I> by(r.size(), 0);
			for (size_t i = 1; i < r.size(); ++i) if ((int) i != best) by[i] = -fdiv(r[i], a);
			by[best] = 1;
			for (auto &q : eq) { I f = q[best]; if (f) for (size_t i = 1; i < q.size(); ++i) if ((int) i != best) q[i] = add(q[i], mul(f, by[i])); }
			for (auto &q : ineq) { I f = q[best]; if (f) for (size_t i = 1; i < q.size(); ++i) if ((int) i != best) q[i] = add(q[i], mul(f, by[i])); }
		}
	}
	if (k == 0) return FEAS;
	if (ineq.empty()) return FEAS;
	// drop variables that occur with one sign only and unit freedom is not guaranteed in general,
	// but a variable unbounded in one direction can always satisfy all its constraints
	for (int c = 1; c <= k; ++c) {
		bool p = false, n = false;
		for (auto &r : ineq) { p |= r[c] > 0; n |= r[c] < 0; }
		if (p && n) continue;
		std::vector<std::vector<I>> i2;
		for (auto &r : ineq) if (!r[c]) i2.push_back(r);
		drop_col(i2, c);
		return feasible({}, i2, k - 1);
	}
	int bc = -1; I blo = 0, bhi = 0; bool unb = false;
	for (int c = 1; c <= k; ++c) {
		bool hl, hh, inf2; I lo = 0, hi = 0;
		if (!fm_bounds(ineq, k, c, hl, lo, hh, hi, inf2)) return UNKNOWN;
		if (inf2) return INFEAS;
		if (hl && hh) { if (lo > hi) return INFEAS; if (bc < 0 || hi - lo < bhi - blo) { bc = c; blo = lo; bhi = hi; } }
		else unb = true;
	}
	if (k == 1 && bc > 0) return FEAS;
	if (k == 1 && unb) return FEAS;   // one-sided bound on a single variable
	bool capped = false;
	if (bc < 0) { bc = 1; bool hl, hh, i2; I lo = 0, hi = 0; fm_bounds(ineq, k, 1, hl, lo, hh, hi, i2);
		if (hl) { blo = lo; bhi = lo + 60; } else if (hh) { bhi = hi; blo = hi - 60; } else { blo = -60; bhi = 60; } capped = true; }
	else if (bhi - blo > 400) { I mid = 0; if (mid < blo || mid > bhi) mid = (blo + bhi) / 2; blo = std::max(blo, mid - 200); bhi = std::min(bhi, mid + 200); capped = true; }
	bool unk = capped;
	for (I v = blo; v <= bhi; ++v) {
		std::vector<std::vector<I>> i2 = ineq;
		for (auto &r : i2) r[0] = add(r[0], mul(r[bc], v));
		drop_col(i2, bc);
		Feas f = feasible({}, i2, k - 1);
		if (f == FEAS) return FEAS;
		if (f == UNKNOWN) unk = true;
	}
	return unk ? UNKNOWN : INFEAS;
}

Feas rat_feasible(std::vector<std::vector<I>> eq, std::vector<std::vector<I>> q, int k) {
	auto norm = [](std::vector<I> &r) { I g = 0; for (auto x : r) g = gcdll(g, x); if (g > 1) for (auto &x : r) x /= g; };
	// equalities: substitute
	while (!eq.empty()) {
		std::vector<I> r = eq.back(); eq.pop_back(); int c = 0;
		for (int j = 1; j <= k; ++j) if (r[j]) { c = j; break; }
		if (!c) { if (r[0]) return INFEAS; continue; }
		if (r[c] < 0) for (auto &x : r) x = -x;
		auto el = [&](std::vector<I> &s) { I f = s[c]; if (!f) return; for (size_t j = 0; j < s.size(); ++j) s[j] = add(mul(s[j], r[c]), -mul(r[j], f)); norm(s); };
		for (auto &s : eq) el(s);
		for (auto &s : q) el(s);
	}
	for (int c = 1; c <= k; ++c) {
		std::vector<std::vector<I>> nq, pos, neg;
		for (auto &r : q) { if (r[c] > 0) pos.push_back(r); else if (r[c] < 0) neg.push_back(r); else nq.push_back(r); }
		for (auto &p : pos) for (auto &n : neg) {
			std::vector<I> r(p.size());
			for (size_t i = 0; i < r.size(); ++i) r[i] = add(mul(p[i], -n[c]), mul(n[i], p[c]));
			norm(r); nq.push_back(r);
		}
		std::sort(nq.begin(), nq.end()); nq.erase(std::unique(nq.begin(), nq.end()), nq.end());
		if (nq.size() > 3000) return UNKNOWN;
		q.swap(nq);
	}
	for (auto &r : q) if (r[0] < 0) return INFEAS;
	return FEAS;
}

static bool eval_div(const Div &d, int nv, const I *x, const std::vector<I> &dv, I &out) {
	// common denominator evaluation
	i128 num = d.c.n, den = d.c.d;
	auto add = [&](const Rat &r, I v) {
		if (!r.n || !v) return;
		if (r.d == (I) den) { num += (i128) r.n * v; return; }
		i128 nn = num * r.d + (i128) r.n * v * den; i128 nd = den * r.d;
		i128 a = nn < 0 ? -nn : nn, b = nd; while (b) { i128 t = a % b; a = b; b = t; }
		if (a > 1) { nn /= a; nd /= a; }
		num = nn; den = nd;
	};
	for (int i = 0; i < nv; ++i) add(d.coef[i], x[i]);
	for (size_t i = nv; i < d.coef.size() && i - nv < dv.size(); ++i) add(d.coef[i], dv[i - nv]);
	out = fdiv(num, den);
	return true;
}

bool eval_divs(const std::vector<Div> &divs, int nv, const I *x, std::vector<I> &out) {
	out.clear();
	for (auto &d : divs) {
		if (!d.known) return false;
		I v; eval_div(d, nv, x, out, v); out.push_back(v);
	}
	return true;
}

Feas contains_f(const Basic &b, const I *x) {
	bool allknown = true;
	for (auto &d : b.divs) allknown &= d.known;
	if (allknown) {
		I dvs[32]; std::vector<I> dv;
		if (b.nd) { eval_divs(b.divs, b.nv, x, dv); for (int i = 0; i < b.nd && i < 32; ++i) dvs[i] = dv[i]; }
		auto ev = [&](const std::vector<I> &r) {
			i128 s = r[0];
			for (int i = 0; i < b.nv; ++i) s += (i128) r[1 + i] * x[i];
			for (int i = 0; i < b.nd; ++i) s += (i128) r[1 + b.nv + i] * dvs[i];
			return s;
		};
		for (auto &r : b.eq) if (ev(r) != 0) return INFEAS;
		for (auto &r : b.ineq) if (ev(r) < 0) return INFEAS;
		return FEAS;
	}
	// existential: known divs become constrained unknowns as well
	std::vector<std::vector<I>> eq, ineq;
	auto conv = [&](const std::vector<I> &r) {
		std::vector<I> q(1 + b.nd);
		i128 s = r[0];
		for (int i = 0; i < b.nv; ++i) s += (i128) r[1 + i] * x[i];
		q[0] = s;
		for (int i = 0; i < b.nd; ++i) q[1 + i] = r[1 + b.nv + i];
		return q;
	};
	for (auto &r : b.eq) eq.push_back(conv(r));
	for (auto &r : b.ineq) ineq.push_back(conv(r));
	for (int k = 0; k < b.nd; ++k) {
		const Div &d = b.divs[k];
		if (!d.known) continue;
		// m e <= f < m e + m  with f = sum over common denominator m
		i128 m = d.c.d; for (auto &c : d.coef) { I g = gcdll(m, c.d); m = m / g * c.d; }
		std::vector<I> lo(1 + b.nd), hi(1 + b.nd);
		i128 s = (i128) d.c.n * (m / d.c.d);
		for (int i = 0; i < b.nv; ++i) s += (i128) d.coef[i].n * (m / d.coef[i].d) * x[i];
		lo[0] = s; hi[0] = -s + m - 1;
		for (int i = 0; i < b.nd && b.nv + i < (int) d.coef.size(); ++i) { I v = (d.coef[b.nv + i].n * (m / d.coef[b.nv + i].d)); lo[1 + i] = v; hi[1 + i] = -v; }
		lo[1 + k] -= (I) m; hi[1 + k] += (I) m;
		ineq.push_back(lo); ineq.push_back(hi);
	}
	return feasible(eq, ineq, b.nd);
}

// 64-bit evaluation when all coefficients and points are small and all divisions known
void bits_basic(const Basic &b, const Window &w, Bits &r) {
	const int MAXD = 16;
	bool fast = b.nd <= MAXD;
	const I LIM = (I) 1 << 24;
	for (auto &d : b.divs) fast &= d.known;
	std::vector<ll> rows, dv; int neq = b.eq.size(), nin = b.ineq.size(), nv = b.nv, nd = b.nd, wd = 1 + nv + nd;
	for (int t = 0; fast && t < 2; ++t) for (auto &q : t ? b.ineq : b.eq) for (auto &c : q) { if (c > LIM || c < -LIM) { fast = false; break; } rows.push_back((ll) c); }
	for (auto &d : b.divs) {
		if (!fast) break;
		I m = d.c.d; for (auto &c : d.coef) m = m / gcdll(m, c.d) * c.d;
		if (m > 4096) { fast = false; break; }
		dv.push_back((ll) m); auto put = [&](const Rat &c) { I v = c.n * (m / c.d); if (iabs(v) > LIM) fast = false; dv.push_back((ll) v); };
		put(d.c); for (int i = 0; i < nv + nd; ++i) put(i < (int) d.coef.size() ? d.coef[i] : Rat());
	}
	if (fast) for (I x : w.pts) if (iabs(x) > LIM) { fast = false; break; }
	if (!fast) { for (int i = 0; i < w.count; ++i) if (!bit(r, i) && contains(b, w.at(i))) setbit(r, i); return; }
	ll x[64];
	if (nv > 40) throw Overflow();
	for (int i = 0; i < w.count; ++i) {
		if (bit(r, i)) continue;
		const I *pt = w.at(i); bool ok = true;
		for (int j = 0; j < nv; ++j) x[j] = (ll) pt[j];
		const ll *d = dv.data();
		bool wide = false;
		for (int k = 0; k < nd; ++k, d += 2 + nv + nd) {
			ll s = d[1]; for (int j = 0; j < nv + k; ++j) s += d[2 + j] * x[j];
			ll q = s / d[0]; if (s % d[0] < 0) --q; x[nv + k] = q;
			if (q > (1ll << 34) || q < -(1ll << 34)) wide = true;
		}
		if (wide) { if (contains(b, pt)) setbit(r, i); continue; }
		const ll *q = rows.data();
		for (int k = 0; ok && k < neq + nin; ++k, q += wd) {
			ll s = q[0]; for (int j = 0; j < nv + nd; ++j) s += q[1 + j] * x[j];
			ok = k < neq ? s == 0 : s >= 0;
		}
		if (ok) setbit(r, i);
	}
}

// numerator/denominator of a rational value as a wide integer
static bool err() { if (isl_ctx_last_error(mc::ctx) == isl_error_none) return false; isl_ctx_reset_error(mc::ctx); return true; }
static I wide_num(isl_val *v) {   // keeps v
	err();
	I r = isl_val_get_num_si(v);
	if (!err()) return r;
	bool neg = isl_val_is_neg(v) == isl_bool_true;
	int n = isl_val_n_abs_num_chunks(v, 8);
	if (n > 2 || n < 1) throw Overflow();
	uint64_t c[2] = {0, 0};
	isl_val_get_abs_num_chunks(v, 8, c);
	if (c[1] >> 61) throw Overflow();
	r = ((I) c[1] << 64) | c[0];
	return neg ? -r : r;
}
I int_from_val(isl_val *v) {
	if (!v || !isl_val_is_int(v)) { isl_val_free(v); throw Overflow(); }
	I r;
	try { r = wide_num(v); } catch (Overflow &) { isl_val_free(v); throw; }
	isl_val_free(v);
	return r;
}
static I get_ll(isl_mat *m, int i, int j) { return int_from_val(isl_mat_get_element_val(m, i, j)); }

Rat rat_from_val(isl_val *v) {
	if (!v || !isl_val_is_rat(v)) { isl_val_free(v); throw Overflow(); }
	Rat r;
	try {
		r.n = wide_num(v);
		if (isl_val_is_int(v)) r.d = 1; else {
		isl_val *d = isl_val_get_den_val(v);
		r.d = int_from_val(d); }
	} catch (Overflow &) { isl_val_free(v); throw; }
	isl_val_free(v);
	return r;
}

static void read_aff_core(isl_aff *a, int nv, Rat &c, std::vector<Rat> &coef, int nd) {
	c = rat_from_val(isl_aff_get_constant_val(a));
	int np = isl_aff_dim(a, isl_dim_param), ni = isl_aff_dim(a, isl_dim_in);
	coef.assign(nv + nd, Rat());
	for (int i = 0; i < np; ++i) coef[i] = rat_from_val(isl_aff_get_coefficient_val(a, isl_dim_param, i));
	for (int i = 0; i < ni; ++i) coef[np + i] = rat_from_val(isl_aff_get_coefficient_val(a, isl_dim_in, i));
	for (int i = 0; i < nd; ++i) coef[nv + i] = rat_from_val(isl_aff_get_coefficient_val(a, isl_dim_div, i));
}

Basic read_basic_map(isl_basic_map *bmap) {
	Basic b;
	int np = isl_basic_map_dim(bmap, isl_dim_param), ni = isl_basic_map_dim(bmap, isl_dim_in), no = isl_basic_map_dim(bmap, isl_dim_out);
	b.nd = isl_basic_map_dim(bmap, isl_dim_div);
	b.nv = np + ni + no;
	if (isl_ctx_last_error(mc::ctx) != isl_error_none) isl_ctx_reset_error(mc::ctx);
	for (int t = 0; t < 2; ++t) {
		isl_mat *m = t ? isl_basic_map_inequalities_matrix(bmap, isl_dim_cst, isl_dim_param, isl_dim_in, isl_dim_out, isl_dim_div)
		               : isl_basic_map_equalities_matrix(bmap, isl_dim_cst, isl_dim_param, isl_dim_in, isl_dim_out, isl_dim_div);
		int n = isl_mat_rows(m), c = isl_mat_cols(m);
		if (c != 1 + b.nv + b.nd) mc::fail("reader", mc::cat("constraint matrix has ", c, " columns"));
		auto &dst = t ? b.ineq : b.eq;
		dst.resize(n);
		for (int i = 0; i < n; ++i) { dst[i].resize(c); for (int j = 0; j < c; ++j) try { dst[i][j] = get_ll(m, i, j); } catch (Overflow &) { isl_mat_free(m); throw; } }
		isl_mat_free(m);
	}
	if (isl_ctx_last_error(mc::ctx) != isl_error_none) { isl_ctx_reset_error(mc::ctx); throw Overflow(); }
	if (b.nd) {
		isl_local_space *ls = isl_basic_map_get_local_space(bmap);
		isl_space *sp = isl_local_space_get_space(ls);
		if (!isl_space_is_set(sp)) ls = isl_local_space_wrap(ls);
		isl_space_free(sp);
		b.divs.resize(b.nd);
		std::vector<isl_aff *> affs(b.nd);
		std::vector<int> kn;
		for (int k = 0; k < b.nd; ++k) {
			affs[k] = isl_local_space_get_div(ls, k);
			b.divs[k].known = affs[k] != 0;
			if (affs[k]) kn.push_back(k); else isl_ctx_reset_error(mc::ctx);
		}
		isl_local_space_free(ls);
		bool bad = false;
		for (int k = 0; k < b.nd; ++k) {
			if (!affs[k]) continue;
			Div &d = b.divs[k];
			try {
				std::vector<Rat> co; int nd = isl_aff_dim(affs[k], isl_dim_div);
				if (nd != b.nd && nd != (int) kn.size()) throw Overflow();
				read_aff_core(affs[k], b.nv, d.c, co, nd);
				d.coef.assign(b.nv + b.nd, Rat());
				for (int i = 0; i < b.nv; ++i) d.coef[i] = co[i];
				for (int i = 0; i < nd; ++i) d.coef[b.nv + (nd == b.nd ? i : kn[i])] = co[b.nv + i];
			} catch (Overflow &) { bad = true; }
			isl_aff_free(affs[k]);
		}
		if (bad) throw Overflow();
	}
	return b;
}

Pts read_map(isl_map *m) {
	Pts p;
	p.np = isl_map_dim(m, isl_dim_param); p.ni = isl_map_dim(m, isl_dim_in); p.no = isl_map_dim(m, isl_dim_out);
	bool ov = false;
	struct U { Pts *p; bool *ov; } u{&p, &ov};
	if (isl_map_foreach_basic_map(m, [](isl_basic_map *b, void *us) {
		U *u = (U *) us;
		try { u->p->b.push_back(read_basic_map(b)); } catch (Overflow &) { *u->ov = true; }
		isl_basic_map_free(b); return isl_stat_ok; }, &u) < 0) mc::fail("null", "foreach_basic_map failed (NULL result?)");
	if (ov) throw Overflow();
	return p;
}

Aff read_aff(isl_aff *a) {
	Aff r;
	if (!a) mc::fail("null", "NULL affine expression");
	if (isl_aff_is_nan(a)) { r.nan = true; return r; }
	r.nv = isl_aff_dim(a, isl_dim_param) + isl_aff_dim(a, isl_dim_in);
	int nd = isl_aff_dim(a, isl_dim_div);
	read_aff_core(a, r.nv, r.c, r.coef, nd);
	for (int k = 0; k < nd; ++k) {
		isl_aff *d = isl_aff_get_div(a, k);
		Div dv; dv.known = true;
		read_aff_core(d, r.nv, dv.c, dv.coef, nd);
		isl_aff_free(d);
		r.divs.push_back(dv);
	}
	return r;
}
Rat eval(const Aff &a, const I *x) {
	std::vector<I> dv; eval_divs(a.divs, a.nv, x, dv);
	Rat r = a.c;
	for (int i = 0; i < a.nv; ++i) if (a.coef[i].n) r = r + a.coef[i] * Rat(x[i]);
	for (size_t i = 0; i < dv.size(); ++i) if (a.coef[a.nv + i].n) r = r + a.coef[a.nv + i] * Rat(dv[i]);
	return r;
}
PwAff read_pw_aff(isl_pw_aff *a) {
	PwAff r; bool ov = false;
	struct U { PwAff *r; bool *ov; } u{&r, &ov};
	if (isl_pw_aff_foreach_piece(a, [](isl_set *s, isl_aff *f, void *us) {
		U *u = (U *) us;
		try { u->r->p.push_back({read_set(s), read_aff(f)}); } catch (Overflow &) { *u->ov = true; }
		isl_set_free(s); isl_aff_free(f); return isl_stat_ok; }, &u) < 0) mc::fail("null", "pw_aff_foreach_piece failed (NULL result?)");
	if (ov) throw Overflow();
	return r;
}
int eval(const PwAff &a, const I *x, Rat &r) {
	int n = 0;
	for (auto &p : a.p) if (contains(p.first, x)) {
		if (p.second.nan) throw Overflow();
		Rat v = eval(p.second, x);
		if (n && v != r) mc::fail("pieces", "overlapping pieces with different values");
		r = v; ++n;
	}
	return n;
}
PMA read_pma(isl_pw_multi_aff *a) {
	PMA r; bool ov = false;
	struct U { PMA *r; bool *ov; } u{&r, &ov};
	if (isl_pw_multi_aff_foreach_piece(a, [](isl_set *s, isl_multi_aff *f, void *us) {
		U *u = (U *) us;
		try {
			std::vector<Aff> v; int n = isl_multi_aff_dim(f, isl_dim_out);
			for (int i = 0; i < n; ++i) { isl_aff *e = isl_multi_aff_get_aff(f, i); v.push_back(read_aff(e)); isl_aff_free(e); }
			u->r->p.push_back({read_set(s), v});
		} catch (Overflow &) { *u->ov = true; }
		isl_set_free(s); isl_multi_aff_free(f); return isl_stat_ok; }, &u) < 0) mc::fail("null", "pw_multi_aff_foreach_piece failed (NULL result?)");
	if (ov) throw Overflow();
	return r;
}
int eval(const PMA &a, const I *x, std::vector<Rat> &r) {
	int n = 0;
	for (auto &p : a.p) if (contains(p.first, x)) {
		std::vector<Rat> v; for (auto &f : p.second) { if (f.nan) throw Overflow(); v.push_back(eval(f, x)); }
		if (n && v != r) mc::fail("pieces", "overlapping pieces with different values");
		r = v; ++n;
	}
	return n;
}

std::string show(const Window &w, const Bits &got, const Bits &want) {
	std::string s; int k = 0;
	for (int i = 0; i < w.count && k < 4; ++i) if (bit(got, i) != bit(want, i)) {
		s += k ? " (" : "("; for (int j = 0; j < w.n; ++j) s += (j ? "," : "") + S(w.at(i)[j]);
		s += bit(got, i) ? "):extra" : "):missing"; ++k;
	}
	return s;
}

std::string basic_text(const Basic &b, const std::vector<std::string> &names) {
	std::string o; bool first = true;
	auto row = [&](const std::vector<I> &r) {
		std::string t; bool any = false;
		auto nm = [&](int i) { return i < b.nv ? names[i] : "e" + std::to_string(i - b.nv); };
		for (int i = 1; i < (int) r.size(); ++i) if (r[i]) {
			if (any) t += r[i] < 0 ? " - " : " + "; else if (r[i] < 0) t += "-";
			I a = iabs(r[i]); if (a != 1) t += S(a);
			t += nm(i - 1); any = true;
		}
		if (!any) return S(r[0]);
		if (r[0]) t += (r[0] < 0 ? " - " : " + ") + S(iabs(r[0]));
		return t;
	};
	for (auto &r : b.eq) { o += (first ? "" : " and ") + row(r) + " = 0"; first = false; }
	for (auto &r : b.ineq) { o += (first ? "" : " and ") + row(r) + " >= 0"; first = false; }
	if (b.nd) {
		std::string e = "exists ("; for (int i = 0; i < b.nd; ++i) e += (i ? ", e" : "e") + std::to_string(i);
		o = e + ": " + (first ? "true" : o) + ")";
	}
	return o;
}
} // namespace mdl
