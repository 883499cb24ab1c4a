// C07: parametric lexicographic optimisation against enumeration of the window.
#include "common.hpp"
struct Opt { Bits mn, mx; vector<int> amin, amax; Bits dom; };   // per domain point: window index of the optimum (-1: none)
struct Rel {   // alphabet seen as relations with k leading coordinates as the domain (np params, rest in)
	Alpha *A; int k; Window dw; vector<Opt> o;
	Rel(Alpha *a, int k_) : A(a), k(k_) {
		std::map<vector<I>, int> id; const Window &w = A->w; vector<int> grp(w.count);
		vector<I> pts; int c = 0;
		for (int i = 0; i < w.count; ++i) { vector<I> q(w.at(i), w.at(i) + k); auto it = id.find(q); if (it == id.end()) { it = id.emplace(q, c++).first; pts.insert(pts.end(), q.begin(), q.end()); } grp[i] = it->second; }
		dw.n = k; dw.count = c; dw.pts = pts;
		for (size_t s = 0; s < A->size(); ++s) {
			Opt x; x.mn = x.mx = bzero(w.count); x.amin.assign(c, -1); x.amax.assign(c, -1); x.dom = bzero(c);
			for (int i = 0; i < w.count; ++i) if (bit(A->b[s], i)) { int g = grp[i]; if (x.amin[g] < 0) x.amin[g] = i; x.amax[g] = i; }   // the window is enumerated lexicographically
			for (int g = 0; g < c; ++g) if (x.amin[g] >= 0) { setbit(x.mn, x.amin[g]); setbit(x.mx, x.amax[g]); setbit(x.dom, g); }
			o.push_back(x);
		}
	}
};
static void pma_check(const string &op, isl_pw_multi_aff *p, const Rel &R, const vector<int> &arg, const Bits *only, const string &who) {
	note_transition(); const Window &w = R.A->w, &d = R.dw; string bad;
	if (!p) { mc::take_error(); fail(cat(op, "|", who), "NULL"); }
	try {
		PMA m = read_pma(p); vector<Rat> v;
		for (int g = 0; g < d.count && bad.empty(); ++g) {
			int n = eval(m, d.at(g), v), a = only && !bit(*only, g) ? -1 : arg[g];
			if ((n > 0) != (a >= 0)) bad = cat(n ? "defined" : "undefined", " at domain point ", g, a >= 0 ? " with a solution" : " without a solution");
			else if (a >= 0) for (int j = 0; j < w.n - R.k; ++j) if (v[j] != Rat(w.at(a)[R.k + j])) bad = cat("value ", v[j].s(), " of output ", j, " instead of ", S(w.at(a)[R.k + j]));
			if (!bad.empty()) for (int j = 0; j < R.k; ++j) bad += " @" + S(d.at(g)[j]);
		}
		note_state(mc::hash_mix(hash_bits(R.o[0].dom), m.p.size()));
	} catch (Overflow &) { note_outcome("inconclusive"); }
	catch (mc::Violation &v) { bad = v.msg; }
	if (!bad.empty()) bad += " in " + mc::str(isl_pw_multi_aff_to_str(p));
	isl_pw_multi_aff_free(p);
	if (!bad.empty()) fail(cat(op, "|", who), bad);
	note_validated();
}
static void pa_check(const string &op, isl_pw_aff *p, const Rel &R, size_t s, int pos, bool mx, const string &who) {
	note_transition(); const Window &w = R.A->w, &d = R.dw; string bad;
	if (!p) { mc::take_error(); fail(cat(op, "|", who), "NULL"); }
	std::map<int, I> ext;
	std::map<vector<I>, int> id = index_of(d);
	for (int i = 0; i < w.count; ++i) if (bit(R.A->b[s], i)) { int g = id[vector<I>(w.at(i), w.at(i) + R.k)]; I v = w.at(i)[R.k + pos]; auto it = ext.find(g); if (it == ext.end()) ext[g] = v; else if (mx ? v > it->second : v < it->second) it->second = v; }
	try {
		PwAff m = read_pw_aff(p); Rat v;
		for (int g = 0; g < d.count && bad.empty(); ++g) {
			int n = eval(m, d.at(g), v); auto it = ext.find(g);
			if ((n > 0) != (it != ext.end())) bad = n ? "defined without a solution" : "undefined although there is a solution";
			else if (n && v != Rat(it->second)) bad = cat("value ", v.s(), " instead of ", S(it->second));
			if (!bad.empty()) for (int j = 0; j < R.k; ++j) bad += " @" + S(d.at(g)[j]);
		}
	} catch (Overflow &) { note_outcome("inconclusive"); }
	catch (mc::Violation &v) { bad = v.msg; }
	if (!bad.empty()) bad += " in " + mc::str(isl_pw_aff_to_str(p));
	isl_pw_aff_free(p);
	if (!bad.empty()) fail(cat(op, "|", who), bad);
	note_validated();
}
// sub(g): flattening of maps into sets keeps the coordinate order, so relation results are compared on the same window
static isl_set *W(isl_map *m) { return isl_set_flatten(isl_map_wrap(m)); }
static isl_pw_multi_aff *mpa(isl_multi_pw_aff *m) { return isl_pw_multi_aff_from_multi_pw_aff(m); }
static void full(Rel &R, size_t i, bool more) {
	Alpha &A = *R.A; const Window &w = A.w; const Opt &o = R.o[i]; int ni = R.k - A.np; string who = A.text(i);
	if (!ni) {
		isl_set *s = A.set(i);
		expect_set("set_lexmin", isl_set_lexmin(isl_set_copy(s)), w, o.mn, who); expect_set("set_lexmax", isl_set_lexmax(isl_set_copy(s)), w, o.mx, who);
		pma_check("set_lexmin_pma", isl_set_lexmin_pw_multi_aff(isl_set_copy(s)), R, o.amin, 0, who); pma_check("set_lexmax_pma", isl_set_lexmax_pw_multi_aff(isl_set_copy(s)), R, o.amax, 0, who);
		if (isl_basic_set *b = A.basic(i)) { expect_set("bset_lexmin", isl_basic_set_lexmin(isl_basic_set_copy(b)), w, o.mn, who); expect_set("bset_lexmax", isl_basic_set_lexmax(b), w, o.mx, who); }
		for (int p = 0; p < w.n - R.k; ++p) { pa_check(cat("set_dim_min", p), isl_set_dim_min(isl_set_copy(s), p), R, i, p, false, who); pa_check(cat("set_dim_max", p), isl_set_dim_max(isl_set_copy(s), p), R, i, p, true, who); }
		// every output has its own extreme
		isl_multi_pw_aff *mn = isl_set_min_multi_pw_aff(isl_set_copy(s)), *mx = isl_set_max_multi_pw_aff(isl_set_copy(s));
		for (int p = 0; p < w.n - R.k; ++p) { pa_check(cat("set_min_mpa", p), isl_multi_pw_aff_get_at(mn, p), R, i, p, false, who); pa_check(cat("set_max_mpa", p), isl_multi_pw_aff_get_at(mx, p), R, i, p, true, who); }
		isl_multi_pw_aff_free(mn); isl_multi_pw_aff_free(mx);
		if (more) {
			isl_union_set *u = isl_union_set_from_set(isl_set_set_tuple_name(isl_set_copy(s), "S")), *v = isl_union_set_from_set(isl_set_set_tuple_name(isl_set_copy(s), "T"));
			u = isl_union_set_union(u, v);
			isl_union_set *un = isl_union_set_lexmin(isl_union_set_copy(u)), *ux = isl_union_set_lexmax(u);
			for (auto t : {"S", "T"}) { isl_space *sp = isl_space_set_tuple_name(isl_set_get_space(s), isl_dim_set, t); expect_set("uset_lexmin", isl_union_set_extract_set(un, isl_space_copy(sp)), w, o.mn, who); expect_set("uset_lexmax", isl_union_set_extract_set(ux, sp), w, o.mx, who); }
			isl_union_set_free(un); isl_union_set_free(ux);
		}
		return;
	}
	isl_map *m = A.map(i, ni);
	expect_set("map_lexmin", W(isl_map_lexmin(isl_map_copy(m))), w, o.mn, who); expect_set("map_lexmax", W(isl_map_lexmax(isl_map_copy(m))), w, o.mx, who);
	pma_check("map_lexmin_pma", isl_map_lexmin_pw_multi_aff(isl_map_copy(m)), R, o.amin, 0, who); pma_check("map_lexmax_pma", isl_map_lexmax_pw_multi_aff(isl_map_copy(m)), R, o.amax, 0, who);
	for (int p = 0; p < w.n - R.k; ++p) { pa_check(cat("map_dim_min", p), isl_map_dim_min(isl_map_copy(m), p), R, i, p, false, who); pa_check(cat("map_dim_max", p), isl_map_dim_max(isl_map_copy(m), p), R, i, p, true, who); }
	if (A.s[i].b.size() == 1) {
		isl_basic_map_list *l = isl_map_get_basic_map_list(m);
		if (isl_basic_map_list_n_basic_map(l) == 1) {
			isl_basic_map *b = isl_basic_map_list_get_at(l, 0);
			expect_set("bmap_lexmin", W(isl_basic_map_lexmin(isl_basic_map_copy(b))), w, o.mn, who); expect_set("bmap_lexmax", W(isl_basic_map_lexmax(isl_basic_map_copy(b))), w, o.mx, who);
			pma_check("bmap_lexmin_pma", isl_basic_map_lexmin_pw_multi_aff(b), R, o.amin, 0, who);
		}
		isl_basic_map_list_free(l);
	}
	if (!more) return;
	isl_multi_pw_aff *mn = isl_map_min_multi_pw_aff(isl_map_copy(m)), *mx = isl_map_max_multi_pw_aff(isl_map_copy(m));
	for (int p = 0; p < w.n - R.k; ++p) { pa_check(cat("map_min_mpa", p), isl_multi_pw_aff_get_at(mn, p), R, i, p, false, who); pa_check(cat("map_max_mpa", p), isl_multi_pw_aff_get_at(mx, p), R, i, p, true, who); }
	isl_multi_pw_aff_free(mn); isl_multi_pw_aff_free(mx);
	isl_union_map *u = isl_union_map_union(isl_union_map_from_map(isl_map_set_tuple_name(isl_map_copy(m), isl_dim_in, "A")), isl_union_map_from_map(isl_map_set_tuple_name(isl_map_copy(m), isl_dim_out, "B")));
	isl_union_map *un = isl_union_map_lexmin(isl_union_map_copy(u)), *ux = isl_union_map_lexmax(u);
	isl_space *s1 = isl_space_set_tuple_name(isl_map_get_space(m), isl_dim_in, "A"), *s2 = isl_space_set_tuple_name(isl_map_get_space(m), isl_dim_out, "B");
	expect_set("umap_lexmin", W(isl_union_map_extract_map(un, s1)), w, o.mn, who); expect_set("umap_lexmax", W(isl_union_map_extract_map(ux, s2)), w, o.mx, who);
	isl_union_map_free(un); isl_union_map_free(ux);
}
// restricted to a given domain, with the rest of the domain returned separately
static void partial(Rel &R, Alpha &D, size_t i, size_t j) {
	Alpha &A = *R.A; const Window &w = A.w; const Opt &o = R.o[i]; int ni = R.k - A.np; string who = cat(A.text(i), " dom ", D.text(j));
	std::map<vector<I>, int> id = index_of(R.dw); Bits rn = bzero(w.count), rx = rn;
	for (int g = 0; g < R.dw.count; ++g) if (bit(D.b[j], g) && o.amin[g] >= 0) { setbit(rn, o.amin[g]); setbit(rx, o.amax[g]); }
	Bits em = bdiff(D.b[j], o.dom); (void) id;
	isl_set *dom = D.set(j), *e = nullptr;
	isl_map *m = ni ? A.map(i, ni) : nullptr; isl_set *s = ni ? nullptr : A.set(i);
	for (int t = 0; t < 2; ++t) {
		const Bits &want = t ? rx : rn; string nm = t ? "max" : "min";
		if (ni) expect_set("map_partial_lex" + nm, W(t ? isl_map_partial_lexmax(isl_map_copy(m), isl_set_copy(dom), &e) : isl_map_partial_lexmin(isl_map_copy(m), isl_set_copy(dom), &e)), w, want, who);
		else expect_set("set_partial_lex" + nm, t ? isl_set_partial_lexmax(isl_set_copy(s), isl_set_params(isl_set_copy(dom)), &e) : isl_set_partial_lexmin(isl_set_copy(s), isl_set_params(isl_set_copy(dom)), &e), w, want, who);
		expect_set("empty_lex" + nm, e, R.dw, em, who); e = nullptr;
	}
	isl_basic_set *bd = D.basic(j); if (!bd) return;
	if (!ni) bd = isl_basic_set_params(bd);
	isl_basic_map *bm = nullptr; isl_basic_set *bs = nullptr;
	if (ni) { isl_basic_map_list *l = isl_map_get_basic_map_list(m); if (isl_basic_map_list_n_basic_map(l) == 1) bm = isl_basic_map_list_get_at(l, 0); isl_basic_map_list_free(l); } else bs = A.basic(i);
	for (int t = 0; t < 2; ++t) {
		const Bits &want = t ? rx : rn; string nm = t ? "max" : "min";
		if (bm) {
			expect_set("bmap_partial_lex" + nm, W(t ? isl_basic_map_partial_lexmax(isl_basic_map_copy(bm), isl_basic_set_copy(bd), &e) : isl_basic_map_partial_lexmin(isl_basic_map_copy(bm), isl_basic_set_copy(bd), &e)), w, want, who);
			expect_set("bmap_empty_lex" + nm, e, R.dw, em, who);
			pma_check("bmap_partial_pma" + nm, t ? isl_basic_map_partial_lexmax_pw_multi_aff(isl_basic_map_copy(bm), isl_basic_set_copy(bd), &e) : isl_basic_map_partial_lexmin_pw_multi_aff(isl_basic_map_copy(bm), isl_basic_set_copy(bd), &e), R, t ? o.amax : o.amin, &D.b[j], who);
			expect_set("pma_empty_lex" + nm, e, R.dw, em, who);
		} else if (bs) {
			expect_set("bset_partial_lex" + nm, t ? isl_basic_set_partial_lexmax(isl_basic_set_copy(bs), isl_basic_set_copy(bd), &e) : isl_basic_set_partial_lexmin(isl_basic_set_copy(bs), isl_basic_set_copy(bd), &e), w, want, who);
			expect_set("bset_empty_lex" + nm, e, R.dw, em, who);
			pma_check("bset_partial_pma" + nm, t ? isl_basic_set_partial_lexmax_pw_multi_aff(isl_basic_set_copy(bs), isl_basic_set_copy(bd), &e) : isl_basic_set_partial_lexmin_pw_multi_aff(isl_basic_set_copy(bs), isl_basic_set_copy(bd), &e), R, t ? o.amax : o.amin, &D.b[j], who);
			expect_set("bset_pma_empty_lex" + nm, e, R.dw, em, who);
		}
	}
	isl_basic_set_free(bd); isl_basic_map_free(bm); isl_basic_set_free(bs);
}
int main(int argc, char **argv) {
	mc::Harness h; h.property = "C07"; bool th = tier_thorough(argc, argv);
	GenOpt o; o.unbounded = false; o.pair_step = 3; o.clo = -3; o.chi = 3;
	Window W2 = Window::cube(2, -1, 4), WM = window_np(0, 0, 0, 1, -1, 4); (void) WM;
	Window W3 = Window::cube(3, -1, 4);
	auto nouni = [](const vector<Shape> &v) { vector<Shape> r; for (auto &s : v) if (s.b[0].eq.size() + s.b[0].ineq.size()) r.push_back(s); return r; };
	auto withU = [&](vector<Shape> v, int nv, const Window &w, int np, size_t k, size_t cap) { v = nouni(v); auto u = unions2(pick(v, k), nv, w, 1, cap, np); v.insert(v.end(), u.begin(), u.end()); return v; };
	// relations: the input dims are in the box as well; for the parametric alphabets the parameter is only constrained by the atoms
	static Alpha A11(2, 0, W2, withU(pick(basics2(1, 2, -4, 4, false, true), th ? 6000 : 1500), 2, W2, 0, th ? 60 : 26, th ? 1200 : 300));
	Window W12 = window_np(1, -5, 8, 2, -1, 4), W11p = window_np(1, -6, 9, 1, -1, 4);
	GenOpt op = o; op.pair_step = 2;
	static Alpha P1(2, 1, W11p, withU(basicsN(2, 1, W11p, 1, op, th ? 3000 : 900), 2, W11p, 1, 20, th ? 400 : 120));
	static Alpha P2(3, 1, W12, withU(basicsN(3, 1, W12, 1, o, th ? 9000 : 3000), 3, W12, 1, th ? 30 : 14, th ? 300 : 80));
	GenOpt o2 = o; o2.coef = 2; o2.pair_step = 97; o2.divs = true;
	static Alpha P2c(3, 1, W12, nouni(basicsN(3, 1, W12, 1, o2, th ? 9000 : 2000)));
	static Alpha A12(3, 0, W3, withU(basicsN(3, 0, W3, 1, o, th ? 9000 : 2600), 3, W3, 0, th ? 30 : 12, th ? 300 : 60));
	Window W4 = window_np(2, -3, 5, 2, -1, 4); GenOpt o4 = o; o4.pair_step = 29; o4.clo = -1; o4.chi = 2;
	static Alpha P22(4, 2, W4, nouni(basicsN(4, 2, W4, 1, o4, th ? 3000 : 800)));
	h.teardown = [] { Alpha::drop_all(); };
	static vector<Rel *> rels;
	auto full_space = [&](const char *nm, Alpha &A, int k, bool more) { Rel *R = new Rel(&A, k); h.bounds[nm] = cat(A.size(), " relations, domain window ", R->dw.count, " points");
		h.add(mc::SpaceDef(nm, A.size(), [R, more](uint64_t i) { full(*R, i, more); }, [&A](uint64_t i) { return A.text(i); })); return R; };
	Rel *r11 = full_space("map 1->1", A11, 1, true); (void) r11;
	Rel *s2 = full_space("set 2d", A11, 0, true); (void) s2;
	Rel *p1 = full_space("set 1d(n)", P1, 1, true); Rel *p2 = full_space("set 2d(n)", P2, 1, true);
	Rel *p2c = full_space("set 2d(n) coef 2", P2c, 1, false); full_space("map 1->1(n) coef 2", P2c, 2, false);
	full_space("map 1->1(n)", P2, 2, true); full_space("map 1->2", A12, 1, true); full_space("map 2->1", A12, 2, false); full_space("set 3d", A12, 0, false);
	full_space("set 2d(n,m)", P22, 2, false); full_space("map 1->1(n,m)", P22, 3, false);
	// partial
	auto part_space = [&](const char *nm, Alpha &src, size_t ka, int k, vector<Shape> doms) {
		Alpha *A = new Alpha(src.nv, src.np, src.w, pick(src.s, ka)); Rel *R = new Rel(A, k);
		// a set optimised over parameters takes a parameter domain: parsed with a dummy 0-d tuple
		Alpha *D = new Alpha(k, src.np, R->dw, doms); uint64_t nd = D->size();
		h.bounds[nm] = cat(A->size(), " relations x ", nd, " domains");
		h.add(mc::SpaceDef(nm, A->size() * nd, [=](uint64_t i) { partial(*R, *D, i / nd, i % nd); }, [=](uint64_t i) { return cat(A->text(i / nd), " dom ", D->text(i % nd)); }));
	};
	GenOpt d1; d1.coef = 2; d1.pair_step = 3; d1.clo = -2; d1.chi = 3;
	part_space("partial set 1d(n)", P1, th ? 300 : 90, 1, basicsN(1, 1, p1->dw, 1, d1, 60));
	part_space("partial set 2d(n)", P2, th ? 600 : 150, 1, basicsN(1, 1, p2->dw, 1, d1, th ? 60 : 22));
	GenOpt d2; d2.pair_step = 37;
	part_space("partial map 1->1(n)", P2, th ? 300 : 90, 2, withU(basicsN(2, 1, window_np(1, -5, 8, 1, -1, 4), 1, d2, th ? 60 : 24), 2, window_np(1, -5, 8, 1, -1, 4), 1, 6, 8));
	part_space("partial map 1->2", A12, th ? 500 : 140, 1, basicsN(1, 0, Window::cube(1, -1, 4), 1, d1, 24));
	(void) p2c;
	return mc::run(argc, argv, h);
}
