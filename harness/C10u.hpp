// unions of expressions: families of functions indexed by (domain tuple, range tuple)
#pragma once
struct UM { std::map<std::pair<string, string>, G> f; bool bad = false; };   // bad: two range spaces for one element, which the type does not allow
// absent: nowhere defined; domains A[x,y], B[x]
template <class X> struct UOp { string n; std::function<X *(X *)> o; std::function<UM(UM)> m; };
struct ULeaf { string t; UM m; };
static std::pair<string, string> K(const char *a, const char *b) { return {a, b}; }
static string UT(const string &s) { return "[n] -> { " + s + " }"; }
#define UF(c, ...) [](const I *p, T &r) { I n = p[0], x = p[1]; (void) n; (void) x; if (!(c)) return false; r = T __VA_ARGS__; return true; }
static UM mapf(const UM &u, std::function<G(G)> g) { UM r; r.bad = u.bad; for (auto &k : u.f) r.f[k.first] = g(k.second); return r; }
static UM mapd(const UM &u, std::function<G(string, G)> g) { UM r; r.bad = u.bad; for (auto &k : u.f) r.f[k.first] = g(k.first.first, k.second); return r; }
static UM both(const UM &u, const UM &v, std::function<G(G, G)> g) { UM r; r.bad = u.bad || v.bad; for (auto &k : u.f) { auto it = v.f.find(k.first); if (it != v.f.end()) r.f[k.first] = g(k.second, it->second); } return r; }
static bool overlap(const UM &u) {
	static Window wa = window_np(1, -2, 2, 2, -6, 6), wb = window_np(1, -2, 2, 1, -9, 9);
	for (string d : {"A", "B"}) { vector<const G *> g; for (auto &e : u.f) if (e.first.first == d) g.push_back(&e.second); if (g.size() < 2) continue;
		const Window &w = d == "A" ? wa : wb; for (int i = 0; i < w.count; ++i) { int c = 0; T t; try { for (auto x : g) c += (*x)(w.at(i), t); } catch (Overflow &) {} if (c > 1) return true; } }
	return false;
}
static UM either(const UM &u, const UM &v, std::function<G(G, G)> g) { UM r = u; for (auto &k : v.f) { auto it = r.f.find(k.first); if (it == r.f.end()) r.f[k.first] = k.second; else it->second = g(it->second, k.second); } r.bad = u.bad || v.bad || overlap(r); return r; }
static G badd(G f, G g) { return bi(f, g, [](Rat a, Rat b) { return a + b; }); }
static G bsub(G f, G g) { return bi(f, g, [](Rat a, Rat b) { return a - b; }); }
// union sets on the domains
struct USet { const char *t; std::function<bool(const string &, const I *)> f; };
static vector<USet> US = {{"[n] -> { A[x,y] : x >= y; B[x] : x mod 2 = 0 }", [](const string &d, const I *p) { return d == "A" ? p[1] >= p[2] : mod(p[1], 2) == 0; }}, {"[n] -> { A[x,y] : y mod 2 = 1 or n >= 1 }", [](const string &d, const I *p) { return d == "A" && (mod(p[2], 2) == 1 || p[0] >= 1); }}, {"[n] -> { B[x] : x >= n }", [](const string &d, const I *p) { return d == "B" && p[1] >= p[0]; }}};
static isl_union_set *UST(int k) { isl_union_set *s = isl_union_set_read_from_str(ctx, US[k].t); if (!s) fail("parse", US[k].t); return s; }
// pullback functions between the domains
struct UPB { const char *t; std::function<bool(const string &, const I *, string &, I *)> f; };
static vector<UPB> UP = {{"[n] -> { A[x,y] -> A[(y),(x)]; B[x] -> B[(2x - 1)] }", [](const string &d, const I *p, string &e, I *q) { e = d; q[0] = p[0]; if (d == "A") { q[1] = p[2]; q[2] = p[1]; } else q[1] = 2 * p[1] - 1; return true; }},
	{"[n] -> { A[x,y] -> B[(x + y)] : y >= 0; B[x] -> A[(x),(n)] }", [](const string &d, const I *p, string &e, I *q) { q[0] = p[0]; if (d == "A") { e = "B"; q[1] = p[1] + p[2]; return p[2] >= 0; } e = "A"; q[1] = p[1]; q[2] = p[0]; return true; }},
	{"[n] -> { B[x] -> B[(floor(x/2))] : x >= 0; B[x] -> B[(x + n)] : x < 0 }", [](const string &d, const I *p, string &e, I *q) { if (d == "A") return false; e = "B"; q[0] = p[0]; q[1] = p[1] >= 0 ? fdiv(p[1], 2) : p[1] + p[0]; return true; }}};
static UM upb(const UM &u, int k) {
	UM r; r.bad = u.bad; std::set<string> ran; for (auto &e : u.f) ran.insert(e.first.second);
	for (auto &rg : ran) for (string d : {"A", "B"}) { UM uc = u; r.f[{d, rg}] = [uc, k, d, rg](const I *p, T &t) { string e; I q[3]; if (!UP[k].f(d, p, e, q)) return false; auto it = uc.f.find({e, rg}); return it != uc.f.end() && it->second(q, t); }; }
	return r;
}
static Window UWA, UWB;
static vector<ULeaf> UL, ML, AL;       // upma, mupa, upa leaves
static void uleaves() {
	UL = {{UT("A[x,y] -> C[(x + y)]; B[x] -> C[(-x)]"), {{{K("A", "C"), LF(true, {Rat(x + y)})}, {K("B", "C"), UF(true, {Rat(-x)})}}}},
		{UT("A[x,y] -> C[(x/2)] : x >= y; B[x] -> D[(x),(n)]"), {{{K("A", "C"), LF(x >= y, {Rat(x, 2)})}, {K("B", "D"), UF(true, {Rat(x), Rat(n)})}}}},
		{UT("A[x,y] -> D[(x),(floor(y/2))] : n >= 0; A[x,y] -> C[(n)] : n < 0 and x < y; B[x] -> D[(1),(x)] : x mod 2 = 0; B[x] -> D[(0),(x - 1)] : x mod 2 = 1"),
			{{{K("A", "D"), LF(n >= 0, {Rat(x), Rat(fdiv(y, 2))})}, {K("A", "C"), LF(n < 0 && x < y, {Rat(n)})}, {K("B", "D"), UF(true, {Rat(mod(x, 2) == 0 ? 1 : 0), Rat(mod(x, 2) == 0 ? x : x - 1)})}}}},
		{"[n] -> { }", {}}};
	ML = {{"[n] -> R[{ A[x,y] -> [(x)]; B[x] -> [(-x)] }, { A[x,y] -> [(y)]; B[x] -> [(n)] }]", {{{K("A", "R"), LF(true, {Rat(x), Rat(y)})}, {K("B", "R"), UF(true, {Rat(-x), Rat(n)})}}}},
		{"[n] -> R[{ A[x,y] -> [(x/2)] : x >= y }, { A[x,y] -> [(x + n)] : x >= y }]", {{{K("A", "R"), LF(x >= y, {Rat(x, 2), Rat(x + n)})}}}},
		{"[n] -> R[{ A[x,y] -> [(floor((x + y)/2))]; B[x] -> [(1)] : x >= 0; B[x] -> [(x)] : x < 0 }, { A[x,y] -> [(2x - y)]; B[x] -> [(floor(x/3))] }]", {{{K("A", "R"), LF(true, {Rat(fdiv(x + y, 2)), Rat(2 * x - y)})}, {K("B", "R"), UF(true, {Rat(x >= 0 ? 1 : x), Rat(fdiv(x, 3))})}}}},
		{"[n] -> R[{ A[x,y] -> [(y)] : x > n; A[x,y] -> [(n)] : x < n }, { A[x,y] -> [(x - 2*floor(x/2))] : x > n or x < n }]", {{{K("A", "R"), LF(x != n, {Rat(x > n ? y : n), Rat(mod(x, 2))})}}}}};
	AL = {{UT("A[x,y] -> [(x + y)]; B[x] -> [(-x)]"), {{{K("A", ""), LF(true, {Rat(x + y)})}, {K("B", ""), UF(true, {Rat(-x)})}}}},
		{UT("A[x,y] -> [(x/2)] : x >= y; B[x] -> [(n)] : x > n; B[x] -> [(x - 2)] : x <= n"), {{{K("A", ""), LF(x >= y, {Rat(x, 2)})}, {K("B", ""), UF(true, {Rat(x > n ? n : x - 2)})}}}},
		{UT("A[x,y] -> [(floor(x/2) - y)] : n >= 0"), {{{K("A", ""), LF(n >= 0, {Rat(fdiv(x, 2) - y)})}}}},
		{UT("A[x,y] -> [(3)] : x = n; B[x] -> [(floor(x/2))] : x mod 3 = 1"), {{{K("A", ""), LF(x == n, {Rat(3)})}, {K("B", ""), UF(mod(x, 3) == 1, {Rat(fdiv(x, 2))})}}}}};
}
#define UU(name, expr, mod_) r.push_back({name, [=](X *a) -> X * { return expr; }, [=](UM f) -> UM { return mod_; }})
#define NEGM mapf(f, [](G g) { return un(g, [](Rat v, int) { return -v; }); })
#define UCOMMON(N, LV_) \
	UU("neg", isl_##N##_neg(a), NEGM); \
	for (int k = 0; k < 4; ++k) { ULeaf l = LV_[k]; \
		UU("add " + l.t, isl_##N##_add(a, RD<X>(l.t)), both(f, l.m, badd)); \
		if (k < 3) UU("sub " + l.t, isl_##N##_sub(RD<X>(l.t), a), both(l.m, f, bsub)); \
		UU("union_add " + l.t, isl_##N##_union_add(a, RD<X>(l.t)), either(f, l.m, uadd)); } \
	UU("scale -3/2", isl_##N##_scale_val(a, V_(-3, 2)), mapf(f, [](G g) { return un(g, [](Rat v, int) { return v * Rat(-3, 2); }); })); \
	UU("scale_down 2", isl_##N##_scale_down_val(a, V_(2)), mapf(f, [](G g) { return un(g, [](Rat v, int) { return v / Rat(2); }); })); \
	for (int k = 0; k < 3; ++k) { auto c = US[k].f; \
		UU(cat("intersect_domain ", US[k].t), isl_##N##_intersect_domain(a, UST(k)), mapd(f, [=](string d, G g) -> G { return [=](const I *p, T &t) { return c(d, p) && g(p, t); }; })); \
		UU(cat("restrict, gist ", US[k].t), isl_##N##_intersect_domain(isl_##N##_gist(isl_##N##_intersect_domain(a, UST(k)), UST(k)), UST(k)), mapd(f, [=](string d, G g) -> G { return [=](const I *p, T &t) { return c(d, p) && g(p, t); }; })); \
		UU(cat("pullback ", UP[k].t), isl_##N##_pullback_union_pw_multi_aff(a, RD<isl_union_pw_multi_aff>(UP[k].t)), upb(f, k)); } \
	UU("intersect_params", isl_##N##_intersect_params(a, PS()), mapf(f, [](G g) -> G { return [=](const I *p, T &t) { return p[0] >= 0 && g(p, t); }; })); \
	UU("intersect, gist_params", isl_##N##_intersect_params(isl_##N##_gist_params(a, PS()), PS()), mapf(f, [](G g) -> G { return [=](const I *p, T &t) { return p[0] >= 0 && g(p, t); }; })); \
	UU("coalesce", isl_##N##_coalesce(a), f); \
	UU("align, drop", isl_##N##_drop_dims(isl_##N##_align_params(a, isl_space_params_mn()), isl_dim_param, 0, 1), f);
#define USUB(N) for (int k = 0; k < 3; ++k) { auto c = US[k].f; UU(cat("subtract_domain ", US[k].t), isl_##N##_subtract_domain(a, UST(k)), mapd(f, [=](string d, G g) -> G { return [=](const I *p, T &t) { return !c(d, p) && g(p, t); }; })); } \
	UU("intersect_domain_space A", isl_##N##_intersect_domain_space(a, space_of("[n] -> { A[x,y] }")), mapd(f, [=](string d, G g) -> G { return [=](const I *p, T &t) { return d == "A" && g(p, t); }; })); \
	UU("subtract_domain_space A", isl_##N##_subtract_domain_space(a, space_of("[n] -> { A[x,y] }")), mapd(f, [=](string d, G g) -> G { return [=](const I *p, T &t) { return d != "A" && g(p, t); }; }));
template <class X> struct UTab { static vector<UOp<X>> v; };
template <class X> vector<UOp<X>> UTab<X>::v;
static const char *UAPP = "[n] -> { C[z] -> C[(2z + 1)]; D[z,w] -> D[(w),(z - n)] : w >= 0 }";
static UM uapp(const UM &u) { UM r; r.bad = u.bad; for (auto &e : u.f) { G g = e.second; bool c = e.first.second == "C"; r.f[e.first] = [g, c](const I *p, T &t) { if (!g(p, t)) return false; if (!isint(t)) throw Overflow(); if (c) { t[0] = t[0] * Rat(2) + Rat(1); return true; } if (t[1] < Rat(0)) return false; t = {t[1], t[0] - Rat(p[0])}; return true; }; } return r; }
static vector<UOp<isl_union_pw_multi_aff>> upma_ops() {
	typedef isl_union_pw_multi_aff X; vector<UOp<X>> r; UCOMMON(union_pw_multi_aff, UL) USUB(union_pw_multi_aff)
	const char *v = "[n] -> { A[x,y] -> E[(x)]; B[x] -> E[(n)] : x >= 0 }";
	auto rest = [](const UM &f) { return mapd(f, [=](string d, G g) -> G { return [=](const I *p, T &t) { return (d == "A" || p[1] >= 0) && g(p, t); }; }); };
	UU("range_product, domain factor", isl_union_pw_multi_aff_range_factor_domain(isl_union_pw_multi_aff_range_product(a, RD<X>(v))), rest(f));
	UU("range_product, range factor", isl_union_pw_multi_aff_range_factor_range(isl_union_pw_multi_aff_range_product(RD<X>(v), a)), rest(f));
	UU("apply", isl_union_pw_multi_aff_apply_union_pw_multi_aff(a, RD<X>(UAPP)), uapp(f));
	UU("scale_multi on C", isl_union_pw_multi_aff_scale_multi_val(a, MV("[n] -> { C[3] }")), ([f] { UM g; g.bad = f.bad; for (auto &e : f.f) if (e.first.second == "C") g.f[e.first] = un(e.second, [](Rat v, int) { return v * Rat(3); }); return g; }()));
	return r;
}
static G rapply(G g, int k) { return [=](const I *p, T &t) { if (!g(p, t)) return false; if (k == 0) { t = {t[1], t[0] + t[1] - Rat(p[0])}; return true; } if (!isint(t)) throw Overflow(); I a = t[0].n, b = t[1].n; if (a < b) return false; t = {Rat(fdiv(a, 2)), Rat(1)}; return true; }; }
static isl_multi_union_pw_aff *mupa_via_upma(isl_multi_union_pw_aff *a) { return isl_multi_union_pw_aff_from_union_pw_multi_aff(isl_union_pw_multi_aff_from_multi_union_pw_aff(a)); }
static isl_multi_union_pw_aff *mupa_swap(isl_multi_union_pw_aff *a) { isl_union_pw_aff *u = isl_multi_union_pw_aff_get_at(a, 0), *v = isl_multi_union_pw_aff_get_at(a, 1); return isl_multi_union_pw_aff_set_at(isl_multi_union_pw_aff_set_at(a, 0, v), 1, u); }
static vector<UOp<isl_multi_union_pw_aff>> mupa_ops() {
	typedef isl_multi_union_pw_aff X; vector<UOp<X>> r; UCOMMON(multi_union_pw_aff, ML)
	UU("floor", isl_multi_union_pw_aff_floor(a), mapf(f, [](G g) { return un(g, [](Rat v, int) { return fl(v); }); }));
	UU("mod 3,2", isl_multi_union_pw_aff_mod_multi_val(a, MV("[n] -> { R[3,2] }")), mapf(f, [](G g) { return un(g, [](Rat v, int i) { Rat m(i ? 2 : 3); return v - m * fl(v / m); }); }));
	UU("scale_multi 2,-1", isl_multi_union_pw_aff_scale_multi_val(a, MV("[n] -> { R[2,-1] }")), mapf(f, [](G g) { return un(g, [](Rat v, int i) { return v * Rat(i ? -1 : 2); }); }));
	UU("scale_down_multi 2,3", isl_multi_union_pw_aff_scale_down_multi_val(a, MV("[n] -> { R[2,3] }")), mapf(f, [](G g) { return un(g, [](Rat v, int i) { return v / Rat(i ? 3 : 2); }); }));
	UU("swap", mupa_swap(a), mapf(f, [](G g) -> G { return [=](const I *p, T &t) { if (!g(p, t)) return false; std::swap(t[0], t[1]); return true; }; }));
	UU("flat_range_product, drop", isl_multi_union_pw_aff_set_tuple_name(isl_multi_union_pw_aff_drop_dims(isl_multi_union_pw_aff_flat_range_product(RD<X>(ML[0].t), a), isl_dim_out, 0, 2), isl_dim_out, "R"), f);
	UU("range_product, factor", isl_multi_union_pw_aff_factor_range(isl_multi_union_pw_aff_range_product(RD<X>(ML[0].t), a)), f);
	UU("splice, drop", isl_multi_union_pw_aff_set_tuple_name(isl_multi_union_pw_aff_drop_dims(isl_multi_union_pw_aff_range_splice(a, 1, RD<X>(ML[0].t)), isl_dim_out, 1, 2), isl_dim_out, "R"), f);
	UU("apply_multi_aff", isl_multi_union_pw_aff_apply_multi_aff(a, RD<isl_multi_aff>("[n] -> { R[a,b] -> R[(b),(a + b - n)] }")), mapf(f, [](G g) { return rapply(g, 0); }));
	UU("apply_pw_multi_aff", isl_multi_union_pw_aff_apply_pw_multi_aff(isl_multi_union_pw_aff_floor(a), RD<isl_pw_multi_aff>("[n] -> { R[a,b] -> R[(floor(a/2)),(1)] : a >= b }")), mapf(f, [](G g) { return rapply(un(g, [](Rat v, int) { return fl(v); }), 1); }));
	UU("intersect_range", isl_multi_union_pw_aff_intersect_range(a, isl_set_read_from_str(ctx, "[n] -> { R[a,b] : a >= b - n }")), mapf(f, [](G g) -> G { return [=](const I *p, T &t) { if (!g(p, t)) return false; return isint(t) && t[0] >= t[1] - Rat(p[0]); }; }));
	return r;
}
static vector<UOp<isl_union_pw_aff>> upa_ops() {
	typedef isl_union_pw_aff X; vector<UOp<X>> r; UCOMMON(union_pw_aff, AL) USUB(union_pw_aff)
	UU("floor", isl_union_pw_aff_floor(a), mapf(f, [](G g) { return un(g, [](Rat v, int) { return fl(v); }); }));
	UU("mod 3", isl_union_pw_aff_mod_val(a, V_(3)), mapf(f, [](G g) { return un(g, [](Rat v, int) { return v - Rat(3) * fl(v / Rat(3)); }); }));
	return r;
}
static isl_space *isl_map_get_space_take(isl_map *m) { isl_space *s = isl_map_get_space(m); isl_map_free(m); return s; }
static isl_pw_multi_aff *extract(isl_union_pw_multi_aff *u, const string &d, const string &r) { isl_pw_multi_aff *p = isl_union_pw_multi_aff_extract_pw_multi_aff(u, isl_map_get_space_take(isl_map_read_from_str(ctx, ("[n] -> { " + string(d == "A" ? "A[x,y]" : "B[x]") + " -> " + (r == "C" ? "C[z]" : r == "" ? "[z]" : r + "[z,w]") + " }").c_str()))); return p; }
static isl_union_pw_multi_aff *as_upma(isl_union_pw_multi_aff *a) { return a; }
static isl_union_pw_multi_aff *as_upma(isl_multi_union_pw_aff *a) { return isl_union_pw_multi_aff_from_multi_union_pw_aff(a); }
static isl_union_pw_multi_aff *as_upma(isl_union_pw_aff *a) { return isl_union_pw_multi_aff_from_union_pw_aff(a); }
static UM lookup_nothing;
static void cmp_u(isl_union_pw_multi_aff *u, const UM &m, vector<string> ranges, const string &who) {
	if (!u) { mc::take_error(); fail(cat("union|", who), "NULL result"); }
	string bad;
	for (string d : {"A", "B"}) for (auto &r : ranges) {
		isl_pw_multi_aff *p = extract(u, d, r); auto it = m.f.find({d, r}); G g = it == m.f.end() ? G([](const I *, T &) { return false; }) : it->second;
		take_pma(cat("component ", d, "->", r), p, g, d == "A" ? UWA : UWB, who);
	}
}
static Window WGA, WGB;
template <class X> string useq_text(const vector<uint64_t> &d, const vector<ULeaf> &lv) { string s = lv[d[0]].t; for (size_t i = 1; i < d.size(); ++i) s += "; " + UTab<X>::v[d[i]].n; return s; }
static void upma_obs(isl_union_pw_multi_aff *u, const UM &m, const string &who) {
	isl_union_set *dom = isl_union_pw_multi_aff_domain(isl_union_pw_multi_aff_copy(u));
	isl_union_map *um = isl_union_pw_multi_aff_as_union_map(isl_union_pw_multi_aff_copy(u));
	struct Fr { isl_union_set *d; isl_union_map *m; ~Fr() { isl_union_set_free(d); isl_union_map_free(m); } } fr{dom, um};
	for (string d : {"A", "B"}) { const Window &w = d == "A" ? UWA : UWB;
		isl_set *s = isl_union_set_extract_set(dom, space_of(d == "A" ? "[n] -> { A[x,y] }" : "[n] -> { B[x] }"));
		expect_set("union domain", s, w, where(w, [&](const I *p) { T t; for (auto &e : m.f) if (e.first.first == d && e.second(p, t)) return true; return false; }), who);
		isl_map *c = isl_union_map_extract_map(um, isl_map_get_space_take(isl_map_read_from_str(ctx, d == "A" ? "[n] -> { A[x,y] -> C[z] }" : "[n] -> { B[x] -> C[z] }")));
		auto it = m.f.find({d, "C"}); const Window &wg = d == "A" ? WGA : WGB; int nd = d == "A" ? 2 : 1;
		expect_map("union graph", c, wg, where(wg, [&](const I *p) { T t; return it != m.f.end() && it->second(p, t) && t[0] == Rat(p[nd + 1]); }), who);
	}
	// single-valued relation back to a function
	bool sv = true, in = true; for (string d : {"A", "B"}) { const Window &w = d == "A" ? UWA : UWB; for (int i = 0; i < w.count; ++i) { int c = 0; for (auto &e : m.f) { T t; if (e.first.first == d && e.second(w.at(i), t)) { if (isint(t)) ++c; else in = false; } } if (c > 1) sv = false; } }
	if (sv && in) { isl_bool s = isl_union_map_is_single_valued(um); if (s == isl_bool_error) fail(cat("single_valued|", who), "error"); if (s) { isl_union_pw_multi_aff *b = isl_union_pw_multi_aff_from_union_map(isl_union_map_copy(um)); struct F2 { isl_union_pw_multi_aff *b; ~F2() { isl_union_pw_multi_aff_free(b); } } f2{b}; cmp_u(b, m, {"C", "D"}, who + "; via union_map"); } }
}
template <class X> void run_useq(const vector<uint64_t> &d, const vector<ULeaf> &lv, const vector<string> &ranges, bool obs) {
	X *a = RD<X>(lv[d[0]].t); UM m = lv[d[0]].m; string who = useq_text<X>(d, lv);
	for (size_t i = 1; i < d.size(); ++i) { auto &o = UTab<X>::v[d[i]]; a = o.o(a); m = o.m(m); note_transition(); }
	if (m.bad) { Tr<X>::free(a); mc::take_error(); note_outcome("pruned: overlapping range spaces"); return; }
	if (!a) { mc::take_error(); fail(cat("useq|", who), "NULL"); }
	try { for (auto &e : m.f) for (const Window *w : e.first.first == "A" ? vector<const Window *>{&UWA, &WGA} : vector<const Window *>{&UWB, &WGB}) for (int i = 0; i < w->count; ++i) { T t; e.second(w->at(i), t); } }
	catch (Overflow &) { Tr<X>::free(a); note_outcome("pruned: application to a non-integral value"); return; }
	isl_union_pw_multi_aff *u = as_upma(Tr<X>::copy(a));
	struct Fr { isl_union_pw_multi_aff *u; X *a; ~Fr() { isl_union_pw_multi_aff_free(u); Tr<X>::free(a); } } fr{u, a};
	try {
		cmp_u(u, m, ranges, who);
		if (obs && std::is_same<X, isl_union_pw_multi_aff>::value) upma_obs(u, m, who);
		if (obs && std::is_same<X, isl_multi_union_pw_aff>::value) {
			isl_multi_union_pw_aff *q = (isl_multi_union_pw_aff *) a;
			isl_union_set *z = isl_multi_union_pw_aff_zero_union_set(isl_multi_union_pw_aff_copy(q)), *dm = isl_multi_union_pw_aff_domain(isl_multi_union_pw_aff_copy(q));
			struct F3 { isl_union_set *a, *b; ~F3() { isl_union_set_free(a); isl_union_set_free(b); } } f3{z, dm};
			for (string dn : {"A", "B"}) { const Window &w = dn == "A" ? UWA : UWB; auto it = m.f.find({dn, "R"}); auto sp = [&] { return space_of(dn == "A" ? "[n] -> { A[x,y] }" : "[n] -> { B[x] }"); };
				expect_set("zero_union_set", isl_union_set_extract_set(z, sp()), w, where(w, [&](const I *p) { T t; return it != m.f.end() && it->second(p, t) && t[0] == Rat(0) && t[1] == Rat(0); }), who);
				expect_set("mupa domain", isl_union_set_extract_set(dm, sp()), w, where(w, [&](const I *p) { T t; return it != m.f.end() && it->second(p, t); }), who); }
			bool in = true; for (auto &e : m.f) { const Window &w = e.first.first == "A" ? UWA : UWB; for (int i = 0; i < w.count && in; ++i) { T t; if (e.second(w.at(i), t)) in = isint(t); } }
			isl_bool emp = isl_union_set_is_empty(dm);
			if (!emp && in) {       // integral and somewhere defined: through relations and back
				isl_union_map *um = isl_union_pw_multi_aff_as_union_map(isl_union_pw_multi_aff_copy(u)); isl_multi_union_pw_aff *b = isl_multi_union_pw_aff_from_union_map(um);
				isl_union_pw_multi_aff *v = isl_union_pw_multi_aff_from_multi_union_pw_aff(b); struct F4 { isl_union_pw_multi_aff *b; ~F4() { isl_union_pw_multi_aff_free(b); } } f4{v}; cmp_u(v, m, {"R"}, who + "; via union_map");
			}
			isl_multi_union_pw_aff *rt = mupa_via_upma(isl_multi_union_pw_aff_copy(q));
			if (rt || !emp) { isl_union_pw_multi_aff *v = isl_union_pw_multi_aff_from_multi_union_pw_aff(rt); struct F4 { isl_union_pw_multi_aff *b; ~F4() { isl_union_pw_multi_aff_free(b); } } f4{v}; cmp_u(v, m, {"R"}, who + "; via upma"); } else mc::take_error();
		}
		if (obs && std::is_same<X, isl_union_pw_aff>::value) {
			isl_union_set *z = isl_union_pw_aff_zero_union_set(isl_union_pw_aff_copy((isl_union_pw_aff *) a)); struct F3 { isl_union_set *a; ~F3() { isl_union_set_free(a); } } f3{z};
			for (string dn : {"A", "B"}) { const Window &w = dn == "A" ? UWA : UWB; auto it = m.f.find({dn, ""}); expect_set("upa zero_union_set", isl_union_set_extract_set(z, space_of(dn == "A" ? "[n] -> { A[x,y] }" : "[n] -> { B[x] }")), w, where(w, [&](const I *p) { T t; return it != m.f.end() && it->second(p, t) && t[0] == Rat(0); }), who); }
		}
	} catch (Overflow &) { note_outcome("inconclusive"); }
}
template <class X> void add_useqs(mc::Harness &h, const char *nm, const vector<ULeaf> &lv, const vector<string> &ranges, int depth, uint64_t deep) {
	uint64_t n = UTab<X>::v.size(), p = 1;
	for (int len = 0; len <= depth; ++len, p *= n) {
		uint64_t nl = len >= 3 ? deep : lv.size(), k = len;
		auto dec = [=](uint64_t i) { vector<uint64_t> d(1 + k); for (int q = k; q >= 1; --q) { d[q] = i % n; i /= n; } d[0] = k >= 3 ? (i + 1) % 4 : i; return d; };
		const vector<ULeaf> *L = &lv;
		h.add(mc::SpaceDef(cat(nm, "-seq-", len), nl * p, [=](uint64_t i) { run_useq<X>(dec(i), *L, ranges, k <= 1 || i % 3 == 0 || mc::thorough); }, [=](uint64_t i) { return useq_text<X>(dec(i), *L); }));
	}
	h.bounds[nm] = cat("all sequences of up to ", depth, " of ", n, " operations from ", lv.size(), " leaves over the domains A[x,y] and B[x]");
}
static void union_spaces(mc::Harness &h, bool th) {
	UWA = W; UWB = Window({{-1, 1}, {-5, 6}}); WGA = Window({{0, 1}, {-2, 3}, {-1, 2}, {-4, 4}}); WGB = Window({{0, 1}, {-3, 4}, {-5, 5}});
	uleaves(); UTab<isl_union_pw_multi_aff>::v = upma_ops(); UTab<isl_multi_union_pw_aff>::v = mupa_ops(); UTab<isl_union_pw_aff>::v = upa_ops();
	add_useqs<isl_union_pw_multi_aff>(h, "union_pw_multi_aff", UL, {"C", "D"}, th ? 3 : 2, 1);
	add_useqs<isl_multi_union_pw_aff>(h, "multi_union_pw_aff", ML, {"R"}, th ? 3 : 2, 1);
	add_useqs<isl_union_pw_aff>(h, "union_pw_aff", AL, {""}, th ? 3 : 2, 1);
}
