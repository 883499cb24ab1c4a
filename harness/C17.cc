// C17: computed schedules against every pair of instances related by the constraints.
#include "schedtree.hpp"
typedef vector<int> V;
static const int NMAX = 4;
struct Dom { int d; string cond; std::function<bool(int, const I *)> in; };
static vector<Dom> DOM = {
	{1, "0 <= i < n", [](int n, const I *x) { return x[0] >= 0 && x[0] < n; }},
	{2, "0 <= i < n and 0 <= j < n", [](int n, const I *x) { return x[0] >= 0 && x[0] < n && x[1] >= 0 && x[1] < n; }},
	{2, "0 <= j <= i < n", [](int n, const I *x) { return x[1] >= 0 && x[1] <= x[0] && x[0] < n; }},
	{2, "0 <= i < 4 and 0 <= j < 3", [](int n, const I *x) { return x[0] >= 0 && x[0] < 4 && x[1] >= 0 && x[1] < 3; }},
	{1, "0 <= i <= 3", [](int n, const I *x) { return x[0] >= 0 && x[0] <= 3; }},
	{0, "", [](int n, const I *x) { return true; }},
	{2, "0 <= i < n and (j = 0 or j = 2)", [](int n, const I *x) { return x[0] >= 0 && x[0] < n && (x[1] == 0 || x[1] == 2); }},
};
static const char *IN[] = {"i", "j"}, *OUT[] = {"k", "l"};
static string tup(char s, int d, const char **nm) { string r(1, s); r += "["; for (int k = 0; k < d; ++k) r += string(k ? "," : "") + nm[k]; return r + "]"; }
// dependence: condition over i,j (source) and k,l (sink)
struct Rule { string text; std::function<bool(int, const I *, const I *)> f; };
#define RU(T, C) Rule{T, [](int n, const I *x, const I *y) -> bool { I i = x[0], j = x[1], k = y[0], l = y[1]; (void) n; (void) i; (void) j; (void) k; (void) l; return C; }}
struct Dep { char s, t; Rule r; };
struct Prob { vector<std::pair<char, int>> st; vector<Dep> val; vector<int> loops; int coin = 0, opt = 0, ctxk = 0; vector<Dep> cond, cval; };
// original order: statements in st order; shared outer loops per pair = min(loops) (all share the outer "share" loops)
static string order_text(const Prob &p, char s, char t, int ds, int dt) {
	int a = 0, b = 0; for (size_t q = 0; q < p.st.size(); ++q) { if (p.st[q].first == s) a = q; if (p.st[q].first == t) b = q; }
	int sh = s == t ? ds : std::min(std::min(ds, dt), std::min(p.loops[a], p.loops[b]));
	if (sh == 0) return a < b ? "true" : "false";
	string f = a < b ? "=" : ""; if (sh == 1) return "i <" + f + " k";
	return "(i < k or (i = k and j <" + f + " l))";
}
static bool order_ok(const Prob &p, char s, char t, int ds, int dt, const I *x, const I *y) {
	int a = 0, b = 0; for (size_t q = 0; q < p.st.size(); ++q) { if (p.st[q].first == s) a = q; if (p.st[q].first == t) b = q; }
	int sh = s == t ? ds : std::min(std::min(ds, dt), std::min(p.loops[a], p.loops[b]));
	for (int k = 0; k < sh; ++k) if (x[k] != y[k]) return x[k] < y[k];
	return a < b;
}
static int dim(const Prob &p, char s) { for (auto &q : p.st) if (q.first == s) return DOM[q.second].d; return 0; }
static const Dom &dom(const Prob &p, char s) { for (auto &q : p.st) if (q.first == s) return DOM[q.second]; return DOM[0]; }
static string dtext(const Prob &p) { string r; for (auto &s : p.st) r += string(r.empty() ? "" : "; ") + tup(s.first, DOM[s.second].d, IN) + (DOM[s.second].cond.empty() ? "" : " : " + DOM[s.second].cond); return "[n] -> { " + r + " }"; }
static string ren(string c) { for (auto &ch : c) if (ch == 'i') ch = 'k'; else if (ch == 'j') ch = 'l'; return c; }
static string cond2(string c) { string r; for (size_t q = 0; q < c.size(); ++q) { bool w = (q && isalpha(c[q - 1])) || (q + 1 < c.size() && isalpha(c[q + 1])); if (!w && c[q] == 'i') r += 'k'; else if (!w && c[q] == 'j') r += 'l'; else r += c[q]; } return r; }
static string rel(const Prob &p, const vector<Dep> &v, bool ord, const string &st = "", const string &tt = "") {
	string r;
	for (auto &d : v) { const Dom &a = dom(p, d.s), &b = dom(p, d.t); string s = tup(d.s, a.d, IN), t = tup(d.t, b.d, OUT);
		if (!st.empty()) { s = "[" + s + " -> " + st + "]"; t = "[" + t + " -> " + tt + "]"; }
		r += string(r.empty() ? "" : "; ") + s + " -> " + t + " : " + (a.cond.empty() ? "true" : "(" + a.cond + ")") + " and " + (b.cond.empty() ? "true" : "(" + cond2(b.cond) + ")") + " and (" + d.r.text + ")" + (ord ? " and " + order_text(p, d.s, d.t, a.d, b.d) : ""); }
	return "[n] -> { " + r + " }";
}
static vector<std::pair<string, std::function<void()>>> OPT;
static void defaults() {
	isl_options_set_schedule_serialize_sccs(ctx, 0); isl_options_set_schedule_whole_component(ctx, 0); isl_options_set_schedule_maximize_band_depth(ctx, 0); isl_options_set_schedule_maximize_coincidence(ctx, 0);
	isl_options_set_schedule_outer_coincidence(ctx, 0); isl_options_set_schedule_split_scaled(ctx, 1); isl_options_set_schedule_treat_coalescing(ctx, 1); isl_options_set_schedule_algorithm(ctx, ISL_SCHEDULE_ALGORITHM_ISL);
	isl_options_set_schedule_max_coefficient(ctx, -1); isl_options_set_schedule_max_constant_term(ctx, -1); isl_options_set_schedule_carry_self_first(ctx, 1); isl_options_set_schedule_separate_components(ctx, 1);
}
static void init_opts() {
#define O(N, ...) OPT.push_back({N, [] { defaults(); __VA_ARGS__; }});
	O("default") O("serialize_sccs", isl_options_set_schedule_serialize_sccs(ctx, 1)) O("whole_component", isl_options_set_schedule_whole_component(ctx, 1)) O("feautrier", isl_options_set_schedule_algorithm(ctx, ISL_SCHEDULE_ALGORITHM_FEAUTRIER))
	O("maximize_band_depth", isl_options_set_schedule_maximize_band_depth(ctx, 1)) O("maximize_coincidence", isl_options_set_schedule_maximize_coincidence(ctx, 1)) O("outer_coincidence", isl_options_set_schedule_outer_coincidence(ctx, 1)) O("no treat_coalescing", isl_options_set_schedule_treat_coalescing(ctx, 0))
	O("max_coefficient 1", isl_options_set_schedule_max_coefficient(ctx, 1)) O("whole_component max_band", isl_options_set_schedule_whole_component(ctx, 1); isl_options_set_schedule_maximize_band_depth(ctx, 1)) O("feautrier whole", isl_options_set_schedule_algorithm(ctx, ISL_SCHEDULE_ALGORITHM_FEAUTRIER); isl_options_set_schedule_whole_component(ctx, 1))
	O("feautrier no split/coalescing", isl_options_set_schedule_algorithm(ctx, ISL_SCHEDULE_ALGORITHM_FEAUTRIER); isl_options_set_schedule_split_scaled(ctx, 0); isl_options_set_schedule_treat_coalescing(ctx, 0))
	O("outer_coincidence whole max_band", isl_options_set_schedule_outer_coincidence(ctx, 1); isl_options_set_schedule_whole_component(ctx, 1); isl_options_set_schedule_maximize_band_depth(ctx, 1)) O("max_constant_term 0", isl_options_set_schedule_max_constant_term(ctx, 0); isl_options_set_schedule_max_coefficient(ctx, 2)) O("no carry_self_first", isl_options_set_schedule_carry_self_first(ctx, 0); isl_options_set_schedule_whole_component(ctx, 1); isl_options_set_schedule_split_scaled(ctx, 0))
	O("max band and coincidence", isl_options_set_schedule_maximize_band_depth(ctx, 1); isl_options_set_schedule_maximize_coincidence(ctx, 1); isl_options_set_schedule_outer_coincidence(ctx, 1))
#undef O
}
static string desc(const Prob &p) {
	string s = dtext(p) + " validity " + rel(p, p.val, true) + (p.coin & 1 ? " also coincidence" : "") + (p.coin & 2 ? " also proximity" : "") + (p.ctxk ? p.ctxk == 1 ? " context n >= 2" : " context n = 3" : "") + " options " + OPT[p.opt].first;
	if (!p.cval.empty()) s += " condition " + rel(p, p.cond, true, "T[]", "U[]") + " conditional validity " + rel(p, p.cval, true, "U[]", "T[]");
	return s;
}
static isl_union_map *UM(const string &s) { isl_union_map *u = isl_union_map_read_from_str(ctx, s.c_str()); if (!u) fail("parse", s); return u; }
static void judge(const Prob &p) {
	OPT[p.opt].second();
	auto who = [&] { return desc(p); };
	isl_union_set *du = isl_union_set_read_from_str(ctx, dtext(p).c_str()); if (!du) fail("parse", dtext(p));
	isl_schedule_constraints *sc = isl_schedule_constraints_on_domain(du);
	if (p.ctxk) sc = isl_schedule_constraints_set_context(sc, isl_set_read_from_str(ctx, p.ctxk == 1 ? "[n] -> { : n >= 2 }" : "[n] -> { : n = 3 }"));
	sc = isl_schedule_constraints_set_validity(sc, UM(rel(p, p.val, true)));
	if (p.coin & 1) sc = isl_schedule_constraints_set_coincidence(sc, UM(rel(p, p.val, true)));
	if (p.coin & 2) sc = isl_schedule_constraints_set_proximity(sc, UM(rel(p, p.val, true)));
	if (!p.cval.empty()) sc = isl_schedule_constraints_set_conditional_validity(sc, UM(rel(p, p.cond, true, "T[]", "U[]")), UM(rel(p, p.cval, true, "U[]", "T[]")));
	isl_schedule *s = isl_schedule_constraints_compute_schedule(sc); note_transition();
	if (!s) { string m = isl_ctx_last_error_msg(ctx) ? isl_ctx_last_error_msg(ctx) : ""; mc::take_error(); fail(cat("compute|", who()), "no schedule computed: " + m); }
	struct G { isl_schedule *s; ~G() { isl_schedule_free(s); } } g{s};
	string txt; auto text = [&] { return mc::str(isl_schedule_to_str(s)); };
	isl_space *ps = isl_space_params_alloc(ctx, 1); ps = isl_space_set_dim_name(ps, isl_dim_param, 0, "n");
	st::Reader rd(ps); st::Node root = rd.read(s);
	std::map<int, const st::Node *> byid; std::function<void(const st::Node &)> ind = [&](const st::Node &n) { byid[n.id] = &n; for (auto &c : n.ch) ind(c); }; ind(root);
	bool coinc_claim = false, perm_claim = false; uint64_t h = 1;
	for (int n = 0; n <= NMAX; ++n) {
		if ((p.ctxk == 1 && n < 2) || (p.ctxk == 2 && n != 3)) continue;
		st::Runner run; run.par = {n}; run.lo = -1; run.hi = 5; run.bad = [&](const string &m) { fail(cat("tree|", who()), cat("n = ", n, ": ", m, " in ", text())); };
		run.run(root, {});
		std::map<st::Inst, vector<st::Step>> at; for (auto &e : run.out) if (!at.emplace(e.i, e.key).second) fail(cat("instances|", who()), cat("n = ", n, ": ", st::show(e.i), " is scheduled twice in ", text()));
		size_t want = 0;
		for (auto &q : p.st) { const Dom &d = DOM[q.second]; Window w = d.d ? Window::cube(d.d, -1, 5) : Window(vector<std::pair<I, I>>{}); int c = d.d ? w.count : 1; for (int k = 0; k < c; ++k) { vector<I> x = d.d ? vector<I>(w.at(k), w.at(k) + d.d) : vector<I>(); I z[2] = {0, 0}; for (int a = 0; a < d.d; ++a) z[a] = x[a]; if (!d.in(n, z)) continue; ++want; if (!at.count({string(1, q.first), x})) fail(cat("instances|", who()), cat("n = ", n, ": ", st::show({string(1, q.first), x}), " is not scheduled in ", text())); } }
		if (at.size() != want) fail(cat("instances|", who()), cat("n = ", n, ": too many instances in ", text()));
		for (auto &e : at) for (auto &k : e.second) h = mc::hash_mix(h, (uint64_t) k.v * 3 + k.kind);
		vector<std::pair<const st::Inst *, const vector<st::Step> *>> all; for (auto &e : at) all.push_back({&e.first, &e.second});
		auto each = [&](const vector<Dep> &ds, std::function<void(const st::Inst &, const st::Inst &, const vector<st::Step> &, const vector<st::Step> &)> f) {
			for (auto &d : ds) for (auto &a : all) if (a.first->name[0] == d.s) for (auto &b : all) if (b.first->name[0] == d.t) {
				I x[2] = {0, 0}, y[2] = {0, 0}; for (size_t k = 0; k < a.first->x.size(); ++k) x[k] = a.first->x[k]; for (size_t k = 0; k < b.first->x.size(); ++k) y[k] = b.first->x[k];
				if (!order_ok(p, d.s, d.t, a.first->x.size(), b.first->x.size(), x, y) || !d.r.f(n, x, y)) continue;
				f(*a.first, *b.first, *a.second, *b.second); } };
		// bands reached together by two instances: (start, end) ranges of steps with equal earlier steps
		auto bands = [&](const vector<st::Step> &a, const vector<st::Step> &b, std::function<void(const st::Node &, size_t, size_t)> f) {
			for (size_t k = 0; k < a.size() && k < b.size();) { if (a[k].node != b[k].node) return; size_t e = k + 1; if (a[k].kind == st::BAND) { while (e < a.size() && a[e].node == a[k].node && a[e].kind == st::BAND) ++e; f(*byid[a[k].node], k, e); }
				for (size_t q = k; q < e; ++q) if (a[q].v != b[q].v) return; k = e; } };
		each(p.val, [&](const st::Inst &a, const st::Inst &b, const vector<st::Step> &ka, const vector<st::Step> &kb) {
			note_validated(); int o = st::order(ka, kb); if (o != -1) fail(cat("validity|", who()), cat("n = ", n, ": ", st::show(a), " -> ", st::show(b), o == 0 ? " scheduled together" : o == 1 ? " reversed" : " unordered", " in ", text()));
			bands(ka, kb, [&](const st::Node &nd, size_t s0, size_t e0) { if (!nd.perm) return; perm_claim = true; for (size_t k = s0; k < e0; ++k) if (kb[k].v < ka[k].v) fail(cat("permutable|", who()), cat("n = ", n, ": ", st::show(a), " -> ", st::show(b), " has a negative distance at member ", k - s0, " of a permutable band in ", text())); }); });
		// coincidence: members before the first nonzero distance in outer nodes; the whole prefix (outside the band) equal
		if (p.coin & 1) each(p.val, [&](const st::Inst &a, const st::Inst &b, const vector<st::Step> &ka, const vector<st::Step> &kb) {
			bands(ka, kb, [&](const st::Node &nd, size_t s0, size_t e0) { for (size_t k = s0; k < e0; ++k) if (nd.coin[k - s0]) { coinc_claim = true; if (ka[k].v != kb[k].v) fail(cat("coincident|", who()), cat("n = ", n, ": ", st::show(a), " -> ", st::show(b), " has a nonzero distance at coincident member ", k - s0, " in ", text())); } }); });
		if (!p.cval.empty()) {
			struct P { st::Inst a, b; const vector<st::Step> *ka, *kb; }; vector<P> cs;
			each(p.cond, [&](const st::Inst &a, const st::Inst &b, const vector<st::Step> &ka, const vector<st::Step> &kb) { cs.push_back({a, b, &ka, &kb}); });
			each(p.cval, [&](const st::Inst &a, const st::Inst &b, const vector<st::Step> &ka, const vector<st::Step> &kb) {
				bands(ka, kb, [&](const st::Node &nd, size_t s0, size_t e0) {
					bool viol = false; for (size_t k = s0; k < e0; ++k) if (ka[k].v != kb[k].v) { viol = kb[k].v < ka[k].v; break; }
					if (!viol) return; note_outcome("conditional validity reversed");
					for (auto &c : cs) if (c.b == a || c.a == b) bands(*c.ka, *c.kb, [&](const st::Node &n2, size_t s1, size_t e1) { if (n2.id != nd.id) return; for (size_t k = s1; k < e1; ++k) if ((*c.ka)[k].v != (*c.kb)[k].v) fail(cat("conditional|", who()), cat("n = ", n, ": conditional validity ", st::show(a), " -> ", st::show(b), " is violated in a band where condition ", st::show(c.a), " -> ", st::show(c.b), " is not zero in ", text())); }); }); }); }
	}
	note_state(h); if (coinc_claim) note_outcome("coincident checked"); if (perm_claim) note_outcome("permutable checked");
}
int main(int argc, char **argv) {
	mc::Harness h; h.property = "C17"; h.bounds["spaces"] = "all combinations of dependence rules between one, two or three statements (0-2 dims, five domain kinds, consistent with an original order) x coincidence/proximity roles x 16 option settings; every computed tree is interpreted for n = 0..4 and each related pair of instances is checked";
	bool th = tier_thorough(argc, argv); init_opts(); int NO = OPT.size();
	auto add = [&](const string &n, uint64_t size, std::function<bool(uint64_t, Prob &)> mkp) { h.add(mc::SpaceDef(n, size, [=](uint64_t i) { Prob p; if (mkp(i, p)) judge(p); }, [=](uint64_t i) { Prob p; return mkp(i, p) ? desc(p) : string("-"); })); };
	static vector<Rule> R2 = {RU("k = i + 1 and l = j", k == i + 1 && l == j), RU("k = i and l = j + 1", k == i && l == j + 1), RU("k = i + 1 and l = j - 1", k == i + 1 && l == j - 1), RU("k = i + 1 and l = j + 1", k == i + 1 && l == j + 1), RU("k = i + 1 and l = j - 2", k == i + 1 && l == j - 2), RU("k = i + 2 and l = j - 1", k == i + 2 && l == j - 1), RU("k = i", k == i), RU("l = j", l == j), RU("k = j and l = i", k == j && l == i), RU("k + l = i + j", k + l == i + j), RU("k = i + 1", k == i + 1), RU("k = n - 1 - i and l = j", k == n - 1 - i && l == j), RU("k = 2i and l = j", k == 2 * i && l == j), RU("l = 0 and j = n - 1", l == 0 && j == n - 1)};
	static vector<Rule> R1 = {RU("k = i", k == i), RU("k = i + 1", k == i + 1), RU("k = i + 2", k == i + 2), RU("k >= i", k >= i), RU("k = 2i", k == 2 * i), RU("2k = i", 2 * k == i), RU("k = n - 1 - i", k == n - 1 - i), RU("i = 0", i == 0), RU("k = n - 1", k == n - 1)};
	// subsets of at most three rules on one statement
	static vector<vector<int>> SUB; for (size_t a = 0; a <= R2.size(); ++a) for (size_t b = a; b <= R2.size(); ++b) for (size_t c = b; c <= R2.size(); ++c) { set<int> q; for (size_t z : {a, b, c}) if (z < R2.size()) q.insert(z); vector<int> v(q.begin(), q.end()); if (std::find(SUB.begin(), SUB.end(), v) == SUB.end() && (th || v.size() < 3 || (a + b + c) % 7 == 0)) SUB.push_back(v); }
	static vector<int> D2 = {1, 2, 3, 6};
	{ mc::Radix r{SUB.size(), D2.size(), 4, (uint64_t) NO}; add("one", r.size(), [=](uint64_t i, Prob &p) { auto x = r.at(i); if (!th && (x[2] != 3 || x[1] > 0) && (x[0] + x[1] * 3 + x[2] * 5 + x[3]) % 7) return false; p.st = {{'S', D2[x[1]]}}; p.loops = {2}; for (int q : SUB[x[0]]) p.val.push_back({'S', 'S', R2[q]}); p.coin = x[2]; p.opt = x[3]; p.ctxk = x[0] % 5 == 1 ? 1 : 0; return true; }); }
	// two one-dimensional statements
	{ uint64_t K = R1.size() + 1; mc::Radix r{4, K, K, 4, 2, (uint64_t) NO, 2};
		add("two", r.size(), [=](uint64_t i, Prob &p) { auto x = r.at(i); if (!th && (x[0] * 3 + x[1] + x[2] * 7 + x[3] * 11 + x[4] * 5 + x[5] * 3 + x[6]) % 9) return false; p.st = {{'S', x[6] ? 4 : 0}, {'T', 0}}; p.loops = x[4] ? V{1, 1} : V{0, 0};
			static int SELF[] = {-1, 1, 2, 3}; if (SELF[x[0]] >= 0) p.val.push_back({'S', 'S', R1[SELF[x[0]]]}); if (x[1]) p.val.push_back({'S', 'T', R1[x[1] - 1]}); if (x[2]) p.val.push_back({'T', 'S', R1[x[2] - 1]}); if (SELF[x[3]] >= 0) p.val.push_back({'T', 'T', R1[SELF[x[3]]]}); p.coin = 3; p.opt = x[5]; p.ctxk = (x[1] + x[2]) % 6 == 5 ? 2 : 0; return true; }); }
	// statements of different dimension
	static vector<Rule> RA = {RU("k = i", k == i), RU("k = i and l = 0", k == i && l == 0), RU("l = i", l == i), RU("k + l = i", k + l == i), RU("k = i + 1", k == i + 1), RU("true", true)}, RB = {RU("k = i", k == i), RU("k = j", k == j), RU("k = i + j", k == i + j), RU("k = i and j = n - 1", k == i && j == n - 1), RU("k = i + 1", k == i + 1), RU("true", true)};
	{ mc::Radix r{RA.size() + 1, RB.size() + 1, 5, 3, 3, 2, (uint64_t) NO};
		add("mixed", r.size(), [=](uint64_t i, Prob &p) { auto x = r.at(i); if (!th && (x[0] * 3 + x[1] + x[2] * 7 + x[3] * 11 + x[4] * 5 + x[5] * 3 + x[6]) % 11) return false; int td = x[3] == 0 ? 1 : x[3] == 1 ? 2 : 3; p.st = {{'S', 0}, {'T', td}, {'U', x[4] == 2 ? 5 : 0}}; p.loops = x[5] ? V{1, 1, x[4] == 2 ? 0 : 1} : V{0, 0, 0};
			if (x[0]) p.val.push_back({'S', 'T', RA[x[0] - 1]}); if (x[1]) p.val.push_back({'T', 'U', x[4] == 2 ? RU("true", true) : RB[x[1] - 1]}); if (x[4] == 1) p.val.push_back({'U', 'S', RU("k = i + 1", k == i + 1)});
			if (x[2]) p.val.push_back({'T', 'T', R2[x[2] - 1]}); p.coin = 3; p.opt = x[6]; return true; }); }
	// three statements in a row: fusion and clustering
	{ uint64_t K = 7; mc::Radix r{K, K, K, 3, 2, (uint64_t) NO};
		add("three", r.size(), [=](uint64_t i, Prob &p) { auto x = r.at(i); if (!th && (x[0] * 3 + x[1] + x[2] * 7 + x[3] * 11 + x[4] * 5 + x[5] * 3) % 5) return false; p.st = {{'S', 0}, {'T', 0}, {'U', 0}}; p.loops = x[4] ? V{1, 1, 1} : V{0, 0, 0}; static int Q[] = {-1, 0, 1, 3, 4, 6, 8};
			if (Q[x[0]] >= 0) p.val.push_back({'S', 'T', R1[Q[x[0]]]}); if (Q[x[1]] >= 0) p.val.push_back({'T', 'U', R1[Q[x[1]]]}); if (Q[x[2]] >= 0) p.val.push_back({'S', 'U', R1[Q[x[2]]]}); if (x[3] == 1) p.val.push_back({'U', 'S', R1[1]}); if (x[3] == 2) p.val.push_back({'T', 'T', R1[1]}), p.val.push_back({'U', 'U', R1[2]}); p.coin = 3; p.opt = x[5]; return true; }); }
	// two two-dimensional statements
	{ uint64_t K = R2.size() + 1; mc::Radix r{K, K, 3, 3, (uint64_t) NO};
		add("two2", r.size(), [=](uint64_t i, Prob &p) { auto x = r.at(i); if (!th && (x[0] * 3 + x[1] + x[2] * 5 + x[3] * 3 + x[4]) % 8) return false; p.st = {{'S', 1}, {'T', 1}}; p.loops = x[3] == 0 ? V{0, 0} : x[3] == 1 ? V{1, 1} : V{2, 2};
			if (x[0]) p.val.push_back({'S', 'T', R2[x[0] - 1]}); if (x[1]) p.val.push_back({'T', 'S', R2[x[1] - 1]}); if (x[2]) p.val.push_back({x[2] == 1 ? 'S' : 'T', x[2] == 1 ? 'S' : 'T', R2[x[2] - 1]}); if (x[0] < 8) p.val.push_back({'S', 'T', RU("k = i and l = j", k == i && l == j)}); p.coin = 3; p.opt = x[4]; return true; }); }
	// conditional validity: live ranges (condition) and order constraints between them
	{ mc::Radix r{5, 5, 5, 4, 2, (uint64_t) NO};
		add("conditional", r.size(), [=](uint64_t i, Prob &p) { auto x = r.at(i); if (!th && (x[0] * 3 + x[1] + x[2] * 7 + x[3] * 11 + x[4] * 5 + x[5] * 3) % 3) return false; p.st = {{'S', x[4] ? 1 : 0}, {'T', x[4] ? 1 : 0}}; p.loops = {1, 1}; if (x[4]) p.loops = {2, 2};
			static vector<Rule> C1 = {RU("k = i", k == i), RU("k = i + 1", k == i + 1), RU("k >= i", k >= i), RU("k = n - 1 - i", k == n - 1 - i), RU("k = 2i", k == 2 * i)}, C2 = {RU("k = i and l = j", k == i && l == j), RU("k = i and l = j + 1", k == i && l == j + 1), RU("k = i + 1 and l = j", k == i + 1 && l == j), RU("k = j and l = i", k == j && l == i), RU("k = i", k == i)};
			auto &C = x[4] ? C2 : C1; p.cond = {{'S', 'T', C[x[0]]}}; p.cval = {{'T', 'S', C[x[1]]}}; p.val = {{'S', 'T', C[x[0]]}}; if (x[2]) p.val.push_back({'S', 'S', C[x[2]]}); if (x[3] & 1) p.val.push_back({'T', 'T', C[1]}); if (x[3] & 2) p.cval.push_back({'T', 'S', C[2]}); p.coin = 3; p.opt = x[5]; return true; }); }
	return mc::run(argc, argv, h);
}
