// C16: dependence analysis against a brute-force execution of the access trace, per element.
#include "common.hpp"
#include <isl/flow.h>
#include <isl/schedule.h>
#include <memory>
typedef vector<int> V;
static const int NMAX = 3;
// ---- accesses -------------------------------------------------------------------------------
struct Acc { string text; std::function<vector<std::pair<char, int>>(int, const V &)> f; };   // text uses i (and j); "-> <text>"
static string it(int d) { return d == 1 ? "i" : "i,j"; }
static bool inband(int d, int n, const V &x) { for (int k = 0; k < d; ++k) if (x[k] < 0 || x[k] >= n) return false; return true; }
static string dom(int d) { return d == 1 ? "0 <= i < n" : "0 <= i < n and 0 <= j < n"; }
typedef vector<std::pair<char, int>> E;
static vector<Acc> A1 = {
	{"A[i]", [](int, const V &x) { return E{{'A', x[0]}}; }},
	{"A[0]", [](int, const V &x) { return E{{'A', 0}}; }},
	{"A[i+1]", [](int, const V &x) { return E{{'A', x[0] + 1}}; }},
	{"A[2i]", [](int, const V &x) { return E{{'A', 2 * x[0]}}; }},
	{"A[i - 2*floor(i/2)]", [](int, const V &x) { return E{{'A', x[0] % 2}}; }},
	{"A[n-1-i]", [](int n, const V &x) { return E{{'A', n - 1 - x[0]}}; }},
	{"A[a] : 0 <= a <= i", [](int, const V &x) { E e; for (int a = 0; a <= x[0]; ++a) e.push_back({'A', a}); return e; }},
	{"A[i] : i >= 1", [](int, const V &x) { return x[0] >= 1 ? E{{'A', x[0]}} : E{}; }},
	{"A[floor(i/2)]", [](int, const V &x) { return E{{'A', x[0] / 2}}; }},
	{"B[i]", [](int, const V &x) { return E{{'B', x[0]}}; }},
};
static vector<Acc> A2 = {
	{"A[i+j]", [](int, const V &x) { return E{{'A', x[0] + x[1]}}; }},
	{"A[j]", [](int, const V &x) { return E{{'A', x[1]}}; }},
	{"A[i]", [](int, const V &x) { return E{{'A', x[0]}}; }},
	{"A[j-i+2]", [](int, const V &x) { return E{{'A', x[1] - x[0] + 2}}; }},
	{"A[2i+j]", [](int, const V &x) { return E{{'A', 2 * x[0] + x[1]}}; }},
	{"A[j] : j <= i", [](int, const V &x) { return x[1] <= x[0] ? E{{'A', x[1]}} : E{}; }},
	{"A[a] : j <= a <= i", [](int, const V &x) { E e; for (int a = x[1]; a <= x[0]; ++a) e.push_back({'A', a}); return e; }},
	{"A[0]", [](int, const V &x) { return E{{'A', 0}}; }},
};
// ---- schedules ------------------------------------------------------------------------------
// statements S, T, R; time vectors; text per statement; tree
struct Sch { string name; std::map<char, string> map; std::function<V(char, int, const V &)> f; string tree; bool injective; };
static int pos(char s) { return s == 'S' ? 0 : s == 'T' ? 1 : 2; }
static string mp(std::map<char, string> m, int d) { string s; for (auto &kv : m) s += string(s.empty() ? "" : "; ") + kv.first + "[" + it(d) + "] -> [" + kv.second + "]"; return s; }
static string band(const std::map<char, string> &m, int d) {       // m: comma separated expressions per statement
	std::map<char, vector<string>> p; size_t k = 0;
	for (auto &kv : m) { string c; int depth = 0; for (char ch : kv.second) { if (ch == '(') ++depth; if (ch == ')') --depth; if (ch == ',' && !depth) { p[kv.first].push_back(c); c.clear(); } else c += ch; } p[kv.first].push_back(c); k = p[kv.first].size(); }
	string r = "["; for (size_t i = 0; i < k; ++i) { r += (i ? ", {" : "{"); bool first = true; for (auto &kv : p) { r += string(first ? " " : "; ") + kv.first + "[" + it(d) + "] -> [" + kv.second[i] + "]"; first = false; } r += " }"; }
	return "schedule: \"[n] -> " + r + "]\"";
}
static string filt(const string &st, int d) { string r = "filter: \"[n] -> {"; for (size_t i = 0; i < st.size(); ++i) r += string(i ? "; " : " ") + st[i] + "[" + it(d) + "]"; return r + " }\""; }
static string child(const string &t) { return t.empty() ? "" : ", child: { " + t + " }"; }
static string seq(vector<std::pair<string, string>> v, int d) { string r = "sequence: ["; for (size_t i = 0; i < v.size(); ++i) r += string(i ? ", " : " ") + "{ " + filt(v[i].first, d) + child(v[i].second) + " }"; return r + " ]"; }
static vector<Sch> schedules(int d) {
	vector<Sch> r; auto all = [](string s) { return std::map<char, string>{{'S', s}, {'T', s}, {'R', s}}; };
	auto app = [](std::map<char, string> m, std::map<char, string> n) { for (auto &kv : m) kv.second += (kv.second.empty() ? "" : ",") + n[kv.first]; return m; };
	std::map<char, string> P{{'S', "0"}, {'T', "1"}, {'R', "2"}}, Q{{'S', "2"}, {'T', "1"}, {'R', "0"}}, C{{'S', "0"}, {'T', "0"}, {'R', "1"}}, Z = all("0"), D{{'S', "0"}, {'T', "1"}, {'R', "1"}};
	std::map<char, string> none = all("");
	string X = d == 1 ? "i" : "i,j";
	auto cat2 = [](V a, V b) { a.insert(a.end(), b.begin(), b.end()); return a; };
	auto at = [](const char *t) { return [t](char s) { return t[pos(s)] - '0'; }; };
	auto Pf = at("012"), Qf = at("210"), Cf = at("001"), Df = at("011");
	r.push_back({"inner-seq", app(all(X), P), [=](char s, int n, const V &x) { return cat2(x, {Pf(s)}); }, band(all(X), d) + child(seq({{"S", ""}, {"T", ""}, {"R", ""}}, d)), true});
	r.push_back({"outer-seq", app(P, all(X)), [=](char s, int n, const V &x) { return cat2({Pf(s)}, x); }, seq({{"S", band({{'S', X}}, d)}, {"T", band({{'T', X}}, d)}, {"R", band({{'R', X}}, d)}}, d), true});
	r.push_back({"reversed-seq", app(all(X), Q), [=](char s, int n, const V &x) { return cat2(x, {Qf(s)}); }, band(all(X), d) + child(seq({{"R", ""}, {"T", ""}, {"S", ""}}, d)), true});
	r.push_back({"coscheduled-inner", app(all(X), C), [=](char s, int n, const V &x) { return cat2(x, {Cf(s)}); }, band(all(X), d) + child(seq({{"ST", ""}, {"R", ""}}, d)), true});
	r.push_back({"coscheduled-outer", app(C, all(X)), [=](char s, int n, const V &x) { return cat2({Cf(s)}, x); }, seq({{"ST", band({{'S', X}, {'T', X}}, d)}, {"R", band({{'R', X}}, d)}}, d), true});
	r.push_back({"all-coscheduled", all(X), [=](char s, int n, const V &x) { return x; }, band(all(X), d), true});
	r.push_back({"mixed", app(app(D, all(X)), P), [=](char s, int n, const V &x) { return cat2(cat2({Df(s)}, x), {Pf(s)}); }, seq({{"S", band({{'S', X}}, d)}, {"TR", band({{'T', X}, {'R', X}}, d) + child(seq({{"T", ""}, {"R", ""}}, d))}}, d), true});
	if (d == 1) {
		r.push_back({"backward", app(all("-i"), P), [=](char s, int n, const V &x) { return V{-x[0], Pf(s)}; }, band(all("-i"), d) + child(seq({{"S", ""}, {"T", ""}, {"R", ""}}, d)), true});
		r.push_back({"speeds", {{'S', "i"}, {'T', "2i"}, {'R', "i"}}, [=](char s, int n, const V &x) { return V{s == 'T' ? 2 * x[0] : x[0]}; }, band({{'S', "i"}, {'T', "2i"}, {'R', "i"}}, d), true});
		r.push_back({"shift", {{'S', "i,0"}, {'T', "i+1,0"}, {'R', "i,1"}}, [=](char s, int n, const V &x) { return V{x[0] + (s == 'T'), s == 'R'}; }, band({{'S', "i"}, {'T', "i+1"}, {'R', "i"}}, d) + child(seq({{"ST", ""}, {"R", ""}}, d)), true});
		r.push_back({"param-rev", {{'S', "n-i,0"}, {'T', "i,1"}, {'R', "i,2"}}, [=](char s, int n, const V &x) { return V{s == 'S' ? n - x[0] : x[0], Pf(s)}; }, band({{'S', "n-i"}, {'T', "i"}, {'R', "i"}}, d) + child(seq({{"S", ""}, {"T", ""}, {"R", ""}}, d)), true});
		r.push_back({"tiles", {{'S', "floor(i/2),0"}, {'T', "floor(i/2),1"}, {'R', "floor(i/2),2"}}, [=](char s, int n, const V &x) { return V{x[0] / 2, Pf(s)}; }, band(all("floor(i/2)"), d) + child(seq({{"S", ""}, {"T", ""}, {"R", ""}}, d)), false});
	} else {
		r.push_back({"interchange", app(all("j,i"), P), [=](char s, int n, const V &x) { return V{x[1], x[0], Pf(s)}; }, band(all("j,i"), d) + child(seq({{"S", ""}, {"T", ""}, {"R", ""}}, d)), true});
		r.push_back({"skew", app(all("i+j,i"), P), [=](char s, int n, const V &x) { return V{x[0] + x[1], x[0], Pf(s)}; }, band(all("i+j,i"), d) + child(seq({{"S", ""}, {"T", ""}, {"R", ""}}, d)), true});
		r.push_back({"imperfect", app(app(all("i"), P), all("j")), [=](char s, int n, const V &x) { return V{x[0], Pf(s), x[1]}; }, band(all("i"), d) + child(seq({{"S", band({{'S', "j"}}, d)}, {"T", band({{'T', "j"}}, d)}, {"R", band({{'R', "j"}}, d)}}, d)), true});
		r.push_back({"tiled", app(all("floor(i/2),j,i"), P), [=](char s, int n, const V &x) { return V{x[0] / 2, x[1], x[0], Pf(s)}; }, band(all("floor(i/2),j,i"), d) + child(seq({{"S", ""}, {"T", ""}, {"R", ""}}, d)), true});
	}
	return r;
}
static vector<Sch> SCH[3];
// ---- program --------------------------------------------------------------------------------
struct Prog { int d; vector<std::pair<char, int>> acc[4]; int sch; };   // acc[0] sinks, 1 must, 2 may, 3 kill: (statement, access)
static const vector<Acc> &menu(int d) { return d == 1 ? A1 : A2; }
static string rel(const Prog &p, int k) {
	string s;
	for (auto &a : p.acc[k]) { string t = menu(p.d)[a.second].text; size_t c = t.find(" : "); string cond = dom(p.d); if (c != string::npos) { cond += " and " + t.substr(c + 3); t = t.substr(0, c); } s += string(s.empty() ? "" : "; ") + a.first + "[" + it(p.d) + "] -> " + t + " : " + cond; }
	return "[n] -> { " + s + " }";
}
static string desc(const Prog &p) { static const char *N[] = {"sink", "must", "may", "kill"}; string s; for (int k = 0; k < 4; ++k) if (!p.acc[k].empty()) s += string(N[k]) + " " + rel(p, k) + " "; return s + "schedule " + SCH[p.d][p.sch].name; }
typedef set<vector<int>> Rel;
struct Truth { Rel must, may, mustd, mayd, no_must, no_may, no_must_opt, no_may_opt; };   // the two opt sets: either answer accepted (only killed data)
static vector<V> insts(int d, int n) { vector<V> r; for (int i = 0; i < n; ++i) if (d == 1) r.push_back({i}); else for (int j = 0; j < n; ++j) r.push_back({i, j}); return r; }
static vector<int> tup(int n, char s, const V &x, char t, const V &y, char a, int e) { vector<int> r{n, s}; r.insert(r.end(), x.begin(), x.end()); if (t) { r.push_back(t); r.insert(r.end(), y.begin(), y.end()); } if (a) { r.push_back(a); r.push_back(e); } return r; }
static Truth truth(const Prog &p) {
	Truth r; const Sch &sc = SCH[p.d][p.sch]; const auto &M = menu(p.d);
	struct Src { char s; V x; V t; bool must, may, kill; };
	for (int n = 0; n <= NMAX; ++n) {
		std::map<std::pair<char, int>, std::map<std::pair<char, V>, Src>> tr;
		for (int k = 1; k < 4; ++k) for (auto &a : p.acc[k]) for (auto &x : insts(p.d, n)) for (auto &e : M[a.second].f(n, x)) {
			Src &q = tr[e].emplace(std::make_pair(a.first, x), Src{a.first, x, sc.f(a.first, n, x), false, false, false}).first->second;
			(k == 1 ? q.must : k == 2 ? q.may : q.kill) = true;
		}
		for (auto &a : p.acc[0]) for (auto &x : insts(p.d, n)) for (auto &e : M[a.second].f(n, x)) {
			V t = sc.f(a.first, n, x); bool have = false; V last; vector<const Src *> c, y;
			for (auto &kv : tr[e]) if ((kv.second.must || kv.second.kill) && kv.second.t < t && (!have || kv.second.t > last)) { have = true; last = kv.second.t; }
			for (auto &kv : tr[e]) if (kv.second.t < t && (!have || kv.second.t >= last)) (kv.second.must || kv.second.kill ? c : y).push_back(&kv.second);
			vector<int> nosrc = tup(n, a.first, x, 0, {}, e.first, e.second);
			bool mustdep = c.size() == 1 && y.empty(), anysrc = false;
			auto add = [&](bool must, const Src *s) {
				vector<int> f = tup(n, s->s, s->x, a.first, x, e.first, e.second), g = tup(n, s->s, s->x, a.first, x, 0, 0);
				if (must) { r.must.insert(f); r.mustd.insert(g); } r.may.insert(f); r.mayd.insert(g); };
			for (auto s : c) if (s->must || s->may) { add(mustdep && s->must, s); anysrc = true; }
			for (auto s : y) { add(false, s); anysrc = true; }
			if (c.empty() && y.empty()) r.no_must.insert(nosrc);
			else if (!anysrc) r.no_must_opt.insert(nosrc);
			if (c.empty()) r.no_may.insert(nosrc);          // possibly no source at all
			else { bool k = false; for (auto s : c) k = k || !s->must; if (k) r.no_may_opt.insert(nosrc); }
		}
	}
	return r;
}
// takes u: all points (n, statement/array names and coordinates)
static Rel points(isl_union_map *u, int d) {
	Rel r; if (!u) { mc::take_error(); fail("flow", "no result"); }
	isl_map_list *l = isl_union_map_get_map_list(u); int k = isl_map_list_n_map(l);
	std::unique_ptr<isl_union_map, isl_union_map *(*)(isl_union_map *)> hu(u, isl_union_map_free); std::unique_ptr<isl_map_list, isl_map_list *(*)(isl_map_list *)> hl(l, isl_map_list_free);
	for (int i = 0; i < k; ++i) {
		isl_map *m = isl_map_list_get_at(l, i);
		string names; { isl_space *sp = isl_map_get_space(m); std::function<void(isl_space *)> rec = [&](isl_space *q) {
			isl_space *a = isl_space_domain(isl_space_copy(q)), *b = isl_space_range(isl_space_copy(q));
			for (isl_space *h : {a, b}) { if (isl_space_is_wrapping(h)) { isl_space *w = isl_space_unwrap(isl_space_copy(h)); rec(w); isl_space_free(w); } else names += isl_space_get_tuple_name(h, isl_dim_set); isl_space_free(h); } };
			rec(sp); isl_space_free(sp); }
		m = isl_map_flatten(m);
		isl_id *id = isl_id_alloc(ctx, "n", nullptr); isl_space *ps = isl_space_params_alloc(ctx, 1); ps = isl_space_set_dim_id(ps, isl_dim_param, 0, id); m = isl_map_align_params(m, ps);
		int nd = isl_map_dim(m, isl_dim_all); static std::map<int, Window> ws;
		if (!ws.count(nd * 4 + d)) { vector<std::pair<I, I>> b{{0, NMAX}}; for (int q = 1; q < nd; ++q) b.push_back({-1, d == 1 ? 5 : 3}); if (d == 2 && names.size() && nd % 2 == 0) b.back() = {-1, 7}; ws[nd * 4 + d] = Window(b); }
		const Window &w = ws[nd * 4 + d]; Bits b; try { b = bits_map(m, w); } catch (...) { isl_map_free(m); throw; } isl_map_free(m);
		for (int q = 0; q < w.count; ++q) if (bit(b, q)) {
			const I *x = w.at(q); vector<int> t{(int) x[0]}; int c = 1;
			for (char nm : names) { t.push_back(nm); int dd = nm == 'A' || nm == 'B' ? 1 : d; for (int z = 0; z < dd; ++z) t.push_back((int) x[c++]); }
			r.insert(t);
		}
	}
	return r;
}
static string show(const vector<int> &t) { string s; for (int v : t) s += v >= 'A' ? string(" ") + (char) v : " " + std::to_string(v); return s; }
static void same(const char *what, const Rel &got, const Rel &want, const Rel *opt, const std::function<string()> &who) {
	note_validated();
	for (auto &t : got) if (!want.count(t) && !(opt && opt->count(t))) fail(cat(what, "|", who()), cat("contains [n, ...]", show(t), " which should not be there"));
	for (auto &t : want) if (!got.count(t)) fail(cat(what, "|", who()), cat("misses [n, ...]", show(t)));
	uint64_t h = 77; for (auto &t : got) for (int v : t) h = mc::hash_mix(h, v); note_state(mc::hash_mix(h, mc::hash_str(what)));
}
static isl_union_map *UM(const string &s) { isl_union_map *u = isl_union_map_read_from_str(ctx, s.c_str()); if (!u) fail("parse", s); return u; }
static isl_schedule *tree(const Sch &sc, int d) {
	string dm = "[n] -> { "; for (char c : {'S', 'T', 'R'}) dm += string(1, c) + "[" + it(d) + "] : " + dom(d) + (c == 'R' ? "" : "; ");
	string y = "{ domain: \"" + dm + " }\"" + child(sc.tree) + " }"; isl_schedule *s = isl_schedule_read_from_str(ctx, y.c_str()); if (!s) fail("parse schedule", y); return s;
}
static isl_union_map *schmap(const Sch &sc, int d) { return UM("[n] -> { " + mp(sc.map, d) + " }"); }
static isl_union_access_info *info(const Prog &p, bool use_tree) {
	isl_union_access_info *ai = isl_union_access_info_from_sink(UM(rel(p, 0)));
	if (!p.acc[1].empty()) ai = isl_union_access_info_set_must_source(ai, UM(rel(p, 1)));
	if (!p.acc[2].empty()) ai = isl_union_access_info_set_may_source(ai, UM(rel(p, 2)));
	if (!p.acc[3].empty()) ai = isl_union_access_info_set_kill(ai, UM(rel(p, 3)));
	return use_tree ? isl_union_access_info_set_schedule(ai, tree(SCH[p.d][p.sch], p.d)) : isl_union_access_info_set_schedule_map(ai, schmap(SCH[p.d][p.sch], p.d));
}
static void judge(const Prog &p, bool use_tree, const Truth &t) {
	auto who = [&] { return desc(p) + (use_tree ? " (tree)" : " (map)"); };
	isl_union_flow *f = isl_union_access_info_compute_flow(info(p, use_tree)); note_transition();
	if (!f) { mc::take_error(); fail(cat("compute|", who()), "no flow computed"); }
	struct G { isl_union_flow *f; ~G() { isl_union_flow_free(f); } } g{f};
	same("full_must", points(isl_union_flow_get_full_must_dependence(f), p.d), t.must, nullptr, who);
	same("full_may", points(isl_union_flow_get_full_may_dependence(f), p.d), t.may, nullptr, who);
	same("must", points(isl_union_flow_get_must_dependence(f), p.d), t.mustd, nullptr, who);
	same("may", points(isl_union_flow_get_may_dependence(f), p.d), t.mayd, nullptr, who);
	same("must_no_source", points(isl_union_flow_get_must_no_source(f), p.d), t.no_must, &t.no_must_opt, who);
	same("may_no_source", points(isl_union_flow_get_may_no_source(f), p.d), t.no_may, &t.no_may_opt, who);
	note_outcome(t.must.empty() ? "no-must" : "must"); if (t.may.size() > t.must.size()) note_outcome("may-only");
}
static void judge_both(const Prog &p) { Truth t = truth(p); judge(p, false, t); judge(p, true, t); }
static void judge_old(const Prog &p) {
	Truth t = truth(p); auto who = [&] { return desc(p) + " (isl_union_map_compute_flow)"; };
	isl_union_map *must, *may, *mns, *yns;
	string e = "[n] -> { }";
	int ok = isl_union_map_compute_flow(UM(rel(p, 0)), p.acc[1].empty() ? UM(e) : UM(rel(p, 1)), p.acc[2].empty() ? UM(e) : UM(rel(p, 2)), schmap(SCH[p.d][p.sch], p.d), &must, &may, &mns, &yns); note_transition();
	if (ok < 0) { mc::take_error(); fail(cat("compute|", who()), "failed"); }
	Rel rm = points(must, p.d), ry = points(may, p.d), n1 = points(mns, p.d), n2 = points(yns, p.d);
	same("must", rm, t.mustd, nullptr, who);
	Rel un = rm; un.insert(ry.begin(), ry.end()); same("must+may", un, t.mayd, nullptr, who);
	same("must_no_source", n1, t.no_must, nullptr, who); Rel nn = n1; nn.insert(n2.begin(), n2.end()); same("no_source", nn, t.no_may, nullptr, who);
}
// ---- low-level interface ---------------------------------------------------------------------
struct Tok { char s; int nest; };    // nest: 0 imperfect (one shared loop), 1 perfect (all loops shared), 2 separate nests
static int level(void *a, void *b) { Tok *x = (Tok *) a, *y = (Tok *) b; int d = x->nest >> 4, n = x->nest & 15; int shared = x->s == y->s ? d : n == 0 ? 1 : n == 1 ? d : 0; return 2 * shared + (pos(x->s) < pos(y->s)); }
struct Col { int d; Rel must, may; bool self; };
static isl_restriction *rnone(isl_map *m, isl_set *, void *, void *) { return isl_restriction_none(isl_map_copy(m)); }
static isl_restriction *rin(isl_map *m, isl_set *s, void *, void *) { return isl_restriction_input(isl_set_universe(isl_space_range(isl_map_get_space(m))), isl_set_universe(isl_set_get_space(s))); }
static isl_restriction *rout(isl_map *m, isl_set *, void *, void *) { return isl_restriction_output(isl_set_universe(isl_space_range(isl_map_get_space(m)))); }
static void lowlevel(const Prog &p, int nest, int restr) {
	// the accesses of S, T and R in the given nest; the equivalent schedule gives the truth
	Truth t = truth(p); auto who = [&] { return cat(desc(p), " (isl_access_info, restriction ", restr, ")"); };
	std::vector<std::unique_ptr<Tok>> toks; auto tok = [&](char c) { toks.emplace_back(new Tok{c, nest | p.d << 4}); return (void *) toks.back().get(); };
	auto one = [&](int k, size_t i) { Prog q = p; q.acc[k] = {p.acc[k][i]}; return isl_map_from_union_map(UM(rel(q, k))); };
	isl_access_info *ai = isl_access_info_alloc(one(0, 0), tok(p.acc[0][0].first), &level, p.acc[1].size() + p.acc[2].size());
	for (int k = 1; k < 3; ++k) for (size_t i = 0; i < p.acc[k].size(); ++i) ai = isl_access_info_add_source(ai, one(k, i), k == 1, tok(p.acc[k][i].first));
	if (restr) ai = isl_access_info_set_restrict(ai, restr == 1 ? rnone : restr == 2 ? rin : rout, nullptr);
	isl_flow *f = isl_access_info_compute_flow(ai); note_transition(); if (!f) { mc::take_error(); fail(cat("compute|", who()), "failed"); }
	struct G { isl_flow *f; ~G() { isl_flow_free(f); } } g{f};
	struct CC { Col c; std::exception_ptr e; } c{{p.d}, nullptr};
	if (isl_flow_foreach(f, [](isl_map *m, int must, void *du, void *user) { CC *c = (CC *) user;
		try { isl_union_map *u = isl_union_map_from_map(m); Rel r = points(u, c->c.d); (must ? c->c.must : c->c.may).insert(r.begin(), r.end()); if (r.empty()) note_outcome("empty-dep"); } catch (...) { c->e = std::current_exception(); return isl_stat_error; }
		return isl_stat_ok; }, &c) < 0) { mc::take_error(); if (c.e) std::rethrow_exception(c.e); fail(cat("foreach|", who()), "failed"); }
	same("must", c.c.must, t.mustd, nullptr, who); Rel un = c.c.must; un.insert(c.c.may.begin(), c.c.may.end()); same("must+may", un, t.mayd, nullptr, who);
	Rel n1 = points(isl_union_map_from_map(isl_flow_get_no_source(f, 1)), p.d), n2 = points(isl_union_map_from_map(isl_flow_get_no_source(f, 0)), p.d);
	same("no_source(must)", n1, t.no_must, nullptr, who); n1.insert(n2.begin(), n2.end()); same("no_source", n1, t.no_may, nullptr, who);
}

int main(int argc, char **argv) {
	mc::Harness h; h.property = "C16"; h.bounds["spaces"] = "every combination of sink access x (two or three) source accesses, each must, may, kill or absent, on statements S, T or the sink's own statement x schedules (relations and trees) for one- and two-deep nests; all parameter values 0..3; every dependence and no-source tuple compared with a brute-force trace";
	bool th = tier_thorough(argc, argv); SCH[1] = schedules(1); SCH[2] = schedules(2);
	auto add = [&](const string &n, mc::Radix r, std::function<Prog(const vector<uint64_t> &)> mkp, std::function<void(const Prog &, const vector<uint64_t> &)> f) {
		h.add(mc::SpaceDef(n, r.size(), [=](uint64_t i) { auto x = r.at(i); f(mkp(x), x); }, [=](uint64_t i) { return desc(mkp(r.at(i))); })); };
	// source option: 0 absent, else kind and access
	auto src = [](Prog &p, char s, uint64_t o, const vector<int> &m) { if (!o) return; --o; p.acc[1 + o % 3].push_back({s, m[o / 3]}); };
	static vector<int> M1 = th ? vector<int>{0, 1, 2, 3, 4, 5, 6, 7, 8, 9} : vector<int>{0, 1, 2, 5, 6, 7, 8}, M2 = th ? vector<int>{0, 1, 2, 3, 4, 5, 6, 7} : vector<int>{0, 1, 3, 5, 6};
	static vector<int> K1 = th ? M1 : vector<int>{0, 1, 3, 4, 6, 9}, K2 = th ? M2 : vector<int>{0, 1, 5};
	static vector<int> T1 = th ? M1 : vector<int>{0, 1, 5, 6}, T2 = th ? M2 : vector<int>{1, 4};
	auto mk1 = [=](const vector<uint64_t> &x) { Prog p; p.d = 1; p.acc[0] = {{'R', K1[x[0]]}}; src(p, 'S', x[1], M1); src(p, 'T', x[2], T1); p.sch = x[3]; return p; };
	auto mk2 = [=](const vector<uint64_t> &x) { Prog p; p.d = 2; p.acc[0] = {{'R', K2[x[0]]}}; src(p, 'S', x[1], M2); src(p, 'T', x[2], T2); p.sch = x[3]; return p; };
	add("two1", {K1.size(), 1 + 3 * M1.size(), 1 + 3 * T1.size(), SCH[1].size()}, mk1, [](const Prog &p, const vector<uint64_t> &) { judge_both(p); });
	add("two2", {K2.size(), 1 + 3 * M2.size(), 1 + 3 * T2.size(), SCH[2].size()}, mk2, [](const Prog &p, const vector<uint64_t> &) { judge_both(p); });
	// several accesses per statement, sources on the sink's own statement, overlapping kinds, several sinks
	static vector<int> O1 = {0, 1, 2, 6};
	add("self", {O1.size(), 1 + 3 * O1.size(), 1 + 3 * O1.size(), 1 + 3 * O1.size(), SCH[1].size()}, [=](const vector<uint64_t> &x) { Prog p; p.d = 1; p.acc[0] = {{'R', O1[x[0]]}, {'T', O1[(x[0] + 1) % O1.size()]}}; src(p, 'R', x[1], O1); src(p, x[2] % 2 ? 'T' : 'R', x[2], O1); src(p, 'S', x[3], O1); p.sch = x[4]; return p; },
		[=](const Prog &p, const vector<uint64_t> &x) { if (!th && (x[0] + x[1] * 3 + x[2] * 5 + x[3] * 7 + x[4]) % 7) return; judge_both(p); });
	static vector<Sch> inj; 
	add("old", {K1.size(), 1 + 2 * M1.size(), 1 + 2 * T1.size(), SCH[1].size()}, [=](const vector<uint64_t> &x) { Prog p; p.d = 1; p.acc[0] = {{'R', K1[x[0]]}}; auto s2 = [&](char s, uint64_t o, const vector<int> &m) { if (o) { --o; p.acc[1 + o % 2].push_back({s, m[o / 2]}); } }; s2('S', x[1], M1); s2('T', x[2], T1); p.sch = x[3]; return p; },
		[=](const Prog &p, const vector<uint64_t> &x) { judge_old(p); });
	// low level: inner-seq = perfect nest, outer-seq = separate, imperfect (2d)
	static vector<std::pair<int, int>> NEST1 = {{0, 1}, {1, 2}}, NEST2 = {{0, 1}, {1, 2}, {9, 0}};   // schedule index, nest kind
	auto lowp = [=](int d, const vector<uint64_t> &x) { Prog p; p.d = d; auto &K = d == 1 ? K1 : K2; auto &M = d == 1 ? M1 : M2; auto &T = d == 1 ? T1 : T2; p.acc[0] = {{'R', K[x[0]]}}; auto s2 = [&](char s, uint64_t o, const vector<int> &m) { if (o) { --o; int a = m[o / 2]; if (d == 1 && (K[x[0]] == 9) != (a == 9)) return; p.acc[1 + o % 2].push_back({s, a}); } }; s2('S', x[1], M); s2('T', x[2], T); s2('R', x[3], {0, 1}); p.sch = (d == 1 ? NEST1 : NEST2)[x[4]].first; return p; };
	for (int d = 1; d <= 2; ++d) { auto &K = d == 1 ? K1 : K2; auto &M = d == 1 ? M1 : M2; auto &T = d == 1 ? T1 : T2;
		add(cat("low", d), {K.size(), 1 + 2 * M.size(), 1 + 2 * T.size(), 5, d == 1 ? 2ul : 3ul, 4}, [=](const vector<uint64_t> &x) { return lowp(d, x); },
			[=](const Prog &p, const vector<uint64_t> &x) { if (!th && x[5] != (x[0] + x[1] + x[2]) % 4) return; lowlevel(p, (d == 1 ? NEST1 : NEST2)[x[4]].second, x[5]); }); }
	return mc::run(argc, argv, h);
}
