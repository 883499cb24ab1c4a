// C18: schedule tree operations explored as sequences of operations at every node of small trees, against a model on explicit
// statement instances: a tree is decoded through the public accessors and evaluated on every instance for n = 0..3.
#include "schedtree.hpp"
using st::Inst;
typedef vector<int> Path; typedef std::set<Inst> IS;
static const I LO = -1, HI = 4; static const int NMAX = 3;
static bool g_th;
static string errmsg() { const char *m = isl_ctx_last_error_msg(ctx); string s = m ? m : "no error"; mc::take_error(); return "operation failed: " + s; }
struct CT {
	int type; vector<CT> ch; IS dom; int nm = 0; std::map<Inst, vector<I>> val; bool perm = false; vector<bool> coin; vector<int> lt; string mark;
	std::set<std::pair<Inst, Inst>> ex; std::set<std::pair<vector<I>, Inst>> ext; std::set<vector<I>> pts; bool big = false;
	bool leaf() const { return type == isl_schedule_node_leaf; }
	bool multi() const { return type == isl_schedule_node_sequence || type == isl_schedule_node_set; }
};
static CT mkleaf() { CT c; c.type = isl_schedule_node_leaf; return c; }
static string iname(const Inst &i) { return "n=" + S(i.x[0]) + ":" + st::show({i.name, vector<I>(i.x.begin() + 1, i.x.end())}); }
static string tyname(int t) { switch (t) { case isl_schedule_node_band: return "band"; case isl_schedule_node_context: return "context"; case isl_schedule_node_domain: return "domain"; case isl_schedule_node_expansion: return "expansion"; case isl_schedule_node_extension: return "extension"; case isl_schedule_node_filter: return "filter"; case isl_schedule_node_leaf: return "leaf"; case isl_schedule_node_guard: return "guard"; case isl_schedule_node_mark: return "mark"; case isl_schedule_node_sequence: return "sequence"; case isl_schedule_node_set: return "set"; } return "?"; }
typedef std::function<void(const string &)> Bad;
static vector<vector<I>> box(int d) { vector<vector<I>> r; if (!d) { r.push_back({}); return r; } Window w = Window::cube(d, LO, HI); for (int k = 0; k < w.count; ++k) r.emplace_back(w.at(k), w.at(k) + d); return r; }
static vector<I> cat2(vector<I> a, const vector<I> &b) { a.insert(a.end(), b.begin(), b.end()); return a; }
static IS members(const std::map<string, Pts> &m) { IS r; for (auto &kv : m) for (auto &x : box(kv.second.ni + kv.second.no)) for (I n = 0; n <= NMAX; ++n) { vector<I> p = cat2({n}, x); if (mdl::contains(kv.second, p.data())) r.insert({kv.first, p}); } return r; }
static bool has(const std::map<string, Pts> &m, const Inst &i) { auto it = m.find(i.name); return it != m.end() && it->second.ni + it->second.no + 1 == (int) i.x.size() && mdl::contains(it->second, i.x.data()); }
static CT conc(const st::Node &n, IS reach, int depth, const Bad &bad) {
	CT c; c.type = n.type;
	switch (n.type) {
	case isl_schedule_node_domain: c.dom = reach = members(n.set); break;
	case isl_schedule_node_filter: for (auto &i : reach) if (has(n.set, i)) c.dom.insert(i); reach = c.dom; break;
	case isl_schedule_node_mark: c.mark = n.mark; break;
	case isl_schedule_node_band: c.nm = n.mem.size(); c.perm = n.perm; c.coin = n.coin; c.lt = n.lt;
		for (auto &i : reach) { vector<I> v; for (int k = 0; k < c.nm; ++k) { auto it = n.mem[k].find(i.name); Rat q; if (it == n.mem[k].end() || eval(it->second, i.x.data(), q) < 1) bad(cat("band member ", k, " is not defined on ", iname(i))); if (!q.isint()) bad("band value is not integral at " + iname(i)); v.push_back(q.n); } c.val[i] = v; }
		depth += c.nm; break;
	case isl_schedule_node_expansion: { IS nr; for (auto &i : reach) { bool any = false; for (auto &m : n.um) if (m.in == i.name && m.ni + 1 == (int) i.x.size()) for (auto &y : box(m.no)) { vector<I> p = cat2(i.x, y); if (!mdl::contains(m.p, p.data())) continue; any = true; Inst e{m.out, cat2({i.x[0]}, y)}; c.ex.insert({i, e}); nr.insert(e);
				bool ok = false; for (auto &k : n.contr) if (k.in == m.out && k.out == m.in && k.ni + 1 == (int) e.x.size() && k.no + 1 == (int) i.x.size()) { vector<I> q = cat2(e.x, vector<I>(i.x.begin() + 1, i.x.end())); ok = ok || mdl::contains(k.p, q.data()); } if (!ok) bad("contraction does not map " + iname(e) + " to " + iname(i)); }
			if (!any) bad("expansion does not expand " + iname(i)); }
		reach = nr; break; }
	case isl_schedule_node_extension: if (depth > 2) c.big = true;
		for (auto &m : n.um) { if (m.ni != depth) bad("extension does not match the outer bands"); if (c.big) continue; for (auto &s : box(depth)) for (auto &y : box(m.no)) for (I v = 0; v <= NMAX; ++v) { vector<I> p = cat2(cat2({v}, s), y); if (mdl::contains(m.p, p.data())) { Inst e{m.out, cat2({v}, y)}; c.ext.insert({cat2({v}, s), e}); reach.insert(e); } } }
		break;
	case isl_schedule_node_context: case isl_schedule_node_guard: if (n.ctx.ni + n.ctx.no != depth) bad("context or guard does not match the outer bands"); if (depth > 2) { c.big = true; break; }
		for (auto &s : box(depth)) for (I v = 0; v <= NMAX; ++v) { vector<I> p = cat2({v}, s); if (mdl::contains(n.ctx, p.data())) c.pts.insert(p); } break;
	default: break;
	}
	for (auto &k : n.ch) { if (c.multi() && k.type != isl_schedule_node_filter) bad("child of a sequence or set is not a filter"); c.ch.push_back(conc(k, reach, depth, bad)); }
	if (c.multi()) { if (c.ch.empty()) bad("empty sequence"); for (auto &i : reach) { int q = 0; for (auto &k : c.ch) q += k.dom.count(i); if (q > 1) bad(cat(iname(i), " appears in ", q, " children of a ", tyname(c.type))); } }
	else if (c.leaf() ? !c.ch.empty() : c.ch.size() != 1) bad(tyname(c.type) + " with unexpected number of children");
	return c;
}
static CT read(isl_schedule *s, const Bad &bad) { isl_space *ps = isl_space_params_alloc(ctx, 1); ps = isl_space_set_dim_name(ps, isl_dim_param, 0, "n"); st::Reader rd(ps); st::Node r = rd.read(s); return conc(r, {}, 0, bad); }
static CT read(isl_schedule_node *n, const Bad &bad) { isl_schedule *s = isl_schedule_node_get_schedule(n); struct G { isl_schedule *s; ~G() { isl_schedule_free(s); } } g{s}; return read(s, bad); }
// restrict everything to the instances that reach it
static void rebase(CT &c, IS reach) {
	switch (c.type) {
	case isl_schedule_node_domain: reach = c.dom; break;
	case isl_schedule_node_filter: { IS k; for (auto &i : c.dom) if (reach.count(i)) k.insert(i); c.dom = reach = k; break; }
	case isl_schedule_node_band: { std::map<Inst, vector<I>> v; for (auto &i : reach) v[i] = c.val.at(i); c.val = v; break; }
	case isl_schedule_node_expansion: { IS nr; std::set<std::pair<Inst, Inst>> e; for (auto &p : c.ex) if (reach.count(p.first)) { e.insert(p); nr.insert(p.second); } c.ex = e; reach = nr; break; }
	case isl_schedule_node_extension: for (auto &p : c.ext) reach.insert(p.second); break;
	default: break;
	}
	for (auto &k : c.ch) rebase(k, reach);
}
static bool anyof(const CT &c, std::function<bool(const CT &)> f) { if (f(c)) return true; for (auto &k : c.ch) if (anyof(k, f)) return true; return false; }
static bool hasext(const CT &c) { return anyof(c, [](const CT &k) { return k.type == isl_schedule_node_extension; }); }
static bool anchored(const CT &c) { return anyof(c, [](const CT &k) { return k.type == isl_schedule_node_extension || k.type == isl_schedule_node_context || k.type == isl_schedule_node_guard; }); }
static IS after(const CT &c, const IS &reach) { switch (c.type) { case isl_schedule_node_domain: case isl_schedule_node_filter: return c.dom; case isl_schedule_node_expansion: { IS r; for (auto &p : c.ex) r.insert(p.second); return r; } case isl_schedule_node_extension: { IS r = reach; for (auto &p : c.ext) r.insert(p.second); return r; } } return reach; }
static CT norm(const CT &c, const IS &reach, bool seqchild = false) {
	if (reach.empty() && c.type != isl_schedule_node_domain && !hasext(c)) { if (!seqchild) return mkleaf(); }
	IS nr = after(c, reach);
	if (c.type == isl_schedule_node_filter) { CT r = c; CT q = norm(c.ch[0], nr); if (q.type == isl_schedule_node_filter) r = q; else r.ch = {q}; if (!seqchild) { if (r.dom == reach) return r.ch[0]; if (r.dom.empty() && !hasext(r)) { if (reach.empty()) return mkleaf(); r.ch = {mkleaf()}; } } return r; }
	if (c.type == isl_schedule_node_expansion) { bool id = true; for (auto &e : c.ex) id = id && e.first == e.second; if (id) return norm(c.ch[0], nr, seqchild); }
	if (c.type == isl_schedule_node_band && !c.nm) return norm(c.ch[0], reach);
	CT r = c; r.ch.clear();
	for (auto &k : c.ch) { CT q = norm(k, nr, c.multi()); if (c.multi()) { if (q.dom.empty() && !hasext(q)) continue; if (q.ch[0].type == c.type) { for (auto &z : q.ch[0].ch) r.ch.push_back(z); continue; } } r.ch.push_back(q); }
	if (c.multi()) { IS cov; for (auto &k : r.ch) cov.insert(k.dom.begin(), k.dom.end()); CT f; f.type = isl_schedule_node_filter; f.dom = cov;
		if (r.ch.empty()) { if (reach.empty()) return mkleaf(); f.ch = {mkleaf()}; return f; } if (r.ch.size() == 1) { CT z = r.ch[0]; if (z.dom == reach) return z.ch[0]; return z; } if (cov != nr) { f.ch = {r}; return f; } }
	return r;
}
// does some sequence or set drop instances that reach it?
static bool lossy(const CT &c, const IS &reach, bool mc = false) { IS nr = after(c, reach); if (c.type == isl_schedule_node_filter && !mc && nr != reach) return true; if (c.multi()) { IS cov; for (auto &k : c.ch) for (auto &i : k.dom) cov.insert(i); for (auto &i : nr) if (!cov.count(i)) return true; } for (auto &k : c.ch) if (lossy(k, nr, c.multi())) return true; return false; }
static string diff(const CT &a, const CT &b, bool attr) {
	if (a.type != b.type) return tyname(a.type) + " instead of " + tyname(b.type);
	if (a.dom != b.dom) { for (auto &i : a.dom) if (!b.dom.count(i)) return tyname(a.type) + " has extra " + iname(i); for (auto &i : b.dom) if (!a.dom.count(i)) return tyname(a.type) + " misses " + iname(i); }
	if (a.nm != b.nm) return cat("band with ", a.nm, " instead of ", b.nm, " members");
	for (auto &v : b.val) { auto it = a.val.find(v.first); if (it == a.val.end()) return "band does not see " + iname(v.first); for (int k = 0; k < a.nm; ++k) if (it->second[k] != v.second[k]) return cat("band member ", k, " is ") + S(it->second[k]) + " instead of " + S(v.second[k]) + " at " + iname(v.first); }
	if (a.val.size() != b.val.size()) return "band sees too many instances";
	if (a.mark != b.mark) return "mark " + a.mark + " instead of " + b.mark;
	if (a.ex != b.ex) return "different expansion"; if (!a.big && !b.big && a.ext != b.ext) return "different extension"; if (!a.big && !b.big && a.pts != b.pts) return "different context or guard";
	if (attr && (a.perm != b.perm || a.coin != b.coin)) return "different band properties";
	if (a.ch.size() != b.ch.size()) return cat(tyname(a.type), " with ", a.ch.size(), " instead of ", b.ch.size(), " children");
	for (size_t k = 0; k < a.ch.size(); ++k) { string d = diff(a.ch[k], b.ch[k], attr); if (!d.empty()) return tyname(a.type) + cat("/", k, ": ") + d; }
	return "";
}
static const CT &at(const CT &c, const Path &p) { const CT *q = &c; for (int k : p) q = &q->ch.at(k); return *q; }
static CT &at(CT &c, const Path &p) { CT *q = &c; for (int k : p) q = &q->ch.at(k); return *q; }
static IS reach_at(const CT &c, const Path &p) { const CT *q = &c; IS r; for (int k : p) { r = after(*q, r); q = &q->ch.at(k); } return r; }
// instances added by extensions that reach a position
static IS added_at(const CT &c, const Path &p) { const CT *q = &c; IS r; for (int k : p) { if (q->type == isl_schedule_node_extension) for (auto &e : q->ext) r.insert(e.second); if (q->type == isl_schedule_node_filter) { IS t; for (auto &i : r) if (q->dom.count(i)) t.insert(i); r = t; } if (q->type == isl_schedule_node_expansion) { IS t; for (auto &e : q->ex) if (r.count(e.first)) t.insert(e.second); r = t; } q = &q->ch.at(k); } return r; }
static bool big_above(const CT &c, const Path &p) { const CT *q = &c; for (int k : p) { if (q->type == isl_schedule_node_extension && q->big) return true; q = &q->ch.at(k); } return false; }
static Path parent(Path p) { p.pop_back(); return p; }
static bool under_multi(const CT &c, const Path &p) { return !p.empty() && at(c, parent(p)).multi(); }
static int depth_at(const CT &c, const Path &p) { int d = 0; const CT *q = &c; for (int k : p) { if (q->type == isl_schedule_node_band) d += q->nm; q = &q->ch.at(k); } return d; }
// outer band values of the instances that reach a position (through expansions)
static std::map<Inst, vector<I>> prefix_at(const CT &c, const Path &p) {
	std::map<Inst, vector<I>> m; const CT *q = &c;
	for (int k : p) {
		switch (q->type) {
		case isl_schedule_node_domain: for (auto &i : q->dom) m[i]; break;
		case isl_schedule_node_filter: for (auto it = m.begin(); it != m.end();) it = q->dom.count(it->first) ? std::next(it) : m.erase(it); break;
		case isl_schedule_node_band: for (auto &e : m) e.second = cat2(e.second, q->val.at(e.first)); break;
		case isl_schedule_node_expansion: { std::map<Inst, vector<I>> r; for (auto &e : q->ex) if (m.count(e.first)) r[e.second] = m[e.first]; m = r; break; }
		default: break;
		}
		q = &q->ch.at(k);
	}
	return m;
}
// executions below a node
struct Ex { Inst i; vector<st::Step> key; vector<I> bands; Inst top; };
struct Exer { int next = 0; vector<Ex> out; vector<st::Step> pre;
	void run(const CT &c, vector<Ex> cur) {
		int id = next++;
		switch (c.type) {
		case isl_schedule_node_domain: for (auto &i : c.dom) cur.push_back({i, {}, {}, i}); break;
		case isl_schedule_node_filter: { vector<Ex> k; for (auto &e : cur) if (c.dom.count(e.i)) k.push_back(e); cur = k; break; }
		case isl_schedule_node_band: for (auto &e : cur) { auto &v = c.val.at(e.i); for (int m = 0; m < c.nm; ++m) { e.key.push_back({st::BAND, v[m], id, m}); e.bands.push_back(v[m]); } } for (int m = 0; m < c.nm; ++m) pre.push_back({st::BAND, 0, id, m}); break;
		case isl_schedule_node_expansion: { vector<Ex> k; for (auto &e : cur) for (auto &p : c.ex) if (p.first == e.i) { Ex f = e; f.i = p.second; k.push_back(f); } cur = k; break; }
		case isl_schedule_node_extension: for (auto &p : c.ext) { Ex f{p.second, pre, {}, p.second}; size_t j = 1; for (auto &s : f.key) if (s.kind == st::BAND) { s.v = p.first[j++]; f.bands.push_back(s.v); } cur.push_back(f); } break;
		default: break;
		}
		for (size_t k = 0; k < c.ch.size(); ++k) { if (!c.multi()) { run(c.ch[k], cur); continue; } st::Step s{c.type == isl_schedule_node_set ? st::SET : st::SEQ, (I) k, id, -1}; vector<Ex> q; for (auto &e : cur) if (c.ch[k].dom.count(e.i)) { q.push_back(e); q.back().key.push_back(s); } pre.push_back(s); run(c.ch[k], q); pre.pop_back(); }
		if (c.type == isl_schedule_node_band) for (int m = 0; m < c.nm; ++m) pre.pop_back();
		if (c.ch.empty()) out.insert(out.end(), cur.begin(), cur.end());
	}
};
static vector<Ex> execs(const CT &c) { Exer x; x.run(c, {}); return x.out; }
static string order_diff(const CT &a, const CT &b) {
	auto idx = [](const vector<Ex> &v) { std::map<std::pair<Inst, vector<I>>, const Ex *> m; for (auto &e : v) m[{e.i, e.bands}] = &e; return m; };
	auto va = execs(a), vb = execs(b); auto ma = idx(va), mb = idx(vb);
	if (ma.size() != va.size()) return "an instance is executed twice";
	for (auto &e : mb) if (!ma.count(e.first)) return "misses " + iname(e.first.first); for (auto &e : ma) if (!mb.count(e.first)) return "extra " + iname(e.first.first);
	for (auto &x : mb) for (auto &y : mb) if (x.first.first.x[0] == y.first.first.x[0] && x.first < y.first) { int o = st::order(x.second->key, y.second->key), p = st::order(ma[x.first]->key, ma[y.first]->key); if (o != p) return cat("order of ", iname(x.first.first), " and ", iname(y.first.first), " is ", p, " instead of ", o); }
	return "";
}
// ---- alphabets -----------------------------------------------------------------------------
typedef std::function<bool(const Inst &, vector<I> &)> Fn;      // values of a partial schedule on an instance
struct Mupa { string text; int nm; Fn f; };
#define MU(T, N, A, B, C) Mupa{"[n] -> " T, N, [](const Inst &s, vector<I> &v) -> bool { I n = s.x[0], i = s.x.size() > 1 ? s.x[1] : 0, j = s.x.size() > 2 ? s.x[2] : 0; (void) n; (void) i; (void) j; if (s.name == "A") v = A; else if (s.name == "B") v = B; else if (s.name == "C") v = C; else return false; return true; }}
#define L(...) vector<I>{__VA_ARGS__}
static vector<Mupa> MUPA = {
	MU("[{ A[i] -> [(i)]; B[i, j] -> [(i)]; C[i] -> [(i)] }]", 1, L(i), L(i), L(i)),
	MU("[{ A[i] -> [(-i)]; B[i, j] -> [(j)]; C[i] -> [(n - i)] }]", 1, L(-i), L(j), L(n - i)),
	MU("[{ A[i] -> [(i)/2]; B[i, j] -> [(i + j)/2]; C[i] -> [(-i)/2] }]", 1, L(fdiv(i, 2)), L(fdiv(i + j, 2)), L(fdiv(-i, 2))),
	MU("[{ A[i] -> [(floor(i/2))]; B[i, j] -> [(i + n)]; C[i] -> [(1)] }, { A[i] -> [(0)]; B[i, j] -> [(i - 2j)]; C[i] -> [(i)] }]", 2, (L(fdiv(i, 2), 0)), (L(i + n, i - 2 * j)), (L(1, i))),
};
typedef std::function<bool(const Inst &)> Pred;
struct Flt { string text; Pred f; };
#define FL(T, A, B, C) Flt{"[n] -> { " T " }", [](const Inst &s) -> bool { I n = s.x[0], i = s.x.size() > 1 ? s.x[1] : 0, j = s.x.size() > 2 ? s.x[2] : 0; (void) n; (void) i; (void) j; return s.name == "A" ? (bool) (A) : s.name == "B" ? (bool) (B) : s.name == "C" ? (bool) (C) : false; }}
static vector<Flt> FLT = {
	FL("A[i]", 1, 0, 0), FL("A[i] : i = 0; B[i, j] : i >= 1", i == 0, i >= 1, 0), FL("A[i] : i mod 2 = 0; B[i, j] : j = 0; C[i]", i % 2 == 0, j == 0, 1),
	FL("A[i] : i >= 0; B[i, j] : i >= 0; C[i]", i >= 0, i >= 0, 1), FL("C[i]", 0, 0, 1), FL("A[i] : i < n - 1; B[i, j] : j <= i", i < n - 1, j <= i, 0), FL("B[i, j] : i >= j", 0, i >= j, 0),
};
static vector<vector<Flt>> PART = {
	{FL("A[i]", 1, 0, 0), FL("B[i, j]; C[i]", 0, 1, 1)}, {FL("B[i, j]", 0, 1, 0), FL("C[i]", 0, 0, 1), FL("A[i]", 1, 0, 0)},
	{FL("A[i] : i mod 2 = 0; B[i, j] : j = 0; C[i]", i % 2 == 0, j == 0, 1), FL("A[i] : i mod 2 = 1; B[i, j] : j != 0", i % 2 != 0, j != 0, 0)},
	{FL("A[i] : i <= 0; B[i, j] : i <= 0; C[i]", i <= 0, i <= 0, 1), FL("A[i] : i = 1; B[i, j] : i = 1", i == 1, i == 1, 0), FL("A[i] : i > 1; B[i, j] : i > 1", i > 1, i > 1, 0)},
};
static vector<string> TREES = {
	"{ domain: \"[n] -> { A[i] : 0 <= i < n <= 3; B[i, j] : 0 <= i < n <= 3 and 0 <= j < 2 }\" }",
	"{ domain: \"[n] -> { A[i] : 0 <= i < n <= 3; B[i, j] : 0 <= i < n <= 3 and 0 <= j < 2 }\", child: { schedule: \"[n] -> [{ A[i] -> [(i)]; B[i, j] -> [(i)] }]\", coincident: [ 1 ], child: { sequence: [ { filter: \"[n] -> { A[i] }\" }, { filter: \"[n] -> { B[i, j] }\", child: { schedule: \"[n] -> [{ B[i, j] -> [(j)] }]\" } } ] } } }",
	"{ domain: \"[n] -> { A[i] : 0 <= i < n <= 3; B[i, j] : 0 <= i < n <= 3 and 0 <= j < 2 }\", child: { sequence: [ { filter: \"[n] -> { B[i, j] }\", child: { schedule: \"[n] -> [{ B[i, j] -> [(i)] }, { B[i, j] -> [(i + j)] }]\", permutable: 1, coincident: [ 0, 1 ] } }, { filter: \"[n] -> { A[i] }\", child: { mark: \"m\", child: { schedule: \"[n] -> [{ A[i] -> [(i)] }]\" } } } ] } }",
	"{ domain: \"[n] -> { A[i] : 0 <= i < n <= 3; B[i, j] : 0 <= i < n <= 3 and 0 <= j < 2 }\", child: { set: [ { filter: \"[n] -> { A[i] }\" }, { filter: \"[n] -> { B[i, j] : j = 0 }\", child: { schedule: \"[n] -> [{ B[i, j] -> [(-i)] }]\" } }, { filter: \"[n] -> { B[i, j] : j >= 1 }\" } ] } }",
	"{ domain: \"[n] -> { A[i] : 0 <= i < n <= 3; B[i, j] : 0 <= i < n <= 3 and 0 <= j < 2 }\", child: { schedule: \"[n] -> [{ A[i] -> [(i)]; B[i, j] -> [(i)] }, { A[i] -> [(2i)]; B[i, j] -> [(3j)] }]\", permutable: 1, coincident: [ 1, 0 ], child: { mark: \"m\", child: { sequence: [ { filter: \"[n] -> { B[i, j] }\" }, { filter: \"[n] -> { A[i] }\" } ] } } } }",
	"{ domain: \"[n] -> { A[i] : 0 <= i < n <= 3; B[i, j] : 0 <= i < n <= 3 and 0 <= j < 2 }\", child: { context: \"[n] -> { [] : n >= 1 }\", child: { schedule: \"[n] -> [{ A[i] -> [(i)]; B[i, j] -> [(i)] }]\", child: { guard: \"[n] -> { [t] : t <= n }\", child: { schedule: \"[n] -> [{ A[i] -> [(0)]; B[i, j] -> [(j)] }]\" } } } } }",
	"{ domain: \"[n] -> { G[i] : 0 <= i < n <= 3 }\", child: { schedule: \"[n] -> [{ G[i] -> [(i)] }]\", child: { contraction: \"[n] -> { A[i] -> G[(i)]; B[i, j] -> G[(i)] }\", expansion: \"[n] -> { G[i] -> A[i]; G[i] -> B[i, j] : 0 <= j < 2 }\", child: { sequence: [ { filter: \"[n] -> { A[i] }\" }, { filter: \"[n] -> { B[i, j] }\", child: { schedule: \"[n] -> [{ B[i, j] -> [(-j)] }]\" } } ] } } } }",
	"{ domain: \"[n] -> { A[i] : 0 <= i < n <= 3; B[i, j] : 0 <= i < n <= 3 and 0 <= j < 2 }\", child: { sequence: [ { filter: \"[n] -> { A[i] : i < n - 1; B[i, j] : j = 0 }\", child: { sequence: [ { filter: \"[n] -> { B[i, j] }\", child: { schedule: \"[n] -> [{ B[i, j] -> [(i)] }]\" } }, { filter: \"[n] -> { A[i] }\" } ] } }, { filter: \"[n] -> { A[i] : i = n - 1 }\" }, { filter: \"[n] -> { B[i, j] : j = 1 }\", child: { sequence: [ { filter: \"[n] -> { B[i, j] : i = 0 }\" }, { filter: \"[n] -> { B[i, j] : i > 0 }\", child: { schedule: \"[n] -> [{ B[i, j] -> [(-i)] }]\" } } ] } } ] } }",
	"{ domain: \"[n] -> { A[i] : 0 <= i < n <= 3; B[i, j] : 0 <= i < n <= 3 and 0 <= j < 2 }\", child: { schedule: \"[n] -> [{ A[i] -> [(i)]; B[i, j] -> [(i)] }]\", child: { extension: \"[n] -> { [t] -> C[t] : 0 <= t <= n - 2 }\", child: { sequence: [ { filter: \"[n] -> { C[i] }\" }, { filter: \"[n] -> { A[i]; B[i, j] }\", child: { sequence: [ { filter: \"[n] -> { A[i] }\" }, { filter: \"[n] -> { B[i, j] }\", child: { schedule: \"[n] -> [{ B[i, j] -> [(j)] }]\" } } ] } } ] } } } }",
};
// ---- operations ----------------------------------------------------------------------------
enum { SKIP, OK, ERR };
struct Op { string name; std::function<isl_schedule_node *(isl_schedule_node *)> f; std::function<int(CT &, Path &)> m; int cmp = 0; int opt = 0; };   // cmp 0: exact, 1: normalised, 2: order only
static vector<Op> OPS;
static bool g_c;       // C reaches the current node
static isl_union_set *US(string s) { if (!g_c && s.find("C[i] :") == string::npos) for (string x : {"; C[i]", "C[i]"}) { size_t k = s.find(x); if (k != string::npos) s.erase(k, x.size()); }
	 isl_union_set *u = isl_union_set_read_from_str(ctx, s.c_str()); if (!u) fail("parse", s); return u; }
static isl_multi_union_pw_aff *MU_(const string &s) { isl_multi_union_pw_aff *u = isl_multi_union_pw_aff_read_from_str(ctx, s.c_str()); if (!u) fail("parse", s); return u; }
static isl_multi_val *MV(isl_schedule_node *n, const vector<std::pair<I, I>> &v) { isl_space *sp = isl_schedule_node_band_get_space(n); isl_multi_val *mv = isl_multi_val_zero(sp); int d = isl_multi_val_dim(mv, isl_dim_set); for (int k = 0; k < d; ++k) { isl_val *q = isl_val_int_from_si(ctx, (long) v[k % v.size()].first); q = isl_val_div_ui(q, (unsigned long) v[k % v.size()].second); mv = isl_multi_val_set_val(mv, k, q); } return mv; }
static CT wrap(int type, CT c) { CT r; r.type = type; r.ch.push_back(std::move(c)); return r; }
static int ins_ok(const CT &c, const Path &p) { return p.empty() || under_multi(c, p) ? ERR : OK; }
static int insert_band(CT &c, const Path &p, const Mupa &m) {
	int r = ins_ok(c, p); if (r != OK) return r; if (anchored(at(c, p))) return ERR; IS R = reach_at(c, p);
	CT b = wrap(isl_schedule_node_band, at(c, p)); b.nm = m.nm; b.coin.assign(m.nm, false); for (auto &i : R) { vector<I> v; if (!m.f(i, v)) return SKIP; b.val[i] = v; } at(c, p) = b; return OK;
}
static int insert_multi(CT &c, const Path &p, const vector<Flt> &l, int type) {
	int r = ins_ok(c, p); if (r != OK) return r; IS R = reach_at(c, p);
	for (auto &i : R) { int q = 0; for (auto &f : l) q += f.f(i); if (q != 1) return SKIP; }
	CT s; s.type = type; for (auto &f : l) { CT k = wrap(isl_schedule_node_filter, at(c, p)); for (auto &i : R) if (f.f(i)) k.dom.insert(i); s.ch.push_back(k); }
	if (hasext(at(c, p))) return SKIP;       // copies of an extension node
	at(c, p) = s; return OK;
}
static isl_union_set_list *ulist(const vector<Flt> &l) { isl_union_set_list *r = isl_union_set_list_alloc(ctx, 1); for (auto &f : l) r = isl_union_set_list_add(r, US(f.text)); return r; }
static int order(CT &c, Path &p, const Flt &f, bool before) {
	int r = ins_ok(c, p); if (r != OK) return r; if (!added_at(c, p).empty() || big_above(c, p)) return SKIP; IS R = reach_at(c, p), A, B; for (auto &i : R) (f.f(i) ? A : B).insert(i);
	if (A.empty() || B.empty()) return OK; if (hasext(at(c, p))) return SKIP;
	CT s; s.type = isl_schedule_node_sequence; CT x = wrap(isl_schedule_node_filter, at(c, p)), y = x; x.dom = A; y.dom = B; if (before) s.ch = {x, y}; else s.ch = {y, x}; at(c, p) = s; p.push_back(before ? 1 : 0); p.push_back(0); return OK;
}
static bool uses(const CT &c, const string &n) { return anyof(c, [&](const CT &k) { for (auto &i : k.dom) if (i.name == n) return true; for (auto &e : k.ext) if (e.second.name == n) return true; for (auto &e : k.ex) if (e.second.name == n || e.first.name == n) return true; return false; }); }
static int graft(CT &c, Path &p, bool ext, bool before) {
	int r = ins_ok(c, p); if (r != OK) return r; int d = depth_at(c, p); if (d > 2 || uses(c, "C")) return SKIP; IS R = reach_at(c, p);
	CT e; e.type = isl_schedule_node_extension; CT s; s.type = isl_schedule_node_sequence; CT g = wrap(isl_schedule_node_filter, mkleaf()), o = wrap(isl_schedule_node_filter, at(c, p)); o.dom = R;
	for (I n = 0; n <= NMAX; ++n) for (auto &t : box(d)) for (I i = 0; i <= HI; ++i) { if (ext ? !(i < 2 && n >= 1 && (d == 0 || t[0] <= i)) : !(i < n)) continue; Inst q{"C", {n, i}}; e.ext.insert({cat2({n}, t), q}); g.dom.insert(q); }
	CT b = wrap(isl_schedule_node_band, mkleaf()); b.nm = 1; b.coin = {false}; for (auto &q : g.dom) b.val[q] = {-q.x[1]}; g.ch[0] = b;
	if (before) s.ch = {g, o}; else s.ch = {o, g}; e.ch.push_back(s); at(c, p) = e; p.push_back(0); p.push_back(before ? 1 : 0); p.push_back(0); return OK;
}
static isl_schedule_node *graft_node(isl_schedule_node *at, bool ext) {
	isl_schedule_node *g; int d = isl_schedule_node_get_schedule_depth(at); string dims; for (int k = 0; k < d; ++k) dims += string(k ? ", " : "") + "t" + char('0' + k);
	if (!ext) g = isl_schedule_node_from_domain(US("[n] -> { C[i] : 0 <= i < n <= 3 }"));
	else g = isl_schedule_node_from_extension(isl_union_map_read_from_str(ctx, ("[n] -> { [" + dims + "] -> C[i] : 0 <= i < 2 and n >= 1" + (d ? " and t0 <= i" : "") + " }").c_str()));
	g = isl_schedule_node_child(g, 0); g = isl_schedule_node_insert_partial_schedule(g, MU_("[n] -> [{ C[i] -> [(-i)] }]")); return isl_schedule_node_root(g);
}
// replace instances in the ancestors of a position by their images
static int group(CT &c, Path &p) {
	int r = ins_ok(c, p); if (r != OK) return r; if (hasext(c)) return SKIP; if (uses(c, "H")) return SKIP; IS R = reach_at(c, p); if (R.empty()) return SKIP;
	auto pre = prefix_at(c, p); std::map<Inst, Inst> to; for (auto &e : pre) for (auto &v : e.second) if (v < LO || v > HI) return SKIP; for (auto &i : R) to[i] = {"H", cat2({i.x[0]}, pre.at(i))};
	CT e = wrap(isl_schedule_node_expansion, at(c, p)); for (auto &i : R) e.ex.insert({to[i], i}); at(c, p) = e;
	// walk up: instances at each level that lead to R
	vector<CT *> anc; CT *q = &c; for (int k : p) { anc.push_back(q); q = &q->ch[k]; }
	std::map<Inst, Inst> cur = to;
	for (int k = (int) anc.size() - 1; k >= 0; --k) { CT &a = *anc[k];
		auto mapset = [&](IS &s) { IS t; for (auto &i : s) t.insert(cur.count(i) ? cur[i] : i); s = t; };
		mapset(a.dom);
		if (a.type == isl_schedule_node_band) { std::map<Inst, vector<I>> v; for (auto &e : a.val) v[cur.count(e.first) ? cur[e.first] : e.first] = e.second; a.val = v; }
		if (a.type == isl_schedule_node_expansion) { std::set<std::pair<Inst, Inst>> x; for (auto &e : a.ex) x.insert({e.first, cur.count(e.second) ? cur[e.second] : e.second}); for (auto &e : x) for (auto &f : x) if (e.second == f.second && !(e.first == f.first)) return SKIP; a.ex = x; cur.clear(); }
	}
	p.push_back(0); return OK;
}
static int sink(CT &c, Path &p) {
	CT b = at(c, p); if (b.type != isl_schedule_node_band) return SKIP; if (anchored(b)) return ERR; if (b.ch[0].leaf()) return OK;
	std::function<void(CT &, std::map<Inst, vector<I>>)> go = [&](CT &k, std::map<Inst, vector<I>> m) {
		if (k.type == isl_schedule_node_filter) { std::map<Inst, vector<I>> r; for (auto &e : m) if (k.dom.count(e.first)) r.insert(e); m = r; }
		if (k.type == isl_schedule_node_expansion) { std::map<Inst, vector<I>> r; for (auto &e : k.ex) if (m.count(e.first)) r[e.second] = m[e.first]; m = r; }
		if (k.leaf()) { CT n = b; n.val = m; n.ch = {mkleaf()}; k = n; return; }
		for (auto &q : k.ch) go(q, m);
	};
	CT s = b.ch[0]; go(s, b.val); at(c, p) = s; return OK;
}
static int splice(CT &c, const Path &p, int pos) { CT &s = at(c, p); CT in = s.ch[pos].ch[0]; IS d = s.ch[pos].dom; s.ch.erase(s.ch.begin() + pos); s.ch.insert(s.ch.begin() + pos, in.ch.begin(), in.ch.end()); (void) d; return OK; }
#define NODE [=](isl_schedule_node *n) -> isl_schedule_node *
#define MODEL [=](CT &c, Path &p) -> int
#define BAND if (at(c, p).type != isl_schedule_node_band) return SKIP; CT &b = at(c, p); (void) b
static void init_ops() {
	auto O = [](const string &n, std::function<isl_schedule_node *(isl_schedule_node *)> f, std::function<int(CT &, Path &)> m, int cmp = 0, int opt = 0) { Op o; o.name = n; o.f = f; o.m = m; o.cmp = cmp; o.opt = opt; OPS.push_back(o); };
	for (auto &m : MUPA) O("insert_partial_schedule " + m.text, NODE { return isl_schedule_node_insert_partial_schedule(n, MU_(m.text)); }, MODEL { return insert_band(c, p, m); });
	for (auto &f : FLT) O("insert_filter " + f.text, NODE { return isl_schedule_node_insert_filter(n, US(f.text)); }, MODEL { if (p.empty()) return ERR; if (under_multi(c, p)) return SKIP; IS R = reach_at(c, p); CT k = wrap(isl_schedule_node_filter, at(c, p)); for (auto &i : R) if (f.f(i)) k.dom.insert(i); at(c, p) = k; return OK; }, 1);
	O("insert_mark", NODE { return isl_schedule_node_insert_mark(n, isl_id_alloc(ctx, "mk", nullptr)); }, MODEL { int r = ins_ok(c, p); if (r != OK) return r; CT k = wrap(isl_schedule_node_mark, at(c, p)); k.mark = "mk"; at(c, p) = k; return OK; });
	for (int g = 0; g < 2; ++g) O(g ? "insert_guard" : "insert_context", NODE { int d = isl_schedule_node_get_schedule_depth(n); isl_space *sp = isl_space_set_from_params(isl_space_params_alloc(ctx, 1)); sp = isl_space_set_dim_name(isl_space_add_dims(sp, isl_dim_set, d), isl_dim_param, 0, "n"); isl_set *s = isl_set_universe(sp); if (d) s = isl_set_lower_bound_si(s, isl_dim_set, d - 1, 1); else s = isl_set_lower_bound_si(s, isl_dim_param, 0, 2); return g ? isl_schedule_node_insert_guard(n, s) : isl_schedule_node_insert_context(n, s); },
		MODEL { int r = ins_ok(c, p); if (r != OK) return r; int d = depth_at(c, p); CT k = wrap(g ? isl_schedule_node_guard : isl_schedule_node_context, at(c, p)); if (d > 2) k.big = true; else for (I n = 0; n <= NMAX; ++n) for (auto &s : box(d)) if (d ? s[d - 1] >= 1 : n >= 2) k.pts.insert(cat2({n}, s)); at(c, p) = k; return OK; }, 1);
	for (size_t q = 0; q < PART.size(); ++q) for (int s = 0; s < 2; ++s) O(cat(s ? "insert_set " : "insert_sequence ", q), NODE { return s ? isl_schedule_node_insert_set(n, ulist(PART[q])) : isl_schedule_node_insert_sequence(n, ulist(PART[q])); }, MODEL { return insert_multi(c, p, PART[q], s ? isl_schedule_node_set : isl_schedule_node_sequence); }, 1);
	O("delete", NODE { return isl_schedule_node_delete(n); }, MODEL { CT &k = at(c, p); if (p.empty() || under_multi(c, p) || k.ch.size() != 1) return ERR; if (k.type == isl_schedule_node_band && anchored(k)) return ERR; if (k.type == isl_schedule_node_expansion || k.type == isl_schedule_node_extension) return SKIP;
		if (k.type == isl_schedule_node_filter) { bool same = k.dom == reach_at(c, p); if (!same) return SKIP; } CT x = k.ch[0]; k = x; return OK; });
	O("cut", NODE { return isl_schedule_node_cut(n); }, MODEL { if (p.empty() || under_multi(c, p)) return ERR; if (hasext(c) && at(c, p).type != isl_schedule_node_extension && 0) return SKIP; at(c, p) = mkleaf(); return OK; });
	for (int q = 0; q < 3; ++q) { vector<std::pair<I, I>> mv = q == 0 ? vector<std::pair<I, I>>{{2, 1}, {3, 1}} : q == 1 ? vector<std::pair<I, I>>{{3, 2}, {1, 1}} : vector<std::pair<I, I>>{{1, 2}, {2, 1}};
		O(cat("band_scale ", q), NODE { return isl_schedule_node_band_scale(n, MV(n, mv)); }, MODEL { BAND; if (anchored(b)) return ERR; for (auto &e : b.val) for (int k = 0; k < b.nm; ++k) e.second[k] = fdiv(e.second[k] * mv[k % 2].first, mv[k % 2].second); return OK; });
		O(cat("band_scale_down ", q), NODE { return isl_schedule_node_band_scale_down(n, MV(n, mv)); }, MODEL { BAND; if (anchored(b)) return ERR; for (auto &e : b.val) for (int k = 0; k < b.nm; ++k) e.second[k] = fdiv(e.second[k] * mv[k % 2].second, mv[k % 2].first); return OK; }); }
	for (int q = 0; q < 2; ++q) { vector<std::pair<I, I>> mv = q ? vector<std::pair<I, I>>{{3, 1}, {1, 1}} : vector<std::pair<I, I>>{{2, 1}, {3, 1}};
		O(cat("band_mod ", q), NODE { return isl_schedule_node_band_mod(n, MV(n, mv)); }, MODEL { BAND; if (anchored(b)) return ERR; for (auto &e : b.val) for (int k = 0; k < b.nm; ++k) e.second[k] -= mv[k % 2].first * fdiv(e.second[k], mv[k % 2].first); return OK; });
		for (int o = 0; o < 4; ++o) O(cat("band_tile ", q, " options ", o), NODE { return isl_schedule_node_band_tile(n, MV(n, mv)); }, MODEL { BAND; if (anchored(b)) return ERR; CT t = b, pt = b; for (auto &e : t.val) { auto &v = pt.val[e.first]; for (int k = 0; k < b.nm; ++k) { I s = mv[k % 2].first, f = fdiv(e.second[k], s); e.second[k] = o & 1 ? f * s : f; if (o & 2) v[k] -= f * s; } } t.ch = {pt}; b = t; return OK; }, 0, 1 + o); }
	for (auto &m : MUPA) { if (&m == &MUPA[2]) continue; O("band_shift " + m.text, NODE { isl_multi_union_pw_aff *s = MU_(m.text); return isl_schedule_node_band_shift(n, s); }, MODEL { BAND; if (b.nm != m.nm) return SKIP; if (anchored(b)) return ERR; if (b.val.empty()) return SKIP; for (auto &e : b.val) { vector<I> v; if (!m.f(e.first, v)) return SKIP; for (int k = 0; k < b.nm; ++k) e.second[k] += v[k]; } return OK; }); }
	for (int q = 0; q <= 2; ++q) O(cat("band_split ", q), NODE { return isl_schedule_node_band_split(n, q); }, MODEL { BAND; if (q > b.nm) return ERR; CT o = b, i = b; o.nm = q; i.nm = b.nm - q; for (auto &e : o.val) e.second.resize(q); for (auto &e : i.val) e.second.erase(e.second.begin(), e.second.begin() + q); o.coin.resize(q); i.coin.erase(i.coin.begin(), i.coin.begin() + q); o.lt.resize(q); i.lt.erase(i.lt.begin(), i.lt.begin() + q); o.ch = {i}; b = o; return OK; });
	O("band_sink", NODE { return isl_schedule_node_band_sink(n); }, MODEL { return sink(c, p); });
	for (int v = 0; v < 2; ++v) { O(cat("set_permutable ", v), NODE { return isl_schedule_node_band_set_permutable(n, v); }, MODEL { BAND; b.perm = v; return OK; });
		O(cat("set_coincident last ", v), NODE { return isl_schedule_node_band_member_set_coincident(n, isl_schedule_node_band_n_member(n) - 1, v); }, MODEL { BAND; if (!b.nm) return SKIP; b.coin[b.nm - 1] = v; return OK; });
		O(cat("set_ast_loop_type ", v), NODE { return isl_schedule_node_band_member_set_ast_loop_type(n, v ? isl_schedule_node_band_n_member(n) - 1 : 0, v ? isl_ast_loop_unroll : isl_ast_loop_separate); }, MODEL { BAND; if (!b.nm) return SKIP; b.lt[v ? b.nm - 1 : 0] = v ? isl_ast_loop_unroll : isl_ast_loop_separate; return OK; }, 3); }
	for (auto &f : FLT) for (int b = 0; b < 2; ++b) O(string(b ? "order_before " : "order_after ") + f.text, NODE { return b ? isl_schedule_node_order_before(n, US(f.text)) : isl_schedule_node_order_after(n, US(f.text)); }, MODEL { return order(c, p, f, b); }, 1);
	for (int e = 0; e < 2; ++e) for (int b = 0; b < 2; ++b) O(cat(b ? "graft_before " : "graft_after ", e ? "extension" : "domain"), NODE { isl_schedule_node *g = graft_node(n, e); return b ? isl_schedule_node_graft_before(n, g) : isl_schedule_node_graft_after(n, g); }, MODEL { return graft(c, p, e, b); }, 2);
	O("group", NODE { return isl_schedule_node_group(n, isl_id_alloc(ctx, "H", nullptr)); }, MODEL { return group(c, p); });
	for (int q = 0; q < 3; ++q) O(cat("sequence_splice_child ", q), NODE { return isl_schedule_node_sequence_splice_child(n, q); }, MODEL { CT &s = at(c, p); if (s.type != isl_schedule_node_sequence) return ERR; if (q >= (int) s.ch.size()) return ERR; if (s.ch[q].ch[0].type != isl_schedule_node_sequence) return ERR; return splice(c, p, q); });
	O("sequence_splice_children", NODE { return isl_schedule_node_sequence_splice_children(n); }, MODEL { CT &s = at(c, p); if (s.type != isl_schedule_node_sequence) return ERR; for (int k = (int) at(c, p).ch.size() - 1; k >= 0; --k) if (at(c, p).ch[k].ch[0].type == isl_schedule_node_sequence) splice(c, p, k); return OK; });
	O("reset_user", NODE { return isl_schedule_node_reset_user(n); }, MODEL { return OK; });
	O("align_params", NODE { isl_space *sp = isl_space_params_alloc(ctx, 2); sp = isl_space_set_dim_name(sp, isl_dim_param, 0, "m"); sp = isl_space_set_dim_name(sp, isl_dim_param, 1, "n"); n = isl_schedule_node_align_params(n, sp); return n; }, MODEL { return SKIP; });
	// rebuild the tree through a traversal that modifies nodes: mark every band
	O("map_descendant_bottom_up mark", NODE { return isl_schedule_node_map_descendant_bottom_up(n, [](isl_schedule_node *k, void *) -> isl_schedule_node * { if (isl_schedule_node_get_type(k) == isl_schedule_node_band) { k = isl_schedule_node_insert_mark(k, isl_id_alloc(isl_schedule_node_get_ctx(k), "bu", nullptr)); } return k; }, nullptr); },
		MODEL { std::function<void(CT &)> go = [&](CT &k) { for (auto &q : k.ch) go(q); if (k.type == isl_schedule_node_band) { CT w = wrap(isl_schedule_node_mark, k); w.mark = "bu"; k = w; } }; go(at(c, p)); return OK; });
	O("map_descendant_bottom_up delete marks", NODE { return isl_schedule_node_map_descendant_bottom_up(n, [](isl_schedule_node *k, void *) -> isl_schedule_node * { if (isl_schedule_node_get_type(k) == isl_schedule_node_mark) k = isl_schedule_node_delete(k); return k; }, nullptr); },
		MODEL { std::function<void(CT &)> go = [&](CT &k) { for (auto &q : k.ch) go(q); if (k.type == isl_schedule_node_mark) { CT w = k.ch[0]; k = w; } }; go(at(c, p)); return OK; });
}
static isl_schedule_node *goto_(isl_schedule_node *n, const Path &p) { n = isl_schedule_node_root(n); for (int k : p) n = isl_schedule_node_child(n, k); return n; }
static Path path_of(isl_schedule_node *n) { Path p; isl_schedule_node *q = isl_schedule_node_copy(n); while (isl_schedule_node_has_parent(q) == isl_bool_true) { p.insert(p.begin(), isl_schedule_node_get_child_position(q)); q = isl_schedule_node_parent(q); } isl_schedule_node_free(q); return p; }
static void paths(const CT &c, Path p, vector<Path> &out) { out.push_back(p); for (size_t k = 0; k < c.ch.size(); ++k) { p.push_back(k); paths(c.ch[k], p, out); p.pop_back(); } }
static string ptext(const Path &p) { string s = "@"; for (int k : p) s += cat("/", k); return s; }
struct NodeG { isl_schedule_node *n; ~NodeG() { isl_schedule_node_free(n); } };
// ---- queries at every node ------------------------------------------------------------------
static void queries(isl_schedule_node *root, const CT &c, const string &who) {
	vector<Path> ps; paths(c, {}, ps);
	auto bad = [&](const Path &p, const string &m) { fail("query|" + who, ptext(p) + " " + m); };
	isl_space *psp = isl_space_params_alloc(ctx, 1); psp = isl_space_set_dim_name(psp, isl_dim_param, 0, "n"); st::Reader rd(psp);
	auto contains = [](const vector<st::MapPiece> &um, const Inst &i, const vector<I> &v) { for (auto &m : um) if (m.in == i.name && m.ni + 1 == (int) i.x.size() && m.no == (int) v.size()) { vector<I> p = cat2(i.x, v); if (mdl::contains(m.p, p.data())) return true; } return false; };
	// whole traversals
	for (size_t b = 0; b < ps.size(); ++b) {
		const Path &p = ps[b]; NodeG g{goto_(isl_schedule_node_copy(root), p)}; isl_schedule_node *n = g.n; note_validated();
		const CT &k = at(c, p); IS R = reach_at(c, p); bool ex = !added_at(c, p).empty() || big_above(c, p);
		if ((int) isl_schedule_node_get_type(n) != k.type) bad(p, "type"); if (path_of(n) != p) bad(p, "navigation does not lead back"); if (isl_schedule_node_get_tree_depth(n) != (int) p.size()) bad(p, "tree_depth");
		if (isl_schedule_node_n_children(n) != (int) k.ch.size() && !(k.ch.size() == 1 && k.ch[0].leaf() && isl_schedule_node_n_children(n) == 1)) bad(p, "n_children");
		if (isl_schedule_node_has_children(n) != (k.leaf() ? isl_bool_false : isl_bool_true)) bad(p, "has_children");
		if (isl_schedule_node_has_parent(n) != (p.empty() ? isl_bool_false : isl_bool_true)) bad(p, "has_parent");
		if (isl_schedule_node_get_schedule_depth(n) != depth_at(c, p)) bad(p, "schedule_depth");
		if (isl_schedule_node_is_subtree_anchored(n) != (anchored(k) ? isl_bool_true : isl_bool_false)) { bool iso = false; if (!iso) bad(p, "is_subtree_anchored"); }
		if (!p.empty()) { const CT &pa = at(c, parent(p)); if ((int) isl_schedule_node_get_parent_type(n) != pa.type) bad(p, "parent_type"); bool pr = p.back() > 0, nx = p.back() + 1 < (int) pa.ch.size(); if (isl_schedule_node_has_previous_sibling(n) != (pr ? isl_bool_true : isl_bool_false) || isl_schedule_node_has_next_sibling(n) != (nx ? isl_bool_true : isl_bool_false)) bad(p, "siblings");
			if (pr) { NodeG h{isl_schedule_node_previous_sibling(isl_schedule_node_copy(n))}; Path q = p; --q.back(); if (path_of(h.n) != q) bad(p, "previous_sibling"); } if (nx) { NodeG h{isl_schedule_node_next_sibling(isl_schedule_node_copy(n))}; Path q = p; ++q.back(); if (path_of(h.n) != q) bad(p, "next_sibling"); }
			for (size_t gen = 0; gen <= p.size(); ++gen) { NodeG h{isl_schedule_node_ancestor(isl_schedule_node_copy(n), gen)}; Path q(p.begin(), p.end() - gen); if (path_of(h.n) != q) bad(p, cat("ancestor ", gen)); if (gen && isl_schedule_node_get_ancestor_child_position(n, h.n) != p[p.size() - gen]) bad(p, "ancestor_child_position"); } }
		if (!k.leaf()) { NodeG h{isl_schedule_node_first_child(isl_schedule_node_copy(n))}; Path q = p; q.push_back(0); if (path_of(h.n) != q) bad(p, "first_child"); }
		for (size_t b2 = 0; b2 < ps.size(); ++b2) { NodeG h{goto_(isl_schedule_node_copy(root), ps[b2])}; NodeG s{isl_schedule_node_get_shared_ancestor(n, h.n)}; Path q; for (size_t z = 0; z < p.size() && z < ps[b2].size() && p[z] == ps[b2][z]; ++z) q.push_back(p[z]); if (!s.n || path_of(s.n) != q) bad(p, "shared_ancestor with " + ptext(ps[b2])); if (isl_schedule_node_is_equal(n, h.n) != (b == b2 ? isl_bool_true : isl_bool_false)) bad(p, "is_equal with " + ptext(ps[b2])); }
		// traversals
		{ struct D { vector<Path> seen; int prune; } d; for (d.prune = 0; d.prune < 2; ++d.prune) { d.seen.clear(); isl_schedule_node_foreach_descendant_top_down(n, [](isl_schedule_node *m, void *u) -> isl_bool { D *d = (D *) u; d->seen.push_back(path_of(m)); return d->prune && isl_schedule_node_get_type(m) == isl_schedule_node_filter ? isl_bool_false : isl_bool_true; }, &d);
			vector<Path> want; std::function<void(const CT &, Path)> go = [&](const CT &q, Path r) { want.push_back(r); if (d.prune && q.type == isl_schedule_node_filter) return; for (size_t z = 0; z < q.ch.size(); ++z) { Path t = r; t.push_back(z); go(q.ch[z], t); } }; go(k, p); if (d.seen != want) bad(p, cat("foreach_descendant_top_down visits ", d.seen.size(), " instead of ", want.size(), " nodes or in another order")); }
			d.seen.clear(); isl_schedule_node_foreach_ancestor_top_down(n, [](isl_schedule_node *m, void *u) -> isl_stat { ((D *) u)->seen.push_back(path_of(m)); return isl_stat_ok; }, &d); vector<Path> want; for (size_t z = 0; z < p.size(); ++z) want.push_back(Path(p.begin(), p.begin() + z)); if (d.seen != want) bad(p, "foreach_ancestor_top_down");
			for (int ty : {(int) isl_schedule_node_leaf, (int) isl_schedule_node_set, (int) isl_schedule_node_mark}) { isl_bool r = isl_schedule_node_every_descendant(n, [](isl_schedule_node *m, void *u) -> isl_bool { return isl_schedule_node_get_type(m) == *(int *) u ? isl_bool_false : isl_bool_true; }, &ty); bool w = !anyof(k, [&](const CT &q) { return q.type == ty; }); if (r != (w ? isl_bool_true : isl_bool_false)) bad(p, "every_descendant"); }
			d.seen.clear(); NodeG h{isl_schedule_node_map_descendant_bottom_up(isl_schedule_node_copy(n), [](isl_schedule_node *m, void *u) -> isl_schedule_node * { ((D *) u)->seen.push_back(path_of(m)); return m; }, &d)}; vector<Path> wp; std::function<void(const CT &, Path)> po = [&](const CT &q, Path r) { for (size_t z = 0; z < q.ch.size(); ++z) { Path t = r; t.push_back(z); po(q.ch[z], t); } wp.push_back(r); }; po(k, p); if (d.seen != wp || path_of(h.n) != p) bad(p, "map_descendant_bottom_up"); }
		if (!ex && !p.empty()) {
			auto pre = prefix_at(c, p); int d = depth_at(c, p);
			auto dm = rd.uset(isl_schedule_node_get_domain(n)); if (members(dm) != R) bad(p, "get_domain differs from the instances that reach the node");
			bool below_ex = false; { const CT *z = &c; for (int k : p) { below_ex = below_ex || z->type == isl_schedule_node_expansion; z = &z->ch.at(k); } }
			auto um = rd.uset(isl_schedule_node_get_universe_domain(n)); for (auto &i : R) if (!um.count(i.name)) bad(p, "universe domain misses " + i.name); for (auto &kv : um) { int dd = kv.second.ni + kv.second.no; for (auto &x : box(dd)) { vector<I> q = cat2({(I) 1}, x); if (!below_ex && !mdl::contains(kv.second, q.data())) bad(p, "universe domain is not a universe"); } }
			auto mu = rd.mupa(isl_schedule_node_get_prefix_schedule_multi_union_pw_aff(n)); if ((int) mu.size() != d) bad(p, "prefix schedule dimension");
			for (int z = 0; z < d; ++z) for (auto &e : pre) { Rat v; auto it = mu[z].find(e.first.name); if (it == mu[z].end() || eval(it->second, e.first.x.data(), v) < 1 || !(v.isint() && v.n == e.second[z])) bad(p, cat("prefix multi_union_pw_aff member ", z, " differs at ", iname(e.first))); }
			auto pm = rd.umap(isl_union_map_from_union_pw_multi_aff(isl_schedule_node_get_prefix_schedule_union_pw_multi_aff(n))), pu = rd.umap(isl_schedule_node_get_prefix_schedule_union_map(n)), pr = rd.umap(isl_schedule_node_get_prefix_schedule_relation(n));
			for (auto &e : pre) { if (!contains(pm, e.first, e.second)) bad(p, "prefix union_pw_multi_aff differs at " + iname(e.first)); if (!contains(pu, e.first, e.second)) bad(p, "prefix union_map differs at " + iname(e.first)); if (!contains(pr, e.first, e.second)) bad(p, "prefix relation differs at " + iname(e.first)); for (int z = 0; z < d; ++z) for (int s = -1; s < 2; s += 2) { vector<I> v = e.second; v[z] += s; if (contains(pm, e.first, v) || contains(pu, e.first, v) || contains(pr, e.first, v)) bad(p, "prefix schedule has an extra value at " + iname(e.first)); } }
			IS rdm = members(rd.uset(isl_union_map_domain(isl_schedule_node_get_prefix_schedule_relation(n)))); if (rdm != R) bad(p, "prefix relation does not include exactly the domain constraints");
		}
		if (!hasext(k) && !ex) {
			// the subtree as a map
			CT sub = p.empty() ? k : wrap(isl_schedule_node_domain, k); if (!p.empty()) sub.dom = R;
			vector<Ex> es = execs(sub);
			for (int sep = 0; sep < 2; ++sep) { isl_options_set_schedule_separate_components(ctx, sep);
				for (int w = 0; w < (p.empty() ? 2 : 1); ++w) {
					isl_union_map *u; if (w) { isl_schedule *s = isl_schedule_node_get_schedule(n); u = isl_schedule_get_map(s); isl_schedule_free(s); } else u = isl_schedule_node_get_subtree_schedule_union_map(n); note_transition();
					if (!u) { mc::take_error(); bad(p, "no subtree schedule"); }
					isl_union_map_list *ul = nullptr; (void) ul; vector<std::map<string, PwAff>> mu; if (isl_union_map_is_empty(u) == isl_bool_true) { isl_union_map_free(u); if (!es.empty()) bad(p, "empty subtree schedule"); continue; }
					// one target space: read as a function
					isl_union_pw_multi_aff *f = isl_union_pw_multi_aff_from_union_map(u); isl_union_map *back = isl_union_map_from_union_pw_multi_aff(f); auto pc = rd.umap(isl_union_map_copy(back)); int od = -1; for (auto &m : pc) { if (od >= 0 && m.no != od) bad(p, "subtree schedule with several spaces"); od = m.no; }
					isl_multi_union_pw_aff *mm = isl_multi_union_pw_aff_from_union_map(back); mu = rd.mupa(mm);
					std::map<Inst, vector<I>> img; for (auto &e : es) { vector<I> v; for (auto &m : mu) { Rat q; auto it = m.find(e.i.name); if (it == m.end() || eval(it->second, e.i.x.data(), q) < 1 || !q.isint()) bad(p, "subtree schedule is not defined at " + iname(e.i)); v.push_back(q.n); } img[e.i] = v; }
					for (auto &x : es) for (auto &y : es) if (x.i < y.i && x.i.x[0] == y.i.x[0]) { int o = st::order(x.key, y.key); auto &vx = img[x.i], &vy = img[y.i]; int q = vx < vy ? -1 : vx == vy ? 0 : 1; if (o == 2 ? sep && q == 0 : o != q) bad(p, cat(w ? "schedule map" : "subtree schedule", " orders ", iname(x.i), " and ", iname(y.i), " ", q, " instead of ", o)); }
				} }
			isl_options_set_schedule_separate_components(ctx, 1);
			if (!p.empty()) {
				std::map<Inst, Inst> top; for (auto &e : es) top[e.i] = e.top;
				auto ue = rd.umap(isl_schedule_node_get_subtree_expansion(n)); isl_union_pw_multi_aff *sc = isl_schedule_node_get_subtree_contraction(n);
				if (!sc) { string e = isl_ctx_last_error_msg(ctx) ? isl_ctx_last_error_msg(ctx) : ""; mc::take_error(); fail("failed|isl_schedule_node_get_subtree_contraction: " + e, who + " at " + ptext(p)); }
				auto uc = rd.umap(isl_union_map_from_union_pw_multi_aff(sc));
				auto rel = [&](const vector<st::MapPiece> &um, const Inst &a, const Inst &b) { for (auto &m : um) if (m.in == a.name && m.out == b.name && m.ni + 1 == (int) a.x.size() && m.no + 1 == (int) b.x.size()) { vector<I> v = cat2(a.x, vector<I>(b.x.begin() + 1, b.x.end())); if (mdl::contains(m.p, v.data())) return true; } return false; };
				for (auto &e : top) for (auto &t : R) if (t.x[0] == e.first.x[0]) { bool w = t == e.second; if (rel(uc, e.first, t) != w) bad(p, "subtree contraction " + string(w ? "does not relate " : "relates ") + iname(e.first) + " and " + iname(t)); if (rel(ue, t, e.first) != w) bad(p, "subtree expansion relates " + iname(t) + " and " + iname(e.first)); }
			}
		}
	}
}
static uint64_t hash_ct(const CT &c) { uint64_t h = c.type; for (auto &v : c.val) for (auto &x : v.second) h = mc::hash_mix(h, (uint64_t) x); for (auto &i : c.dom) for (auto &x : i.x) h = mc::hash_mix(h, (uint64_t) x); for (auto &k : c.ch) h = mc::hash_mix(h, hash_ct(k)); return h; }
// apply one operation; returns 1 if the result (node, model) is a new state
static bool apply(const Op &o, isl_schedule_node *root, const CT &c, const Path &p, const string &who, NodeG &out, CT &cout) {
	CT m = c; Path q = p; int r = o.m(m, q); if (r == SKIP) return false; g_c = false; for (auto &i : reach_at(c, p)) g_c = g_c || i.name == "C";
	if (o.opt) { isl_options_set_tile_scale_tile_loops(ctx, (o.opt - 1) & 1); isl_options_set_tile_shift_point_loops(ctx, (o.opt - 1) >> 1); }
	isl_schedule_node *n = goto_(isl_schedule_node_copy(root), p); note_transition();
	if (r == ERR) { n = o.f(n); if (n) { isl_schedule_node_free(n); fail("accepted|" + o.name + "|" + who, "operation at " + ptext(p) + " should have been rejected"); } if (!mc::take_error()) fail("accepted|" + o.name + "|" + who, "no error reported"); note_validated(); return false; }
	out.n = o.f(n); if (!out.n) fail("failed|" + o.name + "|" + who, errmsg());
	auto txt = [&] { isl_schedule *s = isl_schedule_node_get_schedule(out.n); string t = mc::str(isl_schedule_to_str(s)); isl_schedule_free(s); return t; };
	Bad bad = [&](const string &t) { fail("valid|" + o.name + "|" + who, t + " in " + txt()); };
	cout = read(out.n, bad); rebase(m, {}); Path rp = path_of(out.n); string d;
	if (o.cmp == 2) d = order_diff(cout, m);
	else if (o.cmp == 1) d = diff(norm(cout, {}), norm(m, {}), true);
	else d = diff(cout, m, true);
	if (d.empty() && (o.cmp == 3 || (o.cmp == 0 && o.name.find("band_split") == 0))) { if (at(cout, rp).lt != at(m, q).lt || (o.cmp == 0 && at(cout, rp).ch[0].lt != at(m, q).ch[0].lt)) d = "different loop types"; }
	if (!d.empty()) fail("result|" + o.name + "|" + who, d + " in " + txt());
	if (o.cmp == 0 && rp != q) fail("position|" + o.name + "|" + who, ptext(rp) + " instead of " + ptext(q));
	if (o.cmp && o.name.find("insert_") != 0 && !(o.name.find("order_") == 0 && lossy(c, {}))) { while (at(cout, rp).type == isl_schedule_node_filter) rp.push_back(0); while (at(m, q).type == isl_schedule_node_filter) q.push_back(0); IS a = reach_at(cout, rp), b = reach_at(m, q); if (a != b) fail("position|" + o.name + "|" + who, "the returned node " + ptext(rp) + " is reached by other instances"); d = diff(norm(at(cout, rp), a), norm(at(m, q), b), true); if (!d.empty()) fail("position|" + o.name + "|" + who, d + " at the returned node " + ptext(rp) + " in " + txt()); }
	note_validated(); mc::note_state(hash_ct(cout)); return true;
}
static isl_schedule *start(int t) { isl_schedule *s = isl_schedule_read_from_str(ctx, TREES[t].c_str()); if (!s) fail("parse", TREES[t]); return s; }
// ---- whole-schedule operations --------------------------------------------------------------
static IS filt(const IS &s, Pred f) { IS r; for (auto &i : s) if (f(i)) r.insert(i); return r; }
static void whole(int t, int o) {
	string who = cat("tree ", t, " schedule operation ", o); Bad bad = [&](const string &m) { fail("valid|" + who, m); };
	isl_schedule *s = start(t); struct G { isl_schedule *s; ~G() { isl_schedule_free(s); } } g{s}; CT c = read(s, bad), m = c; isl_schedule *r = nullptr; int cmp = 1; note_transition();
	auto keep = [&] { return isl_schedule_copy(s); };
	if (o < (int) MUPA.size()) { Path p{0}; int k = insert_band(m, p, MUPA[o]); if (k != OK) return; r = isl_schedule_insert_partial_schedule(keep(), MU_(MUPA[o].text)); cmp = 0; }
	else if ((o -= MUPA.size()) < (int) FLT.size()) { if (hasext(c)) return; for (auto &i : c.dom) { if (i.name == "G") return; } m.dom = filt(c.dom, FLT[o].f); rebase(m, {}); r = isl_schedule_intersect_domain(keep(), US(FLT[o].text)); }
	else if ((o -= FLT.size()) < 4) { if (anchored(c)) return; isl_schedule *d = isl_schedule_from_domain(US("[n] -> { C[i] : 0 <= i < n <= 3 }")); d = isl_schedule_insert_partial_schedule(d, MU_("[n] -> [{ C[i] -> [(-i)] }]"));
		CT q = read(d, bad), z; z.type = isl_schedule_node_domain; z.dom = c.dom; z.dom.insert(q.dom.begin(), q.dom.end()); CT sq; sq.type = o & 1 ? isl_schedule_node_set : isl_schedule_node_sequence; CT f1 = wrap(isl_schedule_node_filter, c.ch[0]), f2 = wrap(isl_schedule_node_filter, q.ch[0]); f1.dom = c.dom; f2.dom = q.dom; if (o & 2) sq.ch = {f2, f1}; else sq.ch = {f1, f2}; z.ch = {sq}; m = z;
		isl_schedule *a = o & 2 ? d : keep(), *b = o & 2 ? keep() : d; r = o & 1 ? isl_schedule_set(a, b) : isl_schedule_sequence(a, b); }
	else if ((o -= 4) < 2) { CT k = wrap(o ? isl_schedule_node_guard : isl_schedule_node_context, c.ch[0]); for (I n = 0; n <= NMAX; ++n) if (n >= 2) k.pts.insert({n}); m.ch = {k}; isl_set *x = isl_set_read_from_str(ctx, "[n] -> { [] : n >= 2 }"); r = o ? isl_schedule_insert_guard(keep(), x) : isl_schedule_insert_context(keep(), x); cmp = 0; }
	else if ((o -= 2) < 1) { r = isl_schedule_gist_domain_params(keep(), isl_set_read_from_str(ctx, "[n] -> { : n >= 2 }"));
		if (!r) fail("failed|" + who, errmsg()); CT k = read(r, [&](const string &) {}); auto big = [](const IS &s) { return filt(s, [](const Inst &i) { return i.x[0] >= 2; }); }; bool ok = big(k.dom) == big(c.dom); isl_schedule_free(r); if (!ok) fail("result|" + who, "gist_domain_params changes the domain in the context"); note_validated(); return; }
	else if ((o -= 1) < 2) { // pullback
		if (anyof(c, [](const CT &k) { return k.type == isl_schedule_node_expansion || k.type == isl_schedule_node_extension; })) return;
		auto f = [&](const Inst &i) -> Inst { I n = i.x[0]; if (o == 0) { if (i.name == "X") return {"A", {n, i.x[1] - 1}}; if (i.name == "Y") return {"B", {n, i.x[2], i.x[1]}}; } else { if (i.name == "X") return {"A", {n, fdiv(i.x[1], 2)}}; if (i.name == "B") return i; } return {"", {n}}; };
		IS nd; for (I n = 0; n <= NMAX; ++n) { for (auto &x : box(1)) nd.insert({"X", cat2({n}, x)}); for (auto &x : box(2)) nd.insert({o ? "B" : "Y", cat2({n}, x)}); }
		auto pre = [&](const IS &s) { IS q; for (auto &i : nd) if (s.count(f(i))) q.insert(i); return q; };
		std::function<void(CT &)> go = [&](CT &k) { k.dom = pre(k.dom); if (k.type == isl_schedule_node_band) { std::map<Inst, vector<I>> v; for (auto &i : nd) { auto it = k.val.find(f(i)); if (it != k.val.end()) v[i] = it->second; } k.val = v; } for (auto &q : k.ch) go(q); }; go(m);
		r = isl_schedule_pullback_union_pw_multi_aff(keep(), isl_union_pw_multi_aff_read_from_str(ctx, o ? "[n] -> { X[i] -> A[floor(i/2)] : i <= 4; B[i, j] -> B[i, j] }" : "[n] -> { X[i] -> A[i - 1]; Y[i, j] -> B[j, i] }")); cmp = 0;
		if (o) { // X[5] would map to A[2]
			} }
	else if ((o -= 2) < 2) { // expansion of the leaves: A[i] -> U[i, k] (and B to itself or to V)
		if (anyof(c, [](const CT &k) { return k.type == isl_schedule_node_expansion || k.type == isl_schedule_node_extension; })) return;
		isl_schedule *e = isl_schedule_from_domain(US(o ? "[n] -> { U[i, k] : 0 <= i < n <= 3 and i <= k < 3; V[i] : 0 <= i < n <= 3 }" : "[n] -> { U[i, k] : 0 <= i < n <= 3 and i <= k < 3; B[i, j] : 0 <= i < n <= 3 and 0 <= j < 2 }"));
		e = isl_schedule_insert_partial_schedule(e, MU_(o ? "[n] -> [{ U[i, k] -> [(-k)]; V[i] -> [(0)] }]" : "[n] -> [{ U[i, k] -> [(-k)]; B[i, j] -> [(j)] }]"));
		CT q = read(e, bad);
		if (o) { // V[i] stands for B[i, 0] only if all of B reaches ... restrict the schedule first
			m.dom = filt(c.dom, [](const Inst &i) { return i.name == "A" || i.x[2] == 0; }); rebase(m, {}); }
		auto con = [&](const Inst &i) -> Inst { return i.name == "U" ? Inst{"A", {i.x[0], i.x[1]}} : i.name == "V" ? Inst{"B", {i.x[0], i.x[1], 0}} : i; };
		std::function<void(CT &, IS)> go = [&](CT &k, IS R) { IS nr = after(k, R); if (k.leaf()) { CT x = wrap(isl_schedule_node_expansion, q.ch[0]); for (auto &i : q.dom) if (R.count(con(i))) x.ex.insert({con(i), i}); k = x; return; } for (auto &z : k.ch) go(z, nr); }; go(m, {}); rebase(m, {});
		isl_schedule *base = keep(); if (o) base = isl_schedule_intersect_domain(base, US("[n] -> { A[i]; B[i, j] : j = 0 }"));
		r = isl_schedule_expand(base, isl_union_pw_multi_aff_read_from_str(ctx, o ? "[n] -> { U[i, k] -> A[i]; V[i] -> B[i, 0] }" : "[n] -> { U[i, k] -> A[i]; B[i, j] -> B[i, j] }"), e); }
	else if ((o -= 2) < 2) { r = o ? isl_schedule_reset_user(keep()) : isl_schedule_map_schedule_node_bottom_up(keep(), [](isl_schedule_node *k, void *) -> isl_schedule_node * { if (isl_schedule_node_get_type(k) == isl_schedule_node_band && isl_schedule_node_is_subtree_anchored(k) == isl_bool_false) k = isl_schedule_node_band_scale(k, MV(k, {{2, 1}})); return k; }, nullptr); cmp = 0;
		if (!o) { std::function<void(CT &)> go = [&](CT &k) { if (k.type == isl_schedule_node_band && !anchored(k)) for (auto &e : k.val) for (auto &v : e.second) v *= 2; for (auto &q : k.ch) go(q); }; go(m); } }
	else return;
	if (!r) fail("failed|" + who, errmsg());
	struct G2 { isl_schedule *s; ~G2() { isl_schedule_free(s); } } g2{r}; string txt = mc::str(isl_schedule_to_str(r)); CT k = read(r, [&](const string &q) { fail("valid|" + who, q + " in " + txt); }); rebase(m, {});
	string d = cmp == 0 ? diff(k, m, true) : diff(norm(k, {}), norm(m, {}), true); if (!d.empty()) fail("result|" + who, d + " in " + txt); note_validated();
	IS dm; { isl_space *ps = isl_space_params_alloc(ctx, 1); ps = isl_space_set_dim_name(ps, isl_dim_param, 0, "n"); st::Reader rd(ps); dm = members(rd.uset(isl_schedule_get_domain(r))); } if (dm != m.dom) fail("result|" + who, "get_domain differs");
	isl_schedule *cp = isl_schedule_copy(r); if (isl_schedule_plain_is_equal(r, cp) != isl_bool_true) fail("result|" + who, "not plainly equal to a copy"); isl_schedule_free(cp); if (isl_schedule_plain_is_equal(r, s) == isl_bool_true && !diff(k, c, true).empty()) fail("result|" + who, "plainly equal to a different schedule");
	NodeG root{isl_schedule_get_root(r)}; queries(root.n, k, who);
}
static const int NWHOLE = 4 + 7 + 4 + 2 + 1 + 2 + 2 + 2;
int main(int argc, char **argv) {
	mc::Harness h; h.property = "C18"; g_th = tier_thorough(argc, argv); init_ops(); h.bounds["spaces"] = cat(TREES.size(), " start trees x every node x ", OPS.size(), " operations, followed by every node x every second operation (quick: a residue class of second operations); all queries at every node of every tree after one operation; whole-schedule operations; instances evaluated for n = 0..3");
	auto add = [&](const string &n, mc::Radix r, std::function<void(const vector<uint64_t> &)> f, std::function<string(const vector<uint64_t> &)> d) { h.add(mc::SpaceDef(n, r.size(), [=](uint64_t i) { f(r.at(i)); }, [=](uint64_t i) { return d(r.at(i)); })); };
	add("start", {TREES.size()}, [](const vector<uint64_t> &x) { isl_schedule *s = start(x[0]); struct G { isl_schedule *s; ~G() { isl_schedule_free(s); } } g{s}; CT c = read(s, [&](const string &m) { fail(cat("start ", x[0]), m); }); NodeG r{isl_schedule_get_root(s)}; queries(r.n, c, cat("tree ", x[0])); }, [](const vector<uint64_t> &x) { return cat("tree ", x[0]); });
	add("schedules", {TREES.size(), NWHOLE}, [](const vector<uint64_t> &x) { whole(x[0], x[1]); }, [](const vector<uint64_t> &x) { return cat("tree ", x[0], " operation ", x[1]); });
	uint64_t NP = 14, NO = OPS.size();
	auto d1 = [](const vector<uint64_t> &x) { return cat("tree ", x[0], " node ", x[1], " ", OPS[x[2]].name); };
	auto first = [](const vector<uint64_t> &x, std::function<void(isl_schedule_node *, const CT &, const string &)> then) {
		isl_schedule *s = start(x[0]); NodeG r{isl_schedule_get_root(s)}; isl_schedule_free(s); CT c = read(r.n, [&](const string &m) { fail(cat("start ", x[0]), m); }); vector<Path> ps; paths(c, {}, ps); if (x[1] >= ps.size()) return;
		string who = cat("tree ", x[0], " ", ptext(ps[x[1]])); NodeG o{nullptr}; CT k; if (!apply(OPS[x[2]], r.n, c, ps[x[1]], who, o, k)) return; then(o.n, k, who + " " + OPS[x[2]].name); };
	add("one operation", {TREES.size(), NP, NO}, [=](const vector<uint64_t> &x) { first(x, [](isl_schedule_node *n, const CT &c, const string &who) { NodeG r{isl_schedule_node_root(isl_schedule_node_copy(n))}; queries(r.n, c, who); }); }, d1);
	add("two operations", {TREES.size(), NP, NO}, [=](const vector<uint64_t> &x) { first(x, [&](isl_schedule_node *n, const CT &c, const string &who) { NodeG r{isl_schedule_node_root(isl_schedule_node_copy(n))}; vector<Path> ps; paths(c, {}, ps);
		for (size_t p = 0; p < ps.size(); ++p) for (size_t o = 0; o < OPS.size(); ++o) { if (!g_th && (x[0] * 5 + x[1] * 3 + x[2] + p * 7 + o) % 11) continue; NodeG q{nullptr}; CT k; apply(OPS[o], r.n, c, ps[p], who + " then " + ptext(ps[p]), q, k); } }); }, d1);
	return mc::run(argc, argv, h);
}
