// Independent reading and execution of schedule trees (C17, C18): the tree is decoded through
// public accessors and interpreted on explicit statement instances.
#pragma once
#include "common.hpp"
#include <isl/schedule.h>
#include <isl/schedule_node.h>
#include <isl/id.h>
#include <memory>
namespace st {
struct Inst { string name; vector<I> x; bool operator<(const Inst &o) const { return std::tie(name, x) < std::tie(o.name, o.x); } bool operator==(const Inst &o) const { return name == o.name && x == o.x; } };
inline string show(const Inst &i) { string s = i.name + "["; for (size_t k = 0; k < i.x.size(); ++k) s += (k ? "," : "") + S(i.x[k]); return s + "]"; }
enum Kind { BAND, SEQ, SET };
struct Step { Kind kind; I v; int node; int member; };       // node: preorder number of the tree node
struct Exec { Inst i; vector<Step> key; vector<Inst> outer; };
struct MapPiece { string in, out; int ni, no; Pts p; };      // params + in + out
struct Node {
	int type, id; vector<Node> ch;
	vector<std::map<string, PwAff>> mem; vector<bool> coin; vector<int> lt; bool perm = false;
	std::map<string, Pts> set; Pts ctx; vector<MapPiece> um, contr; string mark;
};
struct Reader {
	isl_space *params; int np; int next = 0;
	explicit Reader(isl_space *p) : params(p), np(isl_space_dim(p, isl_dim_param)) {}      // takes p
	~Reader() { isl_space_free(params); }
	static string tname(isl_space *s, isl_dim_type t) { const char *n = isl_space_has_tuple_name(s, t) == isl_bool_true ? isl_space_get_tuple_name(s, t) : ""; return n; }
	std::map<string, Pts> uset(isl_union_set *u) {                                          // takes u
		std::map<string, Pts> r; isl_set_list *l = isl_union_set_get_set_list(u); isl_union_set_free(u); int n = isl_set_list_n_set(l);
		for (int i = 0; i < n; ++i) { isl_set *s = isl_set_list_get_at(l, i); isl_space *sp = isl_set_get_space(s); string nm = tname(sp, isl_dim_set); isl_space_free(sp); s = isl_set_align_params(s, isl_space_copy(params)); if (isl_set_dim(s, isl_dim_param) != np) { isl_set_free(s); isl_set_list_free(l); fail("tree", "unexpected parameters"); } r[nm] = read_set(s); isl_set_free(s); }
		isl_set_list_free(l); return r;
	}
	vector<MapPiece> umap(isl_union_map *u) {
		vector<MapPiece> r; isl_map_list *l = isl_union_map_get_map_list(u); isl_union_map_free(u); int n = isl_map_list_n_map(l);
		for (int i = 0; i < n; ++i) { isl_map *m = isl_map_list_get_at(l, i); isl_space *sp = isl_map_get_space(m); MapPiece p; p.in = tname(sp, isl_dim_in); p.out = tname(sp, isl_dim_out); isl_space_free(sp); m = isl_map_align_params(m, isl_space_copy(params)); p.ni = isl_map_dim(m, isl_dim_in); p.no = isl_map_dim(m, isl_dim_out); p.p = read_map(m); isl_map_free(m); r.push_back(p); }
		isl_map_list_free(l); return r;
	}
	vector<std::map<string, PwAff>> mupa(isl_multi_union_pw_aff *m) {                       // takes m
		vector<std::map<string, PwAff>> r; if (!m) { mc::take_error(); fail("tree", "no schedule returned"); } int k = isl_multi_union_pw_aff_dim(m, isl_dim_set);
		for (int i = 0; i < k; ++i) {
			r.emplace_back(); isl_union_pw_aff *u = isl_multi_union_pw_aff_get_union_pw_aff(m, i); isl_pw_aff_list *l = isl_union_pw_aff_get_pw_aff_list(u); isl_union_pw_aff_free(u); int q = isl_pw_aff_list_n_pw_aff(l);
			for (int j = 0; j < q; ++j) { isl_pw_aff *p = isl_pw_aff_list_get_at(l, j); isl_space *sp = isl_pw_aff_get_domain_space(p); string nm = tname(sp, isl_dim_set); isl_space_free(sp); p = isl_pw_aff_align_params(p, isl_space_copy(params)); r[i][nm] = read_pw_aff(p); isl_pw_aff_free(p); }
			isl_pw_aff_list_free(l);
		}
		isl_multi_union_pw_aff_free(m); return r;
	}
	Pts flat(isl_set *c) { c = isl_set_align_params(isl_set_flatten(c), isl_space_copy(params)); Pts r = read_set(c); isl_set_free(c); return r; }
	Node node(isl_schedule_node *n) {                                                       // keeps n
		Node r; r.type = isl_schedule_node_get_type(n); r.id = next++;
		switch (r.type) {
		case isl_schedule_node_domain: r.set = uset(isl_schedule_node_domain_get_domain(n)); break;
		case isl_schedule_node_filter: r.set = uset(isl_schedule_node_filter_get_filter(n)); break;
		case isl_schedule_node_context: r.ctx = flat(isl_schedule_node_context_get_context(n)); break;
		case isl_schedule_node_guard: r.ctx = flat(isl_schedule_node_guard_get_guard(n)); break;
		case isl_schedule_node_mark: { isl_id *id = isl_schedule_node_mark_get_id(n); r.mark = isl_id_get_name(id); isl_id_free(id); break; }
		case isl_schedule_node_expansion: r.um = umap(isl_schedule_node_expansion_get_expansion(n)); r.contr = umap(isl_union_map_from_union_pw_multi_aff(isl_schedule_node_expansion_get_contraction(n))); break;
		case isl_schedule_node_extension: r.um = umap(isl_schedule_node_extension_get_extension(n)); break;
		case isl_schedule_node_band: {
			r.mem = mupa(isl_schedule_node_band_get_partial_schedule(n)); r.perm = isl_schedule_node_band_get_permutable(n) == isl_bool_true;
			for (size_t i = 0; i < r.mem.size(); ++i) { r.coin.push_back(isl_schedule_node_band_member_get_coincident(n, i) == isl_bool_true); r.lt.push_back(isl_schedule_node_band_member_get_ast_loop_type(n, i)); }
			break; }
		default: break;
		}
		int c = isl_schedule_node_n_children(n);
		for (int i = 0; i < c; ++i) { isl_schedule_node *k = isl_schedule_node_get_child(n, i); Node q; try { q = node(k); } catch (...) { isl_schedule_node_free(k); throw; } isl_schedule_node_free(k); r.ch.push_back(std::move(q)); }
		return r;
	}
	Node read(isl_schedule *s) { isl_schedule_node *n = isl_schedule_get_root(s); if (!n) { mc::take_error(); fail("tree", "no root"); } next = 0; Node r; try { r = node(n); } catch (...) { isl_schedule_node_free(n); throw; } isl_schedule_node_free(n); return r; }
};
inline vector<I> pt(const vector<I> &par, const vector<I> &x) { vector<I> r(par); r.insert(r.end(), x.begin(), x.end()); return r; }
// all instances of the named sets in the box lo..hi
inline vector<Inst> enumerate(const std::map<string, Pts> &m, const vector<I> &par, I lo, I hi) {
	vector<Inst> r;
	for (auto &kv : m) { int n = kv.second.ni + kv.second.no; Window w = n ? Window::cube(n, lo, hi) : Window(vector<std::pair<I, I>>{}); if (!n) { if (mdl::contains(kv.second, par.data())) r.push_back({kv.first, {}}); continue; }
		for (int k = 0; k < w.count; ++k) { vector<I> x(w.at(k), w.at(k) + n), p = pt(par, x); if (mdl::contains(kv.second, p.data())) r.push_back({kv.first, x}); } }
	return r;
}
struct Runner {
	vector<I> par; I lo, hi; std::function<void(const string &)> bad;
	vector<Exec> out;
	bool has(const std::map<string, Pts> &m, const Inst &i) { auto it = m.find(i.name); if (it == m.end()) return false; vector<I> p = pt(par, i.x); return mdl::contains(it->second, p.data()); }
	void run(const Node &n, vector<Exec> cur) {
		switch (n.type) {
		case isl_schedule_node_domain: cur.clear(); for (auto &i : enumerate(n.set, par, lo, hi)) cur.push_back({i, {}, {}}); break;
		case isl_schedule_node_filter: { vector<Exec> k; for (auto &e : cur) if (has(n.set, e.i)) k.push_back(e); cur = k; break; }
		case isl_schedule_node_band:
			for (auto &e : cur) for (size_t m = 0; m < n.mem.size(); ++m) {
				auto it = n.mem[m].find(e.i.name); Rat v; vector<I> p = pt(par, e.i.x);
				if (it == n.mem[m].end() || eval(it->second, p.data(), v) < 1) bad(cat("band member ", m, " is not defined on ", show(e.i)));
				if (!v.isint()) bad("band value is not integral"); e.key.push_back({BAND, v.n, n.id, (int) m});
			}
			break;
		case isl_schedule_node_expansion: { vector<Exec> k;
			for (auto &e : cur) for (auto &mp : n.um) if (mp.in == e.i.name) {
				Window w = mp.no ? Window::cube(mp.no, lo, hi) : Window(vector<std::pair<I, I>>{}); int cnt = mp.no ? w.count : 1;
				for (int q = 0; q < cnt; ++q) { vector<I> y = mp.no ? vector<I>(w.at(q), w.at(q) + mp.no) : vector<I>(), p = pt(pt(par, e.i.x), y); if (!mdl::contains(mp.p, p.data())) continue; Exec f = e; f.outer.push_back(e.i); f.i = {mp.out, y};
					bool ok = false; for (auto &c : n.contr) if (c.in == mp.out && c.out == mp.in) { vector<I> z = pt(pt(par, y), e.i.x); ok = ok || mdl::contains(c.p, z.data()); } if (!ok) bad(cat("contraction does not map ", show(f.i), " to ", show(e.i))); k.push_back(f); } }
			cur = k; break; }
		case isl_schedule_node_extension: {
			// for every value of the outer schedule dimensions
			int d = -1; for (auto &mp : n.um) { d = mp.ni; Window w = d ? Window::cube(d, lo, hi) : Window(vector<std::pair<I, I>>{}); int cnt = d ? w.count : 1;
				for (int a = 0; a < cnt; ++a) { vector<I> s = d ? vector<I>(w.at(a), w.at(a) + d) : vector<I>(); Window wy = mp.no ? Window::cube(mp.no, lo, hi) : Window(vector<std::pair<I, I>>{}); int cy = mp.no ? wy.count : 1;
					for (int b = 0; b < cy; ++b) { vector<I> y = mp.no ? vector<I>(wy.at(b), wy.at(b) + mp.no) : vector<I>(), p = pt(pt(par, s), y); if (!mdl::contains(mp.p, p.data())) continue; Exec f; f.i = {mp.out, y}; f.key = extkey(s); cur.push_back(f); } } }
			break; }
		default: break;
		}
		if (n.type == isl_schedule_node_sequence || n.type == isl_schedule_node_set) {
			bool isset = n.type == isl_schedule_node_set;
			for (auto &e : cur) { int c = 0; for (auto &k : n.ch) c += has(k.set, e.i); if (c != 1) bad(cat(show(e.i), " appears in ", c, " children of a ", isset ? "set" : "sequence")); }
			for (size_t k = 0; k < n.ch.size(); ++k) { vector<Exec> q; for (auto &e : cur) if (has(n.ch[k].set, e.i)) { q.push_back(e); q.back().key.push_back({isset ? SET : SEQ, (I) k, n.id, -1}); } prefix.push_back({isset ? SET : SEQ, (I) k, n.id, -1}); run(n.ch[k], q); prefix.pop_back(); }
			return;
		}
		if (n.ch.empty() || n.ch[0].type == isl_schedule_node_leaf) { out.insert(out.end(), cur.begin(), cur.end()); return; }
		if (n.type == isl_schedule_node_band) for (size_t m = 0; m < n.mem.size(); ++m) prefix.push_back({BAND, 0, n.id, (int) m});
		run(n.ch[0], cur);
		if (n.type == isl_schedule_node_band) for (size_t m = 0; m < n.mem.size(); ++m) prefix.pop_back();
	}
	vector<Step> prefix;
	vector<Step> extkey(const vector<I> &s) { vector<Step> k = prefix; size_t j = 0; for (auto &t : k) if (t.kind == BAND) { if (j >= s.size()) bad("extension with too few schedule dimensions"); t.v = s[j++]; } return k; }
};
// -1 before, 1 after, 0 together, 2 unordered; pos: first differing step
inline int order(const vector<Step> &a, const vector<Step> &b, size_t *pos = nullptr) {
	for (size_t k = 0; k < a.size() && k < b.size(); ++k) { if (a[k].node != b[k].node) { if (pos) *pos = k; return 2; } if (a[k].v != b[k].v) { if (pos) *pos = k; return a[k].kind == SET ? 2 : a[k].v < b[k].v ? -1 : 1; } }
	return 0;
}
} // namespace st
