// C29: spaces.  An own model of spaces (parameter names, tuples with identifiers, nested pairs, dimension names) is explored by operation
// sequences; every space the library computes is read back completely and compared.  Objects in those spaces must move along, and objects
// with differently ordered parameters must combine by name.
#include "common.hpp"
#include <isl/union_map.h>
#include <isl/union_set.h>
#include <isl/polynomial.h>
#include <memory>
static bool g_th;
struct T { string nm; vector<string> d; std::shared_ptr<std::pair<T, T>> n; };
struct M { int k = 1; vector<string> p; T in, out; };          // 0 parameters, 1 set, 2 map
static T leaf(const string &nm, vector<string> d) { T t; t.nm = nm; t.d = d; return t; }
static T nest(const T &a, const T &b, const string &nm = "") { T t; t.nm = nm; t.d = a.d; t.d.insert(t.d.end(), b.d.begin(), b.d.end()); t.n = std::make_shared<std::pair<T, T>>(a, b); return t; }
static bool teq(const T &a, const T &b) { return a.d.size() == b.d.size() && a.nm == b.nm && !a.n == !b.n && (!a.n || (teq(a.n->first, b.n->first) && teq(a.n->second, b.n->second))); }
static bool same(const T &a, const T &b) { return a.d == b.d && a.nm == b.nm && !a.n == !b.n && (!a.n || (same(a.n->first, b.n->first) && same(a.n->second, b.n->second))); }
static bool same(const M &a, const M &b) { return a.k == b.k && a.p == b.p && (a.k < 2 || same(a.in, b.in)) && (a.k < 1 || same(a.out, b.out)); }
static bool meq(const M &a, const M &b) { return a.k == b.k && a.p == b.p && (a.k < 2 || teq(a.in, b.in)) && (a.k < 1 || teq(a.out, b.out)); }
static string s(const T &t) { string r = t.nm + "["; if (t.n) return r + s(t.n->first) + " -> " + s(t.n->second) + "]"; for (size_t i = 0; i < t.d.size(); ++i) r += (i ? "," : "") + (t.d[i].empty() ? string("_") : t.d[i]); return r + "]"; }
static string s(const M &m) { string r = "["; for (size_t i = 0; i < m.p.size(); ++i) r += (i ? "," : "") + (m.p[i].empty() ? string("_") : m.p[i]); r += "] -> { "; if (m.k == 2) r += s(m.in) + " -> "; if (m.k) r += s(m.out); else r += ":"; return r + " }"; }
// identifiers: "name" or "name#k" with a user pointer k
static isl_id *id(const string &x) { size_t h = x.find('#'); return isl_id_alloc(ctx, x.substr(0, h).c_str(), h == string::npos ? nullptr : (void *) (size_t) atoi(x.c_str() + h + 1)); }
static string idn(isl_id *i) { if (!i) return "?"; string r = isl_id_get_name(i) ? isl_id_get_name(i) : ""; if (void *u = isl_id_get_user(i)) r += cat("#", (size_t) u); isl_id_free(i); return r; }
static isl_space *params_of(const vector<string> &p) { isl_space *r = isl_space_params_alloc(ctx, p.size()); for (size_t i = 0; i < p.size(); ++i) if (!p[i].empty()) r = isl_space_set_dim_id(r, isl_dim_param, i, id(p[i])); return r; }
static isl_space *build_map(const vector<string> &p, const T &a, const T &b);
static isl_space *build_set(const vector<string> &p, const T &t) {
	isl_space *r; if (t.n) r = isl_space_wrap(build_map(p, t.n->first, t.n->second)); else { r = isl_space_add_unnamed_tuple_ui(params_of(p), t.d.size()); for (size_t i = 0; i < t.d.size(); ++i) if (!t.d[i].empty()) r = isl_space_set_dim_id(r, isl_dim_set, i, id(t.d[i])); }
	return t.nm.empty() ? r : isl_space_set_tuple_id(r, isl_dim_set, id(t.nm));
}
static isl_space *build_map(const vector<string> &p, const T &a, const T &b) { return isl_space_map_from_domain_and_range(build_set(p, a), build_set(p, b)); }
static isl_space *build(const M &m) { return m.k == 0 ? params_of(m.p) : m.k == 1 ? build_set(m.p, m.out) : build_map(m.p, m.in, m.out); }
struct Bad { string why; };
static string dimname(isl_space *sp, isl_dim_type t, int i) { bool h = isl_space_has_dim_id(sp, t, i) == isl_bool_true; if (h != (isl_space_has_dim_name(sp, t, i) == isl_bool_true)) throw Bad{"has_dim_id and has_dim_name differ"}; if (!h) return ""; string r = idn(isl_space_get_dim_id(sp, t, i)); const char *c = isl_space_get_dim_name(sp, t, i); if (!c || r.substr(0, r.find('#')) != c) throw Bad{"dim name differs from its identifier"}; return r; }
static M read_space(isl_space *sp);
static T read_tuple(isl_space *sp, isl_dim_type t) {          // keeps
	T r; int n = isl_space_dim(sp, t); for (int i = 0; i < n; ++i) r.d.push_back(dimname(sp, t, i));
	bool h = isl_space_has_tuple_id(sp, t) == isl_bool_true; if (h) r.nm = idn(isl_space_get_tuple_id(sp, t)); const char *tn = isl_space_has_tuple_name(sp, t) == isl_bool_true ? isl_space_get_tuple_name(sp, t) : nullptr; if ((tn ? string(tn) : "") != r.nm.substr(0, r.nm.find('#'))) throw Bad{"tuple name differs from the identifier"};
	bool map = isl_space_is_map(sp) == isl_bool_true; isl_bool w = !map ? isl_space_is_wrapping(sp) : t == isl_dim_in ? isl_space_domain_is_wrapping(sp) : isl_space_range_is_wrapping(sp);
	if (w == isl_bool_true) { isl_space *x = !map ? isl_space_copy(sp) : t == isl_dim_in ? isl_space_domain(isl_space_copy(sp)) : isl_space_range(isl_space_copy(sp)); x = isl_space_unwrap(x); if (!x) throw Bad{"cannot unwrap"}; M m; try { m = read_space(x); } catch (...) { isl_space_free(x); throw; } isl_space_free(x); T q = nest(m.in, m.out, r.nm); if (q.d != r.d) throw Bad{cat("dimension names of the tuple differ from those of the nested space: ", s(leaf("", r.d)), " and ", s(q))}; return q; }
	return r;
}
static M read_space(isl_space *sp) { M m; isl_bool p = isl_space_is_params(sp), st = isl_space_is_set(sp), mp = isl_space_is_map(sp); if (p ? (bool) mp : mp == st) throw Bad{cat("kind ", p, st, mp)}; m.k = p ? 0 : st ? 1 : 2; int n = isl_space_dim(sp, isl_dim_param); for (int i = 0; i < n; ++i) m.p.push_back(dimname(sp, isl_dim_param, i)); if (mp) m.in = read_tuple(sp, isl_dim_in); if (!p) m.out = read_tuple(sp, isl_dim_out); return m; }
static string compare(isl_space *sp, const M &want) { M g; try { g = read_space(sp); } catch (Bad &b) { return b.why + ", expected " + s(want); } if (!same(g, want)) return s(g) + ", expected " + s(want); isl_space *f = build(want); bool e = isl_space_is_equal(f, sp) == isl_bool_true && isl_space_has_equal_tuples(sp, f) == isl_bool_true && isl_space_has_equal_params(sp, f) == isl_bool_true; isl_space_free(f); return e ? "" : "not equal to a freshly built " + s(want); }
// ---- operations on one space ----
typedef std::function<bool(M &)> Mod;                           // false: must be rejected
typedef std::function<isl_space *(isl_space *)> Lib;
struct Op { string n; std::function<bool(const M &)> applies; Mod m; Lib l; };
static bool isp(const M &m) { return m.k == 0; } static bool ism(const M &m) { return m.k == 2; } static bool iss(const M &m) { return m.k == 1; } static bool any(const M &) { return true; }
static bool tupled(const M &m) { return m.k > 0; }
static void rst(T &t) { t.nm = ""; t.n = nullptr; }
static T rev(const T &t) { bool eq = teq(t.n->first, t.n->second); return nest(t.n->second, t.n->first, eq ? t.nm : ""); }
static vector<string> &dims(M &m, isl_dim_type t) { return t == isl_dim_param ? m.p : t == isl_dim_in ? m.in.d : m.out.d; }
static void resett(M &m, isl_dim_type t) { if (t == isl_dim_in) rst(m.in); if (t == isl_dim_out) rst(m.out); }
// names at the leaves of a nested tuple, addressed by flat position
static void setleaf(T &t, int pos, const string &n) { t.d[pos] = n; if (t.n) { auto p = std::make_shared<std::pair<T, T>>(*t.n); int k = p->first.d.size(); if (pos < k) setleaf(p->first, pos, n); else setleaf(p->second, pos - k, n); t.n = p; } }
static void noter(T &t) { size_t h = t.nm.find('#'); if (h != string::npos) t.nm.resize(h); if (t.n) { auto p = std::make_shared<std::pair<T, T>>(*t.n); noter(p->first); noter(p->second); t.n = p; } }
static vector<Op> ops() {
	vector<Op> v; auto add = [&](const string &n, std::function<bool(const M &)> a, Mod m, Lib l) { v.push_back({n, a, m, l}); };
	add("domain", ism, [](M &m) { m.k = 1; m.out = m.in; return true; }, isl_space_domain); add("range", ism, [](M &m) { m.k = 1; return true; }, isl_space_range); add("reverse", ism, [](M &m) { std::swap(m.in, m.out); return true; }, isl_space_reverse);
	add("range_reverse", ism, [](M &m) { if (!m.out.n) return false; m.out = rev(m.out); return true; }, isl_space_range_reverse);
	add("wrap", ism, [](M &m) { m.k = 1; m.out = nest(m.in, m.out); return true; }, isl_space_wrap); add("unwrap", iss, [](M &m) { if (!m.out.n) return false; T t = m.out; m.k = 2; m.in = t.n->first; m.out = t.n->second; return true; }, isl_space_unwrap);
	add("zip", ism, [](M &m) { if (!m.in.n || !m.out.n) return false; T a = m.in, b = m.out; m.in = nest(a.n->first, b.n->first); m.out = nest(a.n->second, b.n->second); return true; }, isl_space_zip);
	add("curry", ism, [](M &m) { if (!m.in.n) return false; T a = m.in, c = m.out; m.in = a.n->first; m.out = nest(a.n->second, c); return true; }, isl_space_curry);
	add("uncurry", ism, [](M &m) { if (!m.out.n) return false; T a = m.in, c = m.out; m.in = nest(a, c.n->first); m.out = c.n->second; return true; }, isl_space_uncurry);
	add("range_curry", [](const M &m) { return m.k == 2 && m.out.nm.empty(); }, [](M &m) { if (!m.out.n || !m.out.n->first.n) return false; T o = m.out, d = o.n->first; m.out = nest(d.n->first, nest(d.n->second, o.n->second)); return true; }, isl_space_range_curry);
	add("flatten_domain", ism, [](M &m) { if (m.in.n) rst(m.in); return true; }, isl_space_flatten_domain); add("flatten_range", ism, [](M &m) { if (m.out.n) rst(m.out); return true; }, isl_space_flatten_range); add("flatten_range", iss, [](M &m) { if (m.out.n) rst(m.out); return true; }, isl_space_flatten_range);
	add("domain_map", ism, [](M &m) { T a = m.in; m.in = nest(m.in, m.out); m.out = a; return true; }, isl_space_domain_map); add("range_map", ism, [](M &m) { m.in = nest(m.in, m.out); return true; }, isl_space_range_map);
	add("params", any, [](M &m) { m.k = 0; return true; }, isl_space_params); add("set_from_params", any, [](M &m) { if (m.k) return false; m.k = 1; m.out = leaf("", {}); return true; }, isl_space_set_from_params);
	add("from_domain", tupled, [](M &m) { if (m.k != 1) return false; m.k = 2; m.in = m.out; m.out = leaf("", {}); return true; }, isl_space_from_domain); add("from_range", tupled, [](M &m) { if (m.k != 1) return false; m.k = 2; m.in = leaf("", {}); return true; }, isl_space_from_range); add("map_from_set", tupled, [](M &m) { if (m.k != 1) return false; m.k = 2; m.in = m.out; return true; }, isl_space_map_from_set);
	for (int n : {0, 2}) { add(cat("add_unnamed_tuple ", n), [](const M &m) { return m.k < 2; }, [n](M &m) { T t = leaf("", vector<string>(n)); if (m.k) { m.in = m.out; } m.k++; m.out = t; return true; }, [n](isl_space *x) { return isl_space_add_unnamed_tuple_ui(x, n); }); add(cat("add_named_tuple ", n), [](const M &m) { return m.k < 2; }, [n](M &m) { T t = leaf("Q#3", vector<string>(n)); if (m.k) { m.in = m.out; } m.k++; m.out = t; return true; }, [n](isl_space *x) { return isl_space_add_named_tuple_id_ui(x, id("Q#3"), n); }); }
	auto fac = [](T &t, int w) { if (!t.n) return false; T x = w ? t.n->second : t.n->first; t = x; return true; };
	for (int w : {0, 1}) {
		add(w ? "factor_range" : "factor_domain", tupled, [=](M &m) { return (m.k == 1 || fac(m.in, w)) && fac(m.out, w); }, w ? isl_space_factor_range : isl_space_factor_domain);
		add(w ? "domain_factor_range" : "domain_factor_domain", ism, [=](M &m) { return fac(m.in, w); }, w ? isl_space_domain_factor_range : isl_space_domain_factor_domain); add(w ? "range_factor_range" : "range_factor_domain", ism, [=](M &m) { return fac(m.out, w); }, w ? isl_space_range_factor_range : isl_space_range_factor_domain);
		add(w ? "domain_wrapped_range" : "domain_wrapped_domain", ism, [=](M &m) { m.k = 1; m.out = m.in; return fac(m.out, w); }, w ? isl_space_domain_wrapped_range : isl_space_domain_wrapped_domain); add(w ? "range_wrapped_range" : "range_wrapped_domain", ism, [=](M &m) { m.k = 1; return fac(m.out, w); }, w ? isl_space_range_wrapped_range : isl_space_range_wrapped_domain);
	}
	add("drop_all_params", any, [](M &m) { m.p.clear(); return true; }, isl_space_drop_all_params); for (string q : {"n", "z", "n#5"}) add("add_param_id " + q, any, [q](M &m) { if (std::find(m.p.begin(), m.p.end(), q) == m.p.end()) m.p.push_back(q); return true; }, [q](isl_space *x) { return isl_space_add_param_id(x, id(q)); });
	add("reset_user", any, [](M &m) { for (auto &x : m.p) { size_t h = x.find('#'); if (h != string::npos) x.resize(h); } noter(m.in); noter(m.out); return true; }, isl_space_reset_user);
	static const char *TN[] = {"?", "param", "in", "out"};
	for (isl_dim_type t : {isl_dim_param, isl_dim_in, isl_dim_out}) {
		auto ok = [t](const M &m) { return t == isl_dim_param || (t == isl_dim_out ? m.k > 0 : m.k == 2); };
		for (unsigned f : {0u, 1u, 2u}) for (unsigned n : {0u, 1u, 2u}) {
			if (n || !f) add(cat("drop_dims ", TN[t], " ", f, " ", n), ok, [=](M &m) { auto &d = dims(m, t); if (n && f + n > d.size()) return false; d.erase(d.begin() + (n ? f : 0), d.begin() + (n ? f + n : 0)); resett(m, t); return true; }, [=](isl_space *x) { return isl_space_drop_dims(x, t, f, n); });
			if (n == 1 || (!f && n != 1)) add(cat("insert_dims ", TN[t], " ", f, " ", n), ok, [=](M &m) { auto &d = dims(m, t); if (n && f > d.size()) return false; d.insert(d.begin() + (n ? f : 0), n, ""); resett(m, t); return true; }, [=](isl_space *x) { return isl_space_insert_dims(x, t, f, n); });
		}
		add(cat("add_dims ", TN[t]), ok, [=](M &m) { dims(m, t).push_back(""); resett(m, t); return true; }, [=](isl_space *x) { return isl_space_add_dims(x, t, 1); });
		for (isl_dim_type u : {isl_dim_param, isl_dim_in, isl_dim_out}) if (u != t) for (unsigned f : {0u, 1u}) for (unsigned to : {0u, 1u}) add(cat("move_dims ", TN[t], " ", f, " to ", TN[u], " ", to), [=](const M &m) { M c = m; return ok(m) && (u == isl_dim_param || (u == isl_dim_out ? m.k > 0 : m.k == 2)) && to <= dims(c, u).size(); }, [=](M &m) { auto &d = dims(m, t); if (f + 1 > d.size()) return false; string x = d[f]; d.erase(d.begin() + f); auto &e = dims(m, u); e.insert(e.begin() + to, x); resett(m, t); resett(m, u); return true; }, [=](isl_space *x) { return isl_space_move_dims(x, u, to, t, f, 1); });
		if (t != isl_dim_param) { for (string q : {"A", "Z#2"}) add(cat("set_tuple_id ", TN[t], " ", q), ok, [=](M &m) { (t == isl_dim_in ? m.in : m.out).nm = q; return true; }, [=](isl_space *x) { return isl_space_set_tuple_id(x, t, id(q)); }); add(cat("set_tuple_name ", TN[t]), ok, [=](M &m) { (t == isl_dim_in ? m.in : m.out).nm = "B"; return true; }, [=](isl_space *x) { return isl_space_set_tuple_name(x, t, "B"); }); add(cat("reset_tuple_id ", TN[t]), ok, [=](M &m) { (t == isl_dim_in ? m.in : m.out).nm = ""; return true; }, [=](isl_space *x) { return isl_space_reset_tuple_id(x, t); }); }
		for (unsigned f : {0u, 1u, 2u}) add(cat("set_dim_id ", TN[t], " ", f), [=](const M &m) { return ok(m) && (t == isl_dim_param || !(t == isl_dim_in ? m.in : m.out).n); }, [=](M &m) { auto &d = dims(m, t); if (f >= d.size()) return false; if (t == isl_dim_param) { d[f] = "w#4"; return true; } setleaf(t == isl_dim_in ? m.in : m.out, f, "w#4"); return true; }, [=](isl_space *x) { return isl_space_set_dim_id(x, t, f, id("w#4")); });
	}
	add("set_domain_tuple_id", ism, [](M &m) { m.in.nm = "D"; return true; }, [](isl_space *x) { return isl_space_set_domain_tuple_id(x, id("D")); }); add("set_range_tuple_id", ism, [](M &m) { m.out.nm = "D"; return true; }, [](isl_space *x) { return isl_space_set_range_tuple_id(x, id("D")); });
	return v;
}
static vector<Op> &OPS() { static vector<Op> v = ops(); return v; }
static void queries(isl_space *x, const M &m, const string &who) {
	auto q = [&](const string &n, isl_bool g, bool w) { if (g < 0 || g != (w ? isl_bool_true : isl_bool_false)) { mc::take_error(); fail(n + "|" + who, cat("answers ", (int) g, " for ", s(m))); } };
	if (m.k == 2) { q("can_zip", isl_space_can_zip(x), m.in.n && m.out.n); q("can_curry", isl_space_can_curry(x), (bool) m.in.n); q("can_uncurry", isl_space_can_uncurry(x), (bool) m.out.n); q("can_range_curry", isl_space_can_range_curry(x), m.out.n && m.out.n->first.n); q("domain_is_wrapping", isl_space_domain_is_wrapping(x), (bool) m.in.n); q("range_is_wrapping", isl_space_range_is_wrapping(x), (bool) m.out.n); q("is_product", isl_space_is_product(x), m.in.n && m.out.n); q("has_domain_tuple_id", isl_space_has_domain_tuple_id(x), !m.in.nm.empty()); q("has_range_tuple_id", isl_space_has_range_tuple_id(x), !m.out.nm.empty()); q("tuple_is_equal", isl_space_tuple_is_equal(x, isl_dim_in, x, isl_dim_out), teq(m.in, m.out)); }
	if (m.k == 1) { q("is_wrapping", isl_space_is_wrapping(x), (bool) m.out.n); q("is_product", isl_space_is_product(x), (bool) m.out.n); }
	for (isl_dim_type t : {isl_dim_param, isl_dim_in, isl_dim_out}) { if (t == isl_dim_in && m.k < 2) continue; if (t == isl_dim_out && !m.k) continue; M c = m; auto &d = dims(c, t); for (string n : {"n", "x", "w#4"}) { isl_id *i = id(n); int g = isl_space_find_dim_by_id(x, t, i); isl_id_free(i); int w = std::find(d.begin(), d.end(), n) - d.begin(); if (w == (int) d.size()) w = -1; if (g != w) fail("find_dim_by_id|" + who, cat(n, " found at ", g, " in ", s(m))); } int g = isl_space_find_dim_by_name(x, t, "w"), w = -1; for (size_t k = 0; k < d.size() && w < 0; ++k) if (d[k].substr(0, d[k].find('#')) == "w") w = k; if (g != w) fail("find_dim_by_name|" + who, cat("w found at ", g, " in ", s(m))); }
}
static void run_ops(const M &start, const vector<int> &seq) {
	M m = start; isl_space *x = build(start); string who = s(start); { string c = compare(x, m); if (!c.empty()) { isl_space_free(x); fail("build|" + who, c); } }
	for (int o : seq) {
		const Op &op = OPS()[o]; if (!op.applies(m)) break; M r = m; bool ok = op.m(r); isl_space *keep = isl_space_copy(x), *y = op.l(x); who += " " + op.n; note_transition(); x = nullptr;
		if (!ok) { bool err = mc::take_error(); isl_space_free(keep); if (y) { string g = mc::str(isl_space_to_str(y)); isl_space_free(y); fail(op.n + " accepted|" + who, "gives " + g); } if (!err) fail(op.n + " silent|" + who, "no error reported"); note_outcome("rejected"); note_validated(); return; }
		if (!y) { mc::take_error(); isl_space_free(keep); fail(op.n + "|" + who, "no result, expected " + s(r)); } string c = compare(keep, m); isl_space_free(keep); if (!c.empty()) { isl_space_free(y); fail(op.n + " operand|" + who, "operand changed to " + c); } c = compare(y, r); if (!c.empty()) { isl_space_free(y); fail(op.n + "|" + who, c); } x = y; m = r; note_state(mc::hash_str(s(m)));
	}
	try { queries(x, m, who); } catch (...) { isl_space_free(x); throw; } isl_space_free(x); note_validated();
}
// ---- two spaces ----
typedef std::function<int(const M &, const M &, M &)> Mod2;      // 1 result, 0 rejected, -1 not specified
struct Op2 { string n; Mod2 m; std::function<isl_space *(isl_space *, isl_space *)> l; };
static vector<Op2> ops2() {
	vector<Op2> v; auto pe = [](const M &a, const M &b) { return a.p == b.p; };
	v.push_back({"join", [=](const M &a, const M &b, M &r) { if (a.k != 2 || b.k != 2) return -1; if (!pe(a, b) || !teq(a.out, b.in)) return 0; r = a; r.out = b.out; return 1; }, isl_space_join});
	v.push_back({"product", [=](const M &a, const M &b, M &r) { if (!a.k || !b.k) return -1; if (a.k != b.k || !pe(a, b)) return 0; r = a; r.out = nest(a.out, b.out); if (a.k == 2) r.in = nest(a.in, b.in); return 1; }, isl_space_product});
	v.push_back({"domain_product", [=](const M &a, const M &b, M &r) { if (a.k != 2 || b.k != 2) return -1; if (!pe(a, b) || !teq(a.out, b.out)) return 0; r = a; r.in = nest(a.in, b.in); return 1; }, isl_space_domain_product});
	v.push_back({"range_product", [=](const M &a, const M &b, M &r) { if (a.k != 2 || b.k != 2) return -1; if (!pe(a, b) || !teq(a.in, b.in)) return 0; r = a; r.out = nest(a.out, b.out); return 1; }, isl_space_range_product});
	v.push_back({"map_from_domain_and_range", [=](const M &a, const M &b, M &r) { if (!a.k || !b.k) return -1; if (a.k != 1 || b.k != 1 || !pe(a, b)) return 0; r = a; r.k = 2; r.in = a.out; r.out = b.out; return 1; }, isl_space_map_from_domain_and_range});
	v.push_back({"align_params", [=](const M &a, const M &b, M &r) { for (auto &x : a.p) if (x.empty()) return 0; for (auto &x : b.p) if (x.empty()) return 0; r = a; r.p = b.p; for (auto &x : a.p) if (std::find(b.p.begin(), b.p.end(), x) == b.p.end()) r.p.push_back(x); return 1; }, isl_space_align_params});
	return v;
}
static vector<Op2> &OPS2() { static vector<Op2> v = ops2(); return v; }
static void check_pair(const M &a, const M &b) {
	string who = s(a) + " and " + s(b); isl_space *x = build(a), *y = build(b); string bad; auto Q = [&](const string &n, isl_bool g, bool w) { if (bad.empty() && g != (w ? isl_bool_true : isl_bool_false)) bad = cat(n, "|", (int) g); };
	Q("is_equal", isl_space_is_equal(x, y), meq(a, b)); Q("has_equal_params", isl_space_has_equal_params(x, y), a.p == b.p);
	if (a.k && b.k) { auto tt = [&](const M &m, isl_dim_type t) { return t == isl_dim_in ? (m.k == 2 ? m.in : T()) : m.out; }; if (a.k == b.k) Q("has_equal_tuples", isl_space_has_equal_tuples(x, y), (a.k < 2 || teq(a.in, b.in)) && teq(a.out, b.out)); for (auto t : {isl_dim_in, isl_dim_out}) for (auto u : {isl_dim_in, isl_dim_out}) if ((t == isl_dim_out || a.k == 2) && (u == isl_dim_out || b.k == 2)) Q(cat("tuple_is_equal ", t, u), isl_space_tuple_is_equal(x, t, y, u), teq(tt(a, t), tt(b, u))); if (a.k == 1 && b.k == 2) { Q("is_domain", isl_space_is_domain(x, y), a.p == b.p && teq(a.out, b.in)); Q("is_range", isl_space_is_range(x, y), a.p == b.p && teq(a.out, b.out)); } }
	isl_space_free(x); isl_space_free(y); if (!bad.empty()) { mc::take_error(); size_t k = bad.find('|'); fail(bad.substr(0, k) + "|" + who, "answers " + bad.substr(k + 1)); }
	for (auto &op : OPS2()) { M r; int k = op.m(a, b, r); if (k < 0) continue; isl_space *z = op.l(build(a), build(b)); note_transition(); bool err = mc::take_error(); if (!k) { if (z) { string g = mc::str(isl_space_to_str(z)); isl_space_free(z); fail(op.n + " accepted|" + who, "gives " + g); } if (!err) fail(op.n + " silent|" + who, "no error reported"); note_outcome("rejected"); continue; } if (!z) fail(op.n + "|" + who, "no result, expected " + s(r)); string c = compare(z, r); isl_space_free(z); if (!c.empty()) fail(op.n + "|" + who, c); note_outcome("combined"); }
	note_validated();
}
// ---- objects living in the spaces move the same way ----
struct OOp { string n; string space_op; std::function<isl_map *(isl_map *)> mm; std::function<isl_set *(isl_map *)> ms; std::function<isl_set *(isl_set *)> ss; std::function<isl_map *(isl_set *)> sm; };
static vector<OOp> oops() {
	vector<OOp> v; auto mm = [&](const char *n, isl_map *(*f)(isl_map *)) { v.push_back({n, n, f, {}, {}, {}}); }; auto ms = [&](const char *n, isl_set *(*f)(isl_map *)) { v.push_back({n, n, {}, f, {}, {}}); }; auto ss = [&](const char *n, isl_set *(*f)(isl_set *)) { v.push_back({n, n, {}, {}, f, {}}); }; auto sm = [&](const char *n, isl_map *(*f)(isl_set *)) { v.push_back({n, n, {}, {}, {}, f}); };
	mm("reverse", isl_map_reverse); mm("range_reverse", isl_map_range_reverse); mm("zip", isl_map_zip); mm("curry", isl_map_curry); mm("uncurry", isl_map_uncurry); mm("range_curry", isl_map_range_curry); mm("flatten_domain", isl_map_flatten_domain); mm("flatten_range", isl_map_flatten_range); mm("domain_map", isl_map_domain_map); mm("range_map", isl_map_range_map); mm("factor_domain", isl_map_factor_domain); mm("factor_range", isl_map_factor_range); mm("domain_factor_domain", isl_map_domain_factor_domain); mm("domain_factor_range", isl_map_domain_factor_range); mm("range_factor_domain", isl_map_range_factor_domain); mm("range_factor_range", isl_map_range_factor_range);
	ms("domain", isl_map_domain); ms("range", isl_map_range); ms("wrap", isl_map_wrap); ms("params", isl_map_params); sm("unwrap", isl_set_unwrap); sm("from_domain", isl_map_from_domain); sm("from_range", isl_map_from_range); ss("params", isl_set_params); ss("flatten_range", isl_set_flatten); ss("reset_user", isl_set_reset_user); mm("reset_user", isl_map_reset_user); ss("drop_all_params", nullptr); v.pop_back();
	return v;
}
static void check_object(const M &m0, int which) {
	static vector<OOp> O = oops(); OOp &o = O[which]; bool map = (bool) o.mm || (bool) o.ms; if ((m0.k == 2) != map || !m0.k) return; const Op *op = nullptr; for (auto &x : OPS()) if (x.n == o.space_op && x.applies(m0)) op = &x; if (!op) return; M r = m0; bool ok = op->m(r); string who = s(m0) + " " + o.n; isl_space *sp = build(m0); int nd = isl_space_dim(sp, isl_dim_all); (void) nd;
	for (int full : {1, 0}) {        // a universe and a non-trivial object
		isl_map *om = nullptr; isl_set *os = nullptr; if (map) { om = isl_map_universe(isl_space_copy(sp)); if (!full) { if (isl_map_dim(om, isl_dim_in)) om = isl_map_fix_si(om, isl_dim_in, 0, 1); if (isl_map_dim(om, isl_dim_out)) om = isl_map_lower_bound_si(om, isl_dim_out, 0, 0); } } else { os = isl_set_universe(isl_space_copy(sp)); if (!full && isl_set_dim(os, isl_dim_set)) os = isl_set_fix_si(os, isl_dim_set, 0, 1); }
		isl_map *rm = nullptr; isl_set *rs = nullptr; if (o.mm) rm = o.mm(om); if (o.ms) rs = o.ms(om); if (o.ss) rs = o.ss(os); if (o.sm) rm = o.sm(os); note_transition(); bool err = mc::take_error(); isl_space *z = rm ? isl_map_get_space(rm) : rs ? isl_set_get_space(rs) : nullptr;
		// the basic objects inside live in the same space
		isl_space *bz = nullptr; if (rm) { isl_basic_map_list *l = isl_map_get_basic_map_list(rm); if (isl_basic_map_list_n_basic_map(l) > 0) { isl_basic_map *b = isl_basic_map_list_get_at(l, 0); bz = isl_basic_map_get_space(b); isl_basic_map_free(b); } isl_basic_map_list_free(l); } isl_map_free(rm); isl_set_free(rs);
		if (!ok) { if (z) { string g = mc::str(isl_space_to_str(z)); isl_space_free(z); isl_space_free(bz); isl_space_free(sp); fail("object " + o.n + " accepted|" + who, g); } if (!err) { isl_space_free(sp); fail("object " + o.n + " silent|" + who, "no error"); } continue; }
		if (!z) { isl_space_free(sp); fail("object " + o.n + "|" + who, "no result"); } string c; if (r.k == 0) { isl_space *zp = isl_space_params(z); c = compare(zp, r); isl_space_free(zp); } else { c = compare(z, r); isl_space_free(z); } if (c.empty() && bz) c = compare(bz, r); isl_space_free(bz); if (!c.empty()) { isl_space_free(sp); fail("object " + o.n + "|" + who, c); }
	}
	isl_space_free(sp); note_validated();
}
// ---- parameters combine by name ----
static const vector<vector<string>> &PL() { static const vector<vector<string>> v = {{"n", "m"}, {"m", "n"}, {"n"}, {"m"}, {}, {"p", "n"}, {"m", "p", "n"}, {"n", "p", "m"}}; return v; }
static string plist(const vector<string> &p) { string r = "["; for (auto &x : p) r += (r.size() > 1 ? "," : "") + x; return r + "] -> "; }
static string inst(const string &t, const vector<string> &p) { auto has = [&](const char *x) { return std::find(p.begin(), p.end(), x) != p.end(); }; string r; for (char c : t) r += c == 'N' ? (has("n") ? "n" : "1") : c == 'K' ? (has("m") ? "m" : "2") : c == 'P' ? (has("p") ? "p" : "0") : string(1, c); return plist(p) + r; }
template <class O> struct Kind { std::function<O *(const string &)> rd; };
static string by_name(isl_map *r, const string &who, Bits *out) {          // takes r: points over (n, m, p) and its dims on a window, as bits
	isl_space *full = isl_space_params_alloc(ctx, 3); const char *nm[3] = {"n", "m", "p"}; for (int i = 0; i < 3; ++i) full = isl_space_set_dim_name(full, isl_dim_param, i, nm[i]);
	// independent by-name reading: find the position of each parameter in the result
	int np = isl_map_dim(r, isl_dim_param), n = isl_map_dim(r, isl_dim_in) + isl_map_dim(r, isl_dim_out); vector<int> pos(np); string bad; for (int i = 0; i < np; ++i) { string x = isl_map_get_dim_name(r, isl_dim_param, i); pos[i] = x == "n" ? 0 : x == "m" ? 1 : x == "p" ? 2 : -1; for (int j = 0; j < i; ++j) if (pos[j] == pos[i]) bad = "parameter " + x + " appears twice"; if (pos[i] < 0) bad = "unknown parameter " + x; } isl_space_free(full); Pts p; try { p = read_map(r); } catch (Overflow &) { isl_map_free(r); throw; } isl_map_free(r); if (!bad.empty()) return bad; if (n > 4) return "";
	Window w = window_np(3, -1, 2, n, -1, n > 2 ? 2 : 3); *out = where(w, [&](const I *x) { vector<I> y(np + n); for (int i = 0; i < np; ++i) y[i] = x[pos[i]]; for (int i = 0; i < n; ++i) y[np + i] = x[3 + i]; return contains(p, y.data()); }); return "";
}
struct PN { string n; std::function<isl_map *(isl_map *, isl_map *, isl_set *, isl_set *)> f; };      // takes all four
static vector<PN> pns() {
	vector<PN> v; auto M2 = [&](const char *n, isl_map *(*f)(isl_map *, isl_map *)) { v.push_back({n, [f](isl_map *a, isl_map *b, isl_set *c, isl_set *d) { isl_set_free(c); isl_set_free(d); return f(a, b); }}); }; auto S2 = [&](const char *n, isl_set *(*f)(isl_set *, isl_set *)) { v.push_back({n, [f](isl_map *a, isl_map *b, isl_set *c, isl_set *d) { isl_map_free(a); isl_map_free(b); isl_set *r = f(c, d); return r ? isl_map_from_range(r) : nullptr; }}); }; auto MS = [&](const char *n, isl_map *(*f)(isl_map *, isl_set *)) { v.push_back({n, [f](isl_map *a, isl_map *b, isl_set *c, isl_set *d) { isl_map_free(b); isl_set_free(c); return f(a, d); }}); }; auto MP = [&](const char *n, isl_map *(*f)(isl_map *, isl_set *)) { v.push_back({n, [f](isl_map *a, isl_map *b, isl_set *c, isl_set *d) { isl_map_free(b); isl_set_free(c); return f(a, isl_set_params(d)); }}); };
	M2("map_union", isl_map_union); M2("map_intersect", isl_map_intersect); M2("map_subtract", isl_map_subtract); M2("map_apply_range", isl_map_apply_range); M2("map_apply_domain", isl_map_apply_domain); M2("map_product", isl_map_product); M2("map_range_product", isl_map_range_product); M2("map_domain_product", isl_map_domain_product); M2("map_flat_range_product", isl_map_flat_range_product); M2("map_gist", [](isl_map *a, isl_map *b) { return isl_map_intersect(isl_map_gist(a, isl_map_copy(b)), b); });
	S2("set_union", isl_set_union); S2("set_intersect", isl_set_intersect); S2("set_subtract", isl_set_subtract); S2("set_product", isl_set_product); S2("set_flat_product", isl_set_flat_product); MS("intersect_domain", isl_map_intersect_domain); MS("intersect_range", isl_map_intersect_range); MS("subtract_domain", isl_map_subtract_domain); MP("intersect_params", isl_map_intersect_params);
	v.push_back({"set_apply", [](isl_map *a, isl_map *b, isl_set *c, isl_set *d) { isl_map_free(a); isl_set_free(d); isl_set *r = isl_set_apply(c, b); return r ? isl_map_from_range(r) : nullptr; }});
	v.push_back({"from_domain_and_range", [](isl_map *a, isl_map *b, isl_set *c, isl_set *d) { isl_map_free(a); isl_map_free(b); return isl_map_from_domain_and_range(c, d); }});
	v.push_back({"align_params", [](isl_map *a, isl_map *b, isl_set *c, isl_set *d) { isl_set_free(c); isl_set_free(d); isl_space *sp = isl_map_get_space(b); isl_map_free(b); return isl_map_align_params(a, sp); }});
	v.push_back({"union_map_intersect", [](isl_map *a, isl_map *b, isl_set *c, isl_set *d) { isl_set_free(c); isl_set_free(d); isl_union_map *u = isl_union_map_intersect(isl_union_map_from_map(a), isl_union_map_from_map(b)); isl_map *r = u && isl_union_map_n_map(u) == 1 ? isl_map_from_union_map(isl_union_map_copy(u)) : nullptr; if (u && isl_union_map_n_map(u) == 0) { r = isl_map_read_from_str(ctx, "[n,m] -> { [i] -> [j] : false }"); } isl_union_map_free(u); return r; }});
	v.push_back({"union_map_union", [](isl_map *a, isl_map *b, isl_set *c, isl_set *d) { isl_set_free(c); isl_set_free(d); isl_union_map *u = isl_union_map_union(isl_union_map_from_map(a), isl_union_map_from_map(b)); return isl_map_from_union_map(u); }});
	v.push_back({"union_map_apply_range", [](isl_map *a, isl_map *b, isl_set *c, isl_set *d) { isl_set_free(c); isl_set_free(d); isl_union_map *u = isl_union_map_apply_range(isl_union_map_from_map(a), isl_union_map_from_map(b)); isl_map *r = u && isl_union_map_n_map(u) == 1 ? isl_map_from_union_map(isl_union_map_copy(u)) : u ? isl_map_read_from_str(ctx, "{ [i] -> [j] : false }") : nullptr; isl_union_map_free(u); return r; }});
	v.push_back({"union_set_subtract", [](isl_map *a, isl_map *b, isl_set *c, isl_set *d) { isl_map_free(a); isl_map_free(b); isl_union_set *u = isl_union_set_subtract(isl_union_set_from_set(c), isl_union_set_from_set(d)); isl_set *r = u && isl_union_set_n_set(u) == 1 ? isl_set_from_union_set(isl_union_set_copy(u)) : u ? isl_set_read_from_str(ctx, "{ [i] : false }") : nullptr; isl_union_set_free(u); return r ? isl_map_from_range(r) : nullptr; }});
	// graphs of functions
	auto PA = [&](const char *n, isl_pw_aff *(*f)(isl_pw_aff *, isl_pw_aff *)) { v.push_back({n, [f](isl_map *a, isl_map *b, isl_set *c, isl_set *d) { isl_map_free(a); isl_map_free(b); isl_pw_aff *x = isl_set_dim_max(isl_set_intersect(isl_set_copy(c), isl_set_read_from_str(ctx, "{ [i] : i <= 2 }")), 0), *y = isl_set_dim_min(isl_set_intersect(isl_set_copy(d), isl_set_read_from_str(ctx, "{ [i] : i >= -1 }")), 0); isl_set_free(c); isl_set_free(d); isl_pw_aff *r = f(x, y); return r ? isl_map_from_pw_aff(isl_pw_aff_from_range ? r : r) : nullptr; }}); };
	(void) PA; return v;
}
#define isl_pw_aff_from_range 0
static vector<PN> &PNS() { static vector<PN> v = pns(); return v; }
static const vector<string> &MT() { static const vector<string> v = {"{ [i] -> [j] : j = i + N }", "{ [i] -> [j] : N <= i <= K and j >= i }", "{ [i] -> [j] : j = K - i; [i] -> [j] : i = j and i >= N }", "{ [i] -> [j] : exists e : i + j = 2e + N and j <= P }", "{ [i] -> [j] : i <= N + K and j = P }"}; return v; }
static const vector<string> &ST() { static const vector<string> v = {"{ [i] : 0 <= i <= N }", "{ [i] : i = K; [i] : i >= N + 1 }", "{ [i] : exists e : i = 2e + K and i >= P }", "{ [i] : N <= i <= K and i <= P + 2 }"}; return v; }
static void check_named_(int t1, int t2, int p1, int p2) {
	const auto &A = PL()[p1], &B = PL()[p2]; string m1 = inst(MT()[t1], A), m2 = inst(MT()[t2], B), s1 = inst(ST()[t1 % ST().size()], A), s2 = inst(ST()[t2 % ST().size()], B), who = m1 + " | " + m2;
	// the same objects over the full list in one fixed order: constants substituted for missing parameters stay
	auto full = [](const string &t) { size_t k = t.find("{"); return "[n,m,p] -> " + t.substr(k); };
	for (auto &op : PNS()) {
		auto mp = [&](const string &t) { isl_map *r = isl_map_read_from_str(ctx, t.c_str()); if (!r) fail("generator|" + t, "rejected"); return r; }; auto st = [&](const string &t) { isl_set *r = isl_set_read_from_str(ctx, t.c_str()); if (!r) fail("generator|" + t, "rejected"); return r; };
		isl_map *x = op.f(mp(m1), mp(m2), st(s1), st(s2)), *y = op.f(mp(full(m1)), mp(full(m2)), st(full(s1)), st(full(s2))); note_transition(); if (!x || !y) { mc::take_error(); isl_map_free(x); isl_map_free(y); fail("named " + op.n + "|" + who, "no result"); }
		Bits bx, by; string e = by_name(x, who, &bx), f; try { f = by_name(y, who, &by); } catch (Overflow &) { throw; } if (!e.empty() || !f.empty()) fail("named " + op.n + "|" + who, e + f); if (bx != by) fail("named " + op.n + "|" + who, "differs from the result over aligned parameters"); }
	// predicates
	isl_map *a = isl_map_read_from_str(ctx, m1.c_str()), *b = isl_map_read_from_str(ctx, m2.c_str()), *c = isl_map_read_from_str(ctx, full(m1).c_str()), *d = isl_map_read_from_str(ctx, full(m2).c_str()); int g[5] = {isl_map_is_equal(a, b), isl_map_is_subset(a, b), isl_map_is_strict_subset(a, b), isl_map_is_disjoint(a, b), isl_map_plain_is_equal(a, b)}, w[5] = {isl_map_is_equal(c, d), isl_map_is_subset(c, d), isl_map_is_strict_subset(c, d), isl_map_is_disjoint(c, d), 0}; int same_as_c = isl_map_is_equal(a, c); isl_map_free(a); isl_map_free(b); isl_map_free(c); isl_map_free(d); for (int k = 0; k < 4; ++k) if (g[k] != w[k]) { mc::take_error(); fail(cat("named predicate ", k, "|", who), cat(g[k], " instead of ", w[k])); } if (g[4] == 1 && !w[0]) fail("named plain_is_equal|" + who, "claims equality"); if (same_as_c != 1) fail("named realignment|" + who, "not equal to itself over more parameters");
	note_validated();
}
static void check_named(int t1, int t2, int p1, int p2) { try { check_named_(t1, t2, p1, p2); } catch (Overflow &) { note_outcome("outside the model"); mc::take_error(); } }
// functions and polynomials with differently ordered parameters: values by name
static void check_values_(int t1, int t2, int p1, int p2) {
	static const vector<string> F = {"{ [i] -> [(i + N)] }", "{ [i] -> [(2K - i)] : i >= P; [i] -> [(N)] : i < P }", "{ [i] -> [(floor((i + K)/2))] : i <= N }", "{ [i] -> [(P + 3N - K)] }"}; const auto &A = PL()[p1], &B = PL()[p2]; string a = inst(F[t1], A), b = inst(F[t2], B), who = a + " | " + b; auto full = [](const string &t) { return "[n,m,p] -> " + t.substr(t.find("{")); };
	auto pa = [](const string &t) { return isl_pw_aff_read_from_str(ctx, t.c_str()); }; auto cmp = [&](const string &op, isl_map *x, isl_map *y) { if (!x || !y) { mc::take_error(); isl_map_free(x); isl_map_free(y); fail("named " + op + "|" + who, "no result"); } Bits bx, by; string e = by_name(x, who, &bx) + by_name(y, who, &by); if (!e.empty()) fail("named " + op + "|" + who, e); if (bx != by) fail("named " + op + "|" + who, "differs from the result over aligned parameters"); note_transition(); };
	struct B2 { const char *n; isl_pw_aff *(*f)(isl_pw_aff *, isl_pw_aff *); }; static const B2 L[] = {{"pw_aff_add", isl_pw_aff_add}, {"pw_aff_sub", isl_pw_aff_sub}, {"pw_aff_min", isl_pw_aff_min}, {"pw_aff_max", isl_pw_aff_max}, {"pw_aff_union_max", isl_pw_aff_union_max}, {"pw_aff_union_add", isl_pw_aff_union_add}}; for (auto &o : L) cmp(o.n, isl_map_from_pw_aff(o.f(pa(a), pa(b))), isl_map_from_pw_aff(o.f(pa(full(a)), pa(full(b)))));
	struct C2 { const char *n; isl_set *(*f)(isl_pw_aff *, isl_pw_aff *); }; static const C2 K[] = {{"pw_aff_le_set", isl_pw_aff_le_set}, {"pw_aff_eq_set", isl_pw_aff_eq_set}, {"pw_aff_gt_set", isl_pw_aff_gt_set}, {"pw_aff_ne_set", isl_pw_aff_ne_set}}; for (auto &o : K) cmp(o.n, isl_map_from_range(o.f(pa(a), pa(b))), isl_map_from_range(o.f(pa(full(a)), pa(full(b)))));
	auto pm = [](const string &t) { return isl_pw_multi_aff_read_from_str(ctx, t.c_str()); }; cmp("pw_multi_aff_pullback", isl_map_from_pw_multi_aff(isl_pw_multi_aff_pullback_pw_multi_aff(pm(a), pm(b))), isl_map_from_pw_multi_aff(isl_pw_multi_aff_pullback_pw_multi_aff(pm(full(a)), pm(full(b))))); cmp("pw_multi_aff_range_product", isl_map_from_pw_multi_aff(isl_pw_multi_aff_range_product(pm(a), pm(b))), isl_map_from_pw_multi_aff(isl_pw_multi_aff_range_product(pm(full(a)), pm(full(b)))));
	auto mu = [&](const string &t) { return isl_multi_pw_aff_from_pw_multi_aff(pm(t)); }; cmp("multi_pw_aff_add", isl_map_from_multi_pw_aff(isl_multi_pw_aff_add(mu(a), mu(b))), isl_map_from_multi_pw_aff(isl_multi_pw_aff_add(mu(full(a)), mu(full(b))))); cmp("multi_pw_aff_range_product", isl_map_from_multi_pw_aff(isl_multi_pw_aff_range_product(mu(a), mu(b))), isl_map_from_multi_pw_aff(isl_multi_pw_aff_range_product(mu(full(a)), mu(full(b))))); cmp("set_preimage", isl_map_from_range(isl_set_preimage_pw_multi_aff(isl_set_read_from_str(ctx, inst(ST()[t1 % 4], A).c_str()), pm(b))), isl_map_from_range(isl_set_preimage_pw_multi_aff(isl_set_read_from_str(ctx, full(inst(ST()[t1 % 4], A)).c_str()), pm(full(b)))));
	{ typedef isl_pw_qpolynomial Q; auto q = [&](const string &x) { return isl_pw_qpolynomial_from_pw_aff(pa(x)); }; auto sq = [&](const string &t) { return isl_set_read_from_str(ctx, t.c_str()); }; string s1 = inst(ST()[t1 % 4], A);
		struct Q2 { const char *n; std::function<Q *(const string &, const string &, const string &)> f; }; const vector<Q2> L = {{"mul", [&](const string &x, const string &y, const string &) { return isl_pw_qpolynomial_mul(q(x), q(y)); }}, {"add", [&](const string &x, const string &y, const string &) { return isl_pw_qpolynomial_add(q(x), q(y)); }}, {"sub", [&](const string &x, const string &y, const string &) { return isl_pw_qpolynomial_sub(q(x), q(y)); }}, {"intersect_domain", [&](const string &, const string &y, const string &c) { return isl_pw_qpolynomial_intersect_domain(q(y), sq(c)); }}, {"subtract_domain", [&](const string &, const string &y, const string &c) { return isl_pw_qpolynomial_subtract_domain(q(y), sq(c)); }}, {"intersect_params", [&](const string &, const string &y, const string &c) { return isl_pw_qpolynomial_intersect_params(q(y), isl_set_params(sq(c))); }}, {"gist", [&](const string &, const string &y, const string &c) { return isl_pw_qpolynomial_intersect_domain(isl_pw_qpolynomial_gist(q(y), sq(c)), sq(c)); }}, {"add_disjoint", [&](const string &x, const string &y, const string &c) { return isl_pw_qpolynomial_add_disjoint(isl_pw_qpolynomial_intersect_domain(q(x), sq(c)), isl_pw_qpolynomial_subtract_domain(q(y), sq(c))); }}};
		for (auto &o : L) { Q *x = o.f(a, b, s1), *y = o.f(full(a), full(b), full(s1)); note_transition(); if (!x || !y) { mc::take_error(); isl_pw_qpolynomial_free(x); isl_pw_qpolynomial_free(y); fail(cat("named pw_qpolynomial_", o.n, "|") + who, "no result"); } isl_set *dx = isl_pw_qpolynomial_domain(isl_pw_qpolynomial_copy(x)), *dy = isl_pw_qpolynomial_domain(isl_pw_qpolynomial_copy(y)); bool z = isl_set_is_equal(dx, dy) == isl_bool_true; isl_set_free(dx); isl_set_free(dy); Q *d = isl_pw_qpolynomial_sub(x, y); z = isl_pw_qpolynomial_foreach_piece(d, [](isl_set *dom, isl_qpolynomial *q, void *) { bool ok = isl_set_is_empty(dom) == isl_bool_true || isl_qpolynomial_is_zero(q) == isl_bool_true; isl_set_free(dom); isl_qpolynomial_free(q); return ok ? isl_stat_ok : isl_stat_error; }, nullptr) >= 0 && z; isl_pw_qpolynomial_free(d); if (!z) { mc::take_error(); fail(cat("named pw_qpolynomial_", o.n, "|") + who, "differs from the result over aligned parameters"); } }
		// reductions: only that the operands combine and that the upper bound of the sum agrees
		auto fo = [&](const string &x) { return isl_pw_qpolynomial_fold_from_pw_qpolynomial(isl_fold_max, q(x)); }; struct F2 { const char *n; std::function<isl_pw_qpolynomial_fold *(const string &, const string &, const string &)> f; }; const vector<F2> K = {{"fold", [&](const string &x, const string &y, const string &) { return isl_pw_qpolynomial_fold_fold(fo(x), fo(y)); }}, {"add", [&](const string &x, const string &y, const string &) { return isl_pw_qpolynomial_fold_add(fo(x), fo(y)); }}, {"gist", [&](const string &, const string &y, const string &c) { return isl_pw_qpolynomial_fold_gist(fo(y), sq(c)); }}, {"intersect_domain", [&](const string &, const string &y, const string &c) { return isl_pw_qpolynomial_fold_intersect_domain(fo(y), sq(c)); }}, {"apply", [&](const string &x, const string &y, const string &) { return isl_map_apply_pw_qpolynomial_fold(isl_map_from_pw_aff(pa(x)), isl_pw_qpolynomial_fold_intersect_domain(fo(y), sq("{ [i] : 0 <= i <= 3 }")), nullptr); }}, {"set apply", [&](const string &, const string &y, const string &c) { return isl_set_apply_pw_qpolynomial_fold(isl_set_intersect(sq(c), sq("{ [i] : -3 <= i <= 3 }")), fo(y), nullptr); }}};
		for (auto &o : K) { isl_pw_qpolynomial_fold *x = o.f(a, b, s1), *y = o.f(full(a), full(b), full(s1)); note_transition(); bool ok = x && y; isl_set *dx = x ? isl_pw_qpolynomial_fold_domain(x) : nullptr, *dy = y ? isl_pw_qpolynomial_fold_domain(y) : nullptr; bool z = ok && isl_set_is_equal(dx, dy) == isl_bool_true; isl_set_free(dx); isl_set_free(dy); if (!ok || !z) { mc::take_error(); fail(cat("named pw_qpolynomial_fold_", o.n, "|") + who, ok ? "differs from the result over aligned parameters" : "no result"); } } }
	{ struct P2 { const char *n; std::function<isl_map *(const string &, const string &, const string &)> f; }; auto sq = [&](const string &t) { return isl_set_read_from_str(ctx, t.c_str()); }; string s1 = inst(ST()[t1 % 4], A); auto up = [&](const string &x) { return isl_union_pw_multi_aff_from_pw_multi_aff(pm(x)); };
		const vector<P2> L = {{"pw_aff_cond", [&](const string &x, const string &y, const string &c) { return isl_map_from_pw_aff(isl_pw_aff_cond(isl_set_indicator_function(sq(c)), pa(x), pa(y))); }}, {"pw_aff_intersect_domain", [&](const string &, const string &y, const string &c) { return isl_map_from_pw_aff(isl_pw_aff_intersect_domain(pa(y), sq(c))); }}, {"pw_aff_subtract_domain", [&](const string &, const string &y, const string &c) { return isl_map_from_pw_aff(isl_pw_aff_subtract_domain(pa(y), sq(c))); }}, {"pw_aff_gist", [&](const string &, const string &y, const string &c) { return isl_map_from_pw_aff(isl_pw_aff_intersect_domain(isl_pw_aff_gist(pa(y), sq(c)), sq(c))); }}, {"pw_aff_gist_params", [&](const string &, const string &y, const string &c) { return isl_map_from_pw_aff(isl_pw_aff_intersect_params(isl_pw_aff_gist_params(pa(y), isl_set_params(sq(c))), isl_set_params(sq(c)))); }}, {"pw_aff_pullback_pw_multi_aff", [&](const string &x, const string &y, const string &) { return isl_map_from_pw_aff(isl_pw_aff_pullback_pw_multi_aff(pa(x), pm(y))); }}, {"pw_aff_pullback_multi_pw_aff", [&](const string &x, const string &y, const string &) { return isl_map_from_pw_aff(isl_pw_aff_pullback_multi_pw_aff(pa(x), mu(y))); }}, {"pw_multi_aff_union_add", [&](const string &x, const string &y, const string &) { return isl_map_from_pw_multi_aff(isl_pw_multi_aff_union_add(pm(x), pm(y))); }}, {"pw_multi_aff_product", [&](const string &x, const string &y, const string &) { return isl_map_from_pw_multi_aff(isl_pw_multi_aff_product(pm(x), pm(y))); }}, {"pw_multi_aff_flat_range_product", [&](const string &x, const string &y, const string &) { return isl_map_from_pw_multi_aff(isl_pw_multi_aff_flat_range_product(pm(x), pm(y))); }}, {"pw_multi_aff_union_lexmin", [&](const string &x, const string &y, const string &) { return isl_map_from_pw_multi_aff(isl_pw_multi_aff_union_lexmin(pm(x), pm(y))); }}, {"multi_pw_aff_intersect_domain", [&](const string &, const string &y, const string &c) { return isl_map_from_multi_pw_aff(isl_multi_pw_aff_intersect_domain(mu(y), sq(c))); }}, {"multi_pw_aff_pullback", [&](const string &x, const string &y, const string &) { return isl_map_from_multi_pw_aff(isl_multi_pw_aff_pullback_multi_pw_aff(mu(x), mu(y))); }}, {"multi_pw_aff_union_add", [&](const string &x, const string &y, const string &) { return isl_map_from_multi_pw_aff(isl_multi_pw_aff_union_add(mu(x), mu(y))); }}, {"union_pw_multi_aff_add", [&](const string &x, const string &y, const string &) { return isl_map_from_union_map(isl_union_map_from_union_pw_multi_aff(isl_union_pw_multi_aff_add(up(x), up(y)))); }}, {"union_pw_multi_aff_union_add", [&](const string &x, const string &y, const string &) { return isl_map_from_union_map(isl_union_map_from_union_pw_multi_aff(isl_union_pw_multi_aff_union_add(up(x), up(y)))); }}, {"union_pw_multi_aff_flat_range_product", [&](const string &x, const string &y, const string &) { return isl_map_from_union_map(isl_union_map_from_union_pw_multi_aff(isl_union_pw_multi_aff_flat_range_product(up(x), up(y)))); }}, {"map_preimage_range", [&](const string &x, const string &y, const string &) { return isl_map_preimage_range_pw_multi_aff(isl_map_from_pw_aff(pa(x)), pm(y)); }}, {"map_preimage_domain", [&](const string &x, const string &y, const string &) { return isl_map_preimage_domain_pw_multi_aff(isl_map_from_pw_aff(pa(x)), pm(y)); }}, {"map_preimage_domain_mpa", [&](const string &x, const string &y, const string &) { return isl_map_preimage_domain_multi_pw_aff(isl_map_from_pw_aff(pa(x)), mu(y)); }}, {"pw_multi_aff_eq_map", [&](const string &x, const string &y, const string &) { return isl_multi_pw_aff_eq_map(mu(x), mu(y)); }}, {"pw_aff_lt_map", [&](const string &x, const string &y, const string &) { return isl_pw_aff_lt_map(pa(x), pa(y)); }}};
		for (auto &o : L) cmp(o.n, o.f(a, b, s1), o.f(full(a), full(b), full(s1))); }
	note_validated();
}
static void check_values(int t1, int t2, int p1, int p2) { try { check_values_(t1, t2, p1, p2); } catch (Overflow &) { note_outcome("outside the model"); mc::take_error(); } }
// operands in different spaces are rejected, whatever their parameters
static void check_mismatch(int form, int p1, int p2) {
	static const char *SP[] = {"{ [i] }", "{ A[i] }", "{ [i,j] }", "{ B[i] }", "{ [[i] -> []] }", "{ [A[] -> [i]] }", "{ A[[i] -> []] }"}; const int n = 7; int a = form % n, b = form / n % n, what = form / n / n; auto rd = [&](int k, int p) { return isl_set_read_from_str(ctx, (plist(PL()[p]) + SP[k]).c_str()); }; string who = cat(plist(PL()[p1]), SP[a], " and ", plist(PL()[p2]), SP[b]); isl_set *x = rd(a, p1), *y = rd(b, p2), *r = nullptr; isl_map *q = nullptr; static const char *N[] = {"union", "intersect", "subtract", "is_subset", "apply", "apply_range", "gist", "intersect_domain", "is_equal", "is_disjoint"}; int pred = 0; bool ispred = false; 
	switch (what) { case 0: r = isl_set_union(x, y); break; case 1: r = isl_set_intersect(x, y); break; case 2: r = isl_set_subtract(x, y); break; case 3: pred = isl_set_is_subset(x, y); ispred = true; break; case 4: r = isl_set_apply(x, isl_map_from_domain_and_range(y, rd(0, 0))); break; case 5: q = isl_map_apply_range(isl_map_from_domain_and_range(rd(0, 0), x), isl_map_from_domain_and_range(y, rd(0, 0))); break; case 6: r = isl_set_gist(isl_set_lower_bound_si(x, isl_dim_set, 0, 0), isl_set_lower_bound_si(y, isl_dim_set, 0, 1)); break; case 7: q = isl_map_intersect_domain(isl_map_from_domain_and_range(x, rd(0, 0)), y); break; case 8: pred = isl_set_is_equal(x, y); ispred = true; break; default: pred = isl_set_is_disjoint(x, y); ispred = true; }
	note_transition(); if (ispred) { isl_set_free(x); isl_set_free(y); } bool err = mc::take_error(), got = ispred ? pred >= 0 : r || q; isl_set_free(r); isl_map_free(q); if (what >= 8) { if (a != b && pred == (what == 8)) fail(cat(N[what], " mismatch|", who), "answers as if in one space"); if (a == b && (pred != (what == 8))) fail(cat(N[what], "|", who), cat("answers ", pred)); note_validated(); return; }
	if (a == b && !got) fail(cat(N[what], "|", who), "rejected"); if (a != b && what == 3) { if (pred == 1) fail("is_subset mismatch|" + who, "answers true"); } else if (a != b && got) fail(cat(N[what], " mismatch|", who), "accepted"); else if (a != b && !err) fail(cat(N[what], " mismatch silent|", who), "no error"); note_outcome(a == b ? "combined" : "rejected"); note_validated();
}
int main(int argc, char **argv) {
	mc::Harness h; h.property = "C29"; g_th = tier_thorough(argc, argv);
	auto add = [&](const string &n, mc::Radix r, std::function<void(const vector<uint64_t> &)> f, std::function<string(const vector<uint64_t> &)> d) { h.add(mc::SpaceDef(n, r.size(), [=](uint64_t i) { f(r.at(i)); }, [=](uint64_t i) { return d(r.at(i)); })); };
	static vector<T> TU; { T a = leaf("A", {"x"}), e = leaf("", {}), b = leaf("B#1", {"y", ""}), u = leaf("", {"x"}), u2 = leaf("", {"", ""}), a2 = leaf("A", {"w"}), ab = nest(a, b), n2 = nest(nest(u, a, "S"), leaf("C", {"z"})), n3 = nest(e, nest(a, a2), "R"); TU = {e, u, a, a2, b, u2, leaf("A#2", {"x"}), leaf("A", {}), ab, nest(a, a2, "S"), nest(u, u, "S"), nest(u, e), n2, n3, nest(nest(a, e), nest(b, u)), nest(nest(leaf("", {"x", "y"}), e, "N"), a)}; }
	static vector<vector<string>> PP = {{}, {"n"}, {"m", "n"}, {"n#5", "n"}, {"x"}, {"n", "m", "p"}};
	static vector<M> SP; auto mk = [](int k, const vector<string> &p, const T &a, const T &b) { M m; m.k = k; m.p = p; m.in = a; m.out = b; return m; };
	for (auto &p : PP) SP.push_back(mk(0, p, T(), T())); for (size_t i = 0; i < TU.size(); ++i) SP.push_back(mk(1, PP[i % PP.size()], T(), TU[i])); for (size_t i = 0; i < TU.size(); ++i) for (size_t j = 0; j < TU.size(); ++j) SP.push_back(mk(2, PP[(i + 2 * j) % PP.size()], TU[i], TU[j]));
	uint64_t no = OPS().size(), ns = SP.size(); auto seqd = [](const vector<uint64_t> &v) { string r = s(SP[v[0]]); for (size_t k = 1; k < v.size(); ++k) r += " " + OPS()[v[k]].n; return r; };
	add("sequences of two operations", {ns, no, no}, [](const vector<uint64_t> &v) { M m = SP[v[0]]; if (!OPS()[v[1]].applies(m)) return; run_ops(SP[v[0]], {(int) v[1], (int) v[2]}); }, seqd);
	static vector<int> core; for (size_t k = 0; k < no; ++k) { const string &n = OPS()[k].n; if (n.find("dims") == string::npos && n.find("set_") == string::npos && n.find("tuple") == string::npos && n.find("param") == string::npos) core.push_back(k); else if (n == "insert_dims out 1 1" || n == "drop_dims in 0 1" || n == "move_dims in 0 to out 1" || n == "move_dims out 0 to param 0" || n == "set_tuple_id out A" || n == "set_dim_id out 1" || n == "set_dim_id in 0") core.push_back(k); }
	uint64_t nc = core.size(), st = g_th ? 1 : 7; add("sequences of three structural operations", {ns / st, nc, nc, nc}, [=](const vector<uint64_t> &v) { const M &m = SP[v[0] * st]; if (!OPS()[core[v[1]]].applies(m)) return; run_ops(m, {core[v[1]], core[v[2]], core[v[3]]}); }, [=](const vector<uint64_t> &v) { return s(SP[v[0] * st]) + " " + OPS()[core[v[1]]].n + " " + OPS()[core[v[2]]].n + " " + OPS()[core[v[3]]].n; });
	if (g_th) add("sequences of four structural operations", {ns / 16, nc, nc, nc, nc}, [=](const vector<uint64_t> &v) { const M &m = SP[v[0] * 16]; if (!OPS()[core[v[1]]].applies(m)) return; run_ops(m, {core[v[1]], core[v[2]], core[v[3]], core[v[4]]}); }, [=](const vector<uint64_t> &v) { return cat(v[0], " ", v[1], " ", v[2], " ", v[3], " ", v[4]); });
	static vector<M> S2; for (size_t i = 0; i < TU.size(); ++i) for (int p : {0, 2, 3}) S2.push_back(mk(1, PP[p], T(), TU[i])); for (int p : {0, 2}) S2.push_back(mk(0, PP[p], T(), T())); for (size_t i = 0; i < TU.size(); i += 1) for (size_t j = 0; j < TU.size(); j += 1) if ((i + j) % 3 == 0 || g_th) S2.push_back(mk(2, PP[(i * j) % 2 ? 2 : 0], TU[i], TU[j])); { M u = mk(1, {""}, T(), TU[2]); S2.push_back(u); u.k = 2; S2.push_back(u); }
	add("pairs of spaces", {S2.size(), S2.size()}, [](const vector<uint64_t> &v) { check_pair(S2[v[0]], S2[v[1]]); }, [](const vector<uint64_t> &v) { return s(S2[v[0]]) + " and " + s(S2[v[1]]); });
	uint64_t noo = oops().size(); add("objects", {ns, noo}, [](const vector<uint64_t> &v) { check_object(SP[v[0]], v[1]); }, [](const vector<uint64_t> &v) { return cat(s(SP[v[0]]), " ", v[1]); });
	uint64_t np = PL().size(); add("relations and sets with different parameter lists", {MT().size(), MT().size(), np, np}, [](const vector<uint64_t> &v) { check_named(v[0], v[1], v[2], v[3]); }, [](const vector<uint64_t> &v) { return inst(MT()[v[0]], PL()[v[2]]) + " | " + inst(MT()[v[1]], PL()[v[3]]); });
	add("functions with different parameter lists", {4, 4, np, np}, [](const vector<uint64_t> &v) { check_values(v[0], v[1], v[2], v[3]); }, [](const vector<uint64_t> &v) { return cat(v[0], " ", v[1], " ", v[2], " ", v[3]); });
	add("operands in different spaces", {490, 4, 4}, [](const vector<uint64_t> &v) { check_mismatch(v[0], v[1], v[2]); }, [](const vector<uint64_t> &v) { return cat("form ", v[0], " parameters ", v[1], " ", v[2]); });
	h.bounds["spaces"] = cat(ns, " spaces (parameters, sets, relations; tuples nested up to depth 3, named and unnamed dimensions, identifiers with user pointers), ", no, " operations, all sequences of two and of three structural ones; ", S2.size(), " squared pairs; 8 parameter lists squared over relations, sets and functions");
	return mc::run(argc, argv, h);
}
