// C26: results do not depend on what was computed before. Contents of fresh memory, contexts with a history, and
// every ordered pair of calls sharing an object.
#include "api.hpp"
#include <fcntl.h>
#include <unistd.h>
#include <map>
using std::map; using std::pair;
using namespace api;
extern "C" { extern int aw_fill; }
// --- judging: same text, or equal values -----------------------------------
// results that the documentation leaves open: which sample is returned, the contents of fresh vector elements
static bool no_result(const Call &k) { string n = api_fns[k.fn].name; return n == "isl_ctx_last_error" || n == "isl_vec_alloc" || n == "isl_vec_add_els" || n == "isl_vec_insert_els" || n == "isl_mat_alloc" || n == "isl_mat_extend" || n == "isl_mat_add_rows" || n.rfind("isl_mat_insert_", 0) == 0 && n.find("zero") == string::npos || n.find("_sample") != string::npos; }
// the order in which callbacks are called and in which pieces and constraints are stored is not specified
static string words(const string &s) { vector<string> v; string w; for (char ch : s + " ") if (strchr(" ;,{}()[]", ch)) { if (!w.empty()) v.push_back(w); w.clear(); } else w += ch; std::sort(v.begin(), v.end()); string r; for (auto &x : v) r += x + " "; return r; }
struct Res { string t; bool null; int err; };
static Res run(isl_ctx *c, Exec &e) { isl_ctx_reset_error(c); e.run(); Res r; r.err = isl_ctx_last_error(c); r.null = e.null_result(); isl_ctx_reset_error(c); r.t = e.result(); isl_ctx_reset_error(c); return r; }
static bool equal_values(const api_fn &F, Exec &a, Exec &b) { if (F.ret != API_ROBJ || !api_types[F.rtype].eq) { string x = a.result(), y = b.result(); return (F.ret == API_ROBJ || F.ret == API_RSTR || x.find(" cb: ") != string::npos) && words(x) == words(y); } return F.ret == API_ROBJ && a.r.p && b.r.p && api_types[F.rtype].eq && api_types[F.rtype].eq(a.r.p, b.r.p) == 1; }
// --- histories of a context -------------------------------------------------
struct Hist { const char *name; void (*f)(isl_ctx *c); };
static const char *big = "[n, m] -> { [i, j, k] : exists (a : i = 3a + j and 0 <= i, j, k <= n and 2i + 3j <= m + 7k) }";
static vector<Hist> hists() { return {
	{"errors of every kind", [](isl_ctx *c) { isl_set_free(isl_set_read_from_str(c, "{ [i] : i >> ")); isl_set_free(isl_set_union(isl_set_read_from_str(c, "{ A[i] }"), isl_set_read_from_str(c, "{ B[i, j] }"))); isl_set_free(isl_set_fix_si(isl_set_read_from_str(c, "{ [i] }"), isl_dim_set, 7, 0)); isl_val_free(isl_val_add(isl_val_zero(c), nullptr)); isl_ctx_set_error(c, isl_error_unsupported); }},
	{"operation limit hit", [](isl_ctx *c) { isl_ctx_set_max_operations(c, 3); isl_set *s = isl_set_read_from_str(c, big); isl_set_free(isl_set_complement(s)); isl_ctx_set_max_operations(c, 0); isl_ctx_reset_operations(c); }},
	{"large values and many constraints", [](isl_ctx *c) { isl_set *s = isl_set_read_from_str(c, big); s = isl_set_intersect(s, isl_set_read_from_str(c, "[n, m] -> { [i, j, k] : 123456789012345678901234567890 n <= 987654321098765432109876543210 i + 1111111111111111111 j }")); isl_basic_set *h = isl_set_simple_hull(isl_set_copy(s)); isl_set_is_empty(s); isl_basic_set_free(h); isl_set_free(s); }},
	{"many identifiers", [](isl_ctx *c) { vector<isl_id *> v; for (int k = 0; k < 200; ++k) v.push_back(isl_id_alloc(c, cat("n", k).c_str(), k & 1 ? (void *) &v : nullptr)); for (auto *i : v) isl_id_free(i); }},
	{"a schedule and its AST", [](isl_ctx *c) { isl_schedule_constraints *sc = isl_schedule_constraints_on_domain(isl_union_set_read_from_str(c, "{ S[i] : 0 <= i < 3; T[i] : 0 <= i < 3 }")); sc = isl_schedule_constraints_set_validity(sc, isl_union_map_read_from_str(c, "{ S[i] -> T[i] }")); isl_schedule *s = isl_schedule_constraints_compute_schedule(sc); isl_ast_build *b = isl_ast_build_alloc(c); isl_ast_node *t = isl_ast_build_node_from_schedule(b, s); isl_ast_node_free(t); isl_ast_build_free(b); }},
	{"options changed and restored", [](isl_ctx *c) { int a = isl_options_get_schedule_algorithm(c), b = isl_options_get_ast_build_atomic_upper_bound(c), d = isl_options_get_bound(c); isl_options_set_schedule_algorithm(c, ISL_SCHEDULE_ALGORITHM_FEAUTRIER); isl_options_set_ast_build_atomic_upper_bound(c, !b); isl_options_set_bound(c, 1 - d); isl_set_free(isl_set_read_from_str(c, big)); isl_options_set_schedule_algorithm(c, a); isl_options_set_ast_build_atomic_upper_bound(c, b); isl_options_set_bound(c, d); }},
	{"objects still alive", [](isl_ctx *c) { (void) c; }},
}; }
int main(int argc, char **argv) {
	aw_init(); mc::Harness h; h.property = "C26"; bool th = tier_thorough(argc, argv); makers();
	h.setup = []() { if (getenv("MC_DEBUG")) return; int fd = open("/dev/null", O_WRONLY); dup2(fd, 2); };
	static Table T(th ? 2 : 1); static vector<Hist> H = hists();
	// 1. contents of fresh memory; the same call again; the same call after each history
	mc::SpaceDef s("contexts", T.n, [th](uint64_t i) {
		Call k = T.at(i); auto &F = api_fns[k.fn]; if (outside_contract(k) || no_result(k)) { mc::note_outcome("outside the documented contract (skipped)"); return; }
		Res base; string site = show(k);
		auto against = [&](const string &what, isl_ctx *c, Exec &e, const Res &r) {
			mc::note_validated(); if (r.t == base.t && r.null == base.null && r.err == base.err) { mc::note_outcome("same outcome"); return string(); }
			if (r.null == base.null && r.err == base.err) { aw_fill = -1; isl_ctx *d = c; Exec b(d, k); b.make(false, false); b.run(); bool same = equal_values(F, b, e); b.drop(); isl_ctx_reset_error(c); if (same) { mc::note_outcome("same value, other notation"); return string(); } }
			return cat(what, ": ", r.t, r.err != base.err ? cat(" (error ", r.err, ")") : "", " instead of ", base.t, r.err != base.err ? cat(" (error ", base.err, ")") : ""); };
		for (int fill : th ? vector<int>{-2, 0x00, 0xA5, 0xFF} : vector<int>{-2, 0x00}) { aw_fill = fill == -2 ? 0x5A : fill; isl_ctx *c = new_ctx(); string bad; { Exec e(c, k); e.make(false, false); Res r = run(c, e); mc::note_transition(); if (fill == -2) { base = r; mc::note_state(mc::hash_mix(mc::hash_str(F.name), mc::hash_str(r.t))); } else bad = against(cat("fresh memory filled with ", fill), c, e, r); aw_fill = -1; e.drop(); }
			isl_ctx_reset_error(c); isl_ctx_free(c); if (!bad.empty()) fail("memory|" + site, bad); }
		for (size_t q = 0; q <= H.size(); ++q) { isl_ctx *c = new_ctx(); string bad;
			{ void *o = nullptr; if (q == H.size()) { Exec e(c, k); e.make(true, true); run(c, e); e.drop(); } else { H[q].f(c); if (q + 1 == H.size()) o = isl_set_read_from_str(c, big); }
			  if (q == 0) { Exec z(c, k); z.make(false, false); isl_ctx_set_error(c, isl_error_internal); z.run(); string t = z.result(); Exec y(c, k); y.make(false, false); y.run(); if (t != base.t && !equal_values(F, y, z)) bad = cat("with an error pending: ", t, " instead of ", base.t); y.drop(); z.drop(); isl_ctx_reset_error(c); }
			  Exec e(c, k); e.make(false, false); Res r = run(c, e); mc::note_transition(); if (bad.empty()) bad = against(q == H.size() ? "repeated call" : H[q].name, c, e, r); e.drop(); isl_set_free((isl_set *) o); }
			isl_ctx_reset_error(c); isl_ctx_free(c); if (!bad.empty()) fail("history|" + site, bad); }
	}, [](uint64_t i) { return show(T.at(i)); });
	h.add(s);
	// 2. every ordered pair of calls on the same object
	struct It { int type, k; Call y; }; static vector<It> items; static vector<vector<Call>> calls; static vector<int> cls; static map<pair<int, int>, int> clsid;
	auto on = [](int t, int k, bool second) { vector<Call> v; for (int f = 0; f < api_n_fns; ++f) { auto &F = api_fns[f]; if (!F.defined || (!second && F.ret == API_RVOID)) continue; int p = -1; for (int a = 0; a < F.n; ++a) if (F.arg[a].kind == API_OBJ && F.arg[a].type == t) { p = a; break; } if (p < 0) continue;
		bool ok = true; for (int a = 0; a < F.n; ++a) if (!choices(F, a, 1)) ok = false; if (!ok) continue;
		for (int var = 0; var < (second ? 2 : 1); ++var) { Call c; c.fn = f; bool multi = false; for (int a = 0; a < F.n; ++a) { int n = F.arg[a].kind == API_OBJ ? (int) makers()[F.arg[a].type].size() : choices(F, a, 1); int q = a == p ? k : F.arg[a].kind == API_OBJ && F.arg[a].type == t ? (var ? k : (k + 1) % n) : var % n; if (a != p && n > 1) multi = true; c.ch.push_back(q); } if (var && !multi) break; if (!outside_contract(c) && !no_result(c)) v.push_back(c); } } return v; };
	int nobj = th ? 8 : 1;
	for (int t = 0; t < api_n_types; ++t) if (api_types[t].copy) for (int k = 0; k < (int) makers()[t].size() && k < nobj; ++k) { clsid[{t, k}] = calls.size(); calls.push_back(on(t, k, th)); for (auto &y : on(t, k, false)) items.push_back({t, k, y}); }
	uint64_t pairs = 0; for (auto &it : items) pairs += calls[clsid[{it.type, it.k}]].size();
	mc::SpaceDef s2("pairs", items.size(), [](uint64_t i) {
		const It &it = items[i]; auto &Y = api_types[it.type]; int id = clsid[{it.type, it.k}]; auto &X = calls[id];
		static map<int, vector<Res>> bases; auto &B = bases[id];
		if (B.empty()) for (auto &x : X) { isl_ctx *c = new_ctx(); { Exec e(c, x); e.make(false, false); B.push_back(run(c, e)); e.drop(); } isl_ctx_reset_error(c); isl_ctx_free(c); }
		auto share = [&](Exec &e, void *o) { bool done = false; for (int a = 0; a < e.F.n; ++a) if (e.F.arg[a].kind == API_OBJ && e.F.arg[a].type == it.type && e.call.ch[a] == it.k) { if (e.a[a].p) Y.free(e.a[a].p); e.a[a].p = Y.copy(o); done = true; } return done; };
		for (size_t j = 0; j < X.size(); ++j) { const Call &x = X[j]; auto &F = api_fns[x.fn]; isl_ctx *c = new_ctx(); string bad;
			{ void *o = makers()[it.type][it.k](c);
			  { Exec y(c, it.y); y.make(false, false); share(y, o); y.run(); y.drop(); }
			  Exec e(c, x); e.make(false, false); share(e, o); Y.free(o); Res r = run(c, e); mc::note_transition(); mc::note_validated();
			  const Res &b = B[j]; bool same = r.null == b.null && r.err == b.err;
			  if (same && r.t != b.t) { Exec z(c, x); z.make(false, false); z.run(); same = equal_values(F, z, e); z.drop(); isl_ctx_reset_error(c); }
			  if (!same) bad = cat("after ", show(it.y), " on the same object: ", r.t, r.err != b.err ? cat(" (error ", r.err, ")") : "", " instead of ", b.t, r.err != b.err ? cat(" (error ", b.err, ")") : "");
			  else mc::note_state(mc::hash_mix(mc::hash_mix(x.fn, it.k), mc::hash_str(r.t)));
			  e.drop(); }
			isl_ctx_reset_error(c); isl_ctx_free(c); if (!bad.empty()) fail("pair|" + show(x), bad); }
	}, [](uint64_t i) { return cat("pairs starting with ", show(items[i].y), " on ", api_types[items[i].type].name, "#", items[i].k); });
	s2.item_timeout = 120; h.add(s2);
	h.bounds["contexts"] = cat(T.n, " calls x ", th ? 4 : 2, " initial contents of memory and ", H.size() + 2, " histories of the context");
	h.bounds["pairs"] = cat(pairs, " ordered pairs of calls sharing an object; ", nobj, " objects per type");
	return mc::run(argc, argv, h);
}
