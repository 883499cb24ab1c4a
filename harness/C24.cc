// C24: NULL object arguments. Every function, every non-empty subset of its object arguments replaced by NULL.
#include "api.hpp"
#include <fcntl.h>
#include <unistd.h>
using namespace api;
// functions for which NULL is a documented argument value
static bool null_allowed(const api_fn &F, int arg) {
	string n = F.name;
	if (n.size() > 5 && n.substr(n.size() - 5) == "_free") return true;
	return false;
}
int main(int argc, char **argv) {
	aw_init();
	mc::Harness h; h.property = "C24";
	bool th = tier_thorough(argc, argv);
	makers();
	struct Item { int fn; unsigned mask; int variant; };
	static vector<Item> items; int nf = 0;
	for (int f = 0; f < api_n_fns; ++f) {
		auto &F = api_fns[f]; if (!F.defined) continue;
		vector<int> ob; bool ok = true; for (int a = 0; a < F.n; ++a) if (F.arg[a].kind == API_OBJ) { ob.push_back(a); ok &= !makers()[F.arg[a].type].empty() || true; }
		if (ob.empty()) continue; ++nf;
		for (unsigned m = 1; m < (1u << ob.size()); ++m) for (int v = 0; v < (th ? 4 : 2); ++v) { unsigned mask = 0; for (size_t k = 0; k < ob.size(); ++k) if (m >> k & 1) mask |= 1u << ob[k]; items.push_back({f, mask, v}); }
	}
	auto call_of = [](const Item &it) { Call k; k.fn = it.fn; auto &F = api_fns[it.fn]; k.ch.resize(F.n); for (int a = 0; a < F.n; ++a) { int m = F.arg[a].kind == API_OBJ ? makers()[F.arg[a].type].size() : F.arg[a].kind >= API_INT ? ints(F.arg[a].kind).size() : 1; k.ch[a] = m ? it.variant % m : 0; } return k; };
	h.setup = []() { if (getenv("MC_DEBUG")) return; int fd = open("/dev/null", O_WRONLY); dup2(fd, 2); };
	mc::SpaceDef s("null", items.size(), [call_of](uint64_t i) {
		const Item &it = items[i]; Call k = call_of(it); auto &F = api_fns[it.fn];
		for (int a = 0; a < F.n; ++a) if (F.arg[a].kind == API_OBJ && !(it.mask >> a & 1) && makers()[F.arg[a].type].empty()) return;
		long live = aw_live; string bad;
		isl_ctx *c = new_ctx();
		{
			Exec e(c, k);
			vector<int> ch = k.ch;
			// build only the arguments that are not NULL
			{ static const char *strs[] = {"n", "x"}; for (int a = 0; a < F.n; ++a) { auto &x = F.arg[a]; switch (x.kind) {
				case API_OBJ: if (!(it.mask >> a & 1)) { e.a[a].p = makers()[x.type][k.ch[a]](c); if (it.variant & 1 && x.take && api_types[x.type].copy) e.held[a] = api_types[x.type].copy(e.a[a].p); } break;
				case API_CTX: e.a[a].p = c; break; case API_STR: e.a[a].s = (char *) strs[k.ch[a] & 1]; break; case API_DBL: e.a[a].d = 2.5; break;
				case API_INT: case API_DIM: case API_FOLD: case API_OPTYPE: case API_LOOP: e.a[a].i = ints(x.kind)[k.ch[a]]; break; } } }
			e.snapshot(); isl_ctx_reset_error(c);
			e.run(); mc::note_transition();
			bool allowed = false; for (int a = 0; a < F.n; ++a) if (it.mask >> a & 1) allowed |= null_allowed(F, a);
			if (!allowed && !e.null_result() && (F.ret == API_ROBJ || F.ret == API_RBOOL || F.ret == API_RSTAT || F.ret == API_RSIZE || F.ret == API_RSTR || F.ret == API_RMAYBE)) bad = cat("reports success with a NULL argument (mask ", it.mask, "): ", e.result());
			mc::note_outcome(allowed ? "NULL allowed" : e.null_result() ? "error value" : "no error value in the return type");
			isl_ctx_reset_error(c);
			for (int a = 0; a < F.n && bad.empty(); ++a) if (e.obj(a)) { string now = text(F.arg[a].type, e.obj(a)); if (now != e.before[a]) { auto &T = api_types[F.arg[a].type]; void *t = makers()[F.arg[a].type][k.ch[a]](c); if (!T.eq || T.eq(t, e.obj(a)) != 1) bad = cat("argument ", a, " changed from ", e.before[a], " to ", now); T.free(t); } }
			mc::note_state(mc::hash_mix(mc::hash_str(F.name), it.mask)); mc::note_validated();
			e.drop();
		}
		isl_ctx_free(c);
		if (!bad.empty()) { aw_live = live; fail(string("null|") + F.name, bad); }
		if (aw_live != live) { long d = aw_live - live; aw_live = live; fail(string("leak|") + F.name, cat(d, " allocations outstanding, NULL mask ", it.mask)); }
	}, [call_of](uint64_t i) { return show(call_of(items[i])) + cat(" NULL mask ", items[i].mask); });
	h.add(s);
	h.bounds["null"] = cat(nf, " functions with object arguments, every non-empty subset of the object arguments set to NULL, ", th ? 4 : 2, " choices of the remaining arguments, with and without extra references");
	return mc::run(argc, argv, h);
}
