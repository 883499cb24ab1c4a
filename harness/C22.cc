// C22: the operation limit. Every function call of the pool table, every limit k from 1 to the number of operations it needs.
#include "api.hpp"
#include <fcntl.h>
#include <unistd.h>
using namespace api;
struct Res { string text; bool null; int err; };
static unsigned long limit_of(int argc, char **argv);
int main(int argc, char **argv) {
	aw_init(); api::logging = false;
	mc::Harness h; h.property = "C22";
	bool th = tier_thorough(argc, argv);
	static unsigned long cap; cap = th ? 2000 : 60;
	makers();
	static Table T(th ? 2 : 1);
	h.setup = []() { if (getenv("MC_DEBUG")) return; int fd = open("/dev/null", O_WRONLY); dup2(fd, 2); };
	mc::SpaceDef s("limits", T.n, [](uint64_t i) {
		Call k = T.at(i); auto &F = api_fns[k.fn];
		if (outside_contract(k)) { mc::note_outcome("outside the documented contract (skipped)"); return; }
		bool voidret = F.ret == API_RVOID;
		string bases[2]; bool bnulls[2]; int berrs[2]; string key = F.name, site = show(k);
		bool sample = strstr(F.name, "_sample");
		unsigned long skip = 0;
		for (unsigned long n = 0; ; ++n) {   // n = 0, 1: no limit, arguments unshared and shared; then limit 1, 2, ...
			unsigned long lim = n < 2 ? 0 : n - 1; bool shared = n & 1;
			string &base = bases[shared]; bool &bnull = bnulls[shared]; int &berr = berrs[shared];
			long live = aw_live; string bad; bool done = false, quota = false;
			isl_ctx *c = new_ctx();
			{
				Exec e(c, k); e.make(shared, false); e.snapshot();
				isl_ctx_reset_error(c);
				isl_ctx_reset_operations(c); isl_ctx_set_max_operations(c, lim);
				e.run();
				int err = isl_ctx_last_error(c); quota = lim && err == isl_error_quota; bool null = e.null_result();
				isl_ctx_set_max_operations(c, 0); isl_ctx_reset_operations(c); isl_ctx_reset_error(c);
				string t = e.result(); isl_ctx_reset_error(c);
				if (!lim) { base = t; bnull = null; berr = err; }
				else {
					mc::note_state(mc::hash_mix(mc::hash_str(F.name), mc::hash_mix(lim, mc::hash_str(t))));
					mc::note_validated();
					done = !quota;
					if (quota && !null) {
						// the failure was not reported: only acceptable if the result is nevertheless right
						if (!voidret && t != base && F.ret != API_RINT && F.ret != API_RDBL && F.ret != API_RCTX) {
							bool same = false; if (F.ret == API_ROBJ && api_types[F.rtype].eq) { Exec b(c, k); b.make(shared, false); b.snapshot(); b.run(); same = b.r.p && api_types[F.rtype].eq(b.r.p, e.r.p) == 1; b.drop(); isl_ctx_reset_error(c); }
							if (!same && !sample) bad = cat("limit ", lim, ": quota error, but the call reports success with ", t, " instead of ", base);
						}
					}
					if (!quota && bad.empty() && !sample) {
						if (null && err && (null != bnull || err != berr)) done = false;   // the failure was reported, if not as a quota error
						else if (null != bnull || err != berr) bad = cat("limit ", lim, ": error state differs from the unlimited run without a quota error");
						else if (t != base) { bool same = false; if (F.ret == API_ROBJ && api_types[F.rtype].eq && e.r.p) { Exec b(c, k); b.make(shared, false); b.snapshot(); b.run(); same = b.r.p && api_types[F.rtype].eq(b.r.p, e.r.p) == 1; b.drop(); isl_ctx_reset_error(c); } if (!same) bad = cat("limit ", lim, ": result ", t, " differs from the unlimited ", base); }
					}
					for (int a = 0; a < F.n && bad.empty(); ++a) if (e.obj(a)) {
						string now = text(F.arg[a].type, e.obj(a)); if (now == e.before[a]) continue;
						auto &Y = api_types[F.arg[a].type]; void *z = makers()[F.arg[a].type][k.ch[a]](c);
						if (!Y.eq || Y.eq(z, e.obj(a)) != 1) bad = cat("limit ", lim, ": argument ", a, " changed from ", e.before[a], " to ", now);
						Y.free(z);
					}
				}
				e.drop();
				isl_ctx_reset_error(c);
				if (quota && bad.empty()) {   // the context stays usable
					Exec b(c, k); b.make(shared, false); b.snapshot(); isl_ctx_reset_error(c); b.run(); int e2 = isl_ctx_last_error(c); isl_ctx_reset_error(c); string t2 = b.result();
					if (t2 != base || e2 != berr || b.null_result() != bnull) { bool same = false; if (F.ret == API_ROBJ && api_types[F.rtype].eq && b.r.p) { Exec d(c, k); d.make(shared, false); d.snapshot(); isl_ctx *c2 = c; d.run(); (void) c2; same = d.r.p && api_types[F.rtype].eq(d.r.p, b.r.p) == 1; d.drop(); } if (!same && !sample) bad = cat("after a quota error at limit ", lim, " the same computation gives ", t2, " instead of ", base); }
					b.drop();
				}
			}
			mc::note_transition();
			isl_ctx_reset_error(c); isl_ctx_free(c);
			if (!bad.empty()) { aw_live = live; fail("quota|" + site, bad); }
			if (aw_live != live) { long d = aw_live - live; aw_live = live; fail("leak|" + key, cat(d, " allocations outstanding at limit ", lim)); }
			if (lim) mc::note_outcome(quota ? "quota error" : "completed");
			if (n < 2) continue;
			if (done) break;
			if (lim >= cap) { mc::note_outcome("more operations than the bound"); break; }
		}
	}, [](uint64_t i) { return show(T.at(i)); });
	s.item_timeout = th ? 120 : 60; h.add(s);
	h.bounds["limits"] = cat(T.n, " calls of ", T.fns.size(), " functions; every limit 1, 2, ... until the call completes, at most ", cap);
	return mc::run(argc, argv, h);
}
