// C23: allocation failure. Every function call of the pool table, every single allocation request that fails.
#include "api.hpp"
#include <fcntl.h>
#include <unistd.h>
#include <setjmp.h>
#include <signal.h>
#include <execinfo.h>
using namespace api;
static sigjmp_buf jb; static volatile bool armed; static void *bt[40]; static int btn;
static void on_fault(int s) { if (!armed) { signal(s, SIG_DFL); raise(s); return; } armed = false; btn = backtrace(bt, 40); siglongjmp(jb, s); }
extern char __executable_start;
extern "C" void (*aw_hook)(void);
static void *bt2[40]; static int bn2; static void hook() { bn2 = backtrace(bt2, 40); }
static string trace2() { if (!aw_hook) return ""; string s = " AT"; for (int k = 0; k < bn2; ++k) { long d = (char *) bt2[k] - &__executable_start; if (d > 0 && d < 100000000) s += cat(" ", d); } return s; }
static string trace() { string s; for (int k = 0; k < btn; ++k) { long d = (char *) bt[k] - &__executable_start; if (d > 0 && d < 100000000) s += cat(" ", d); } return s; }
// values of two folds at all points of a small grid
static isl_union_pw_qpolynomial_fold *as_union(int type, void *p) { string n = api_types[type].name; if (n == "isl_union_pw_qpolynomial_fold") return isl_union_pw_qpolynomial_fold_copy((isl_union_pw_qpolynomial_fold *) p); if (n == "isl_pw_qpolynomial_fold") return isl_union_pw_qpolynomial_fold_from_pw_qpolynomial_fold(isl_pw_qpolynomial_fold_copy((isl_pw_qpolynomial_fold *) p)); return nullptr; }
static bool same_fold(int type, void *a, void *b) {
	isl_union_pw_qpolynomial_fold *x = as_union(type, a), *y = as_union(type, b); if (!x || !y) { isl_union_pw_qpolynomial_fold_free(x); isl_union_pw_qpolynomial_fold_free(y); return false; }
	struct D { isl_union_pw_qpolynomial_fold *x, *y; bool same; } d{x, y, true};
	isl_union_set *u = isl_union_set_union(isl_union_pw_qpolynomial_fold_domain(isl_union_pw_qpolynomial_fold_copy(x)), isl_union_pw_qpolynomial_fold_domain(isl_union_pw_qpolynomial_fold_copy(y)));
	isl_union_set_foreach_set(u, [](isl_set *s, void *q) {
		for (isl_dim_type t : {isl_dim_param, isl_dim_set}) for (int k = 0; k < (int) isl_set_dim(s, t); ++k) { s = isl_set_lower_bound_si(s, t, k, -1); s = isl_set_upper_bound_si(s, t, k, 4); }
		isl_stat r = isl_set_foreach_point(s, [](isl_point *pt, void *q) { D *d = (D *) q; isl_val *v = isl_union_pw_qpolynomial_fold_eval(isl_union_pw_qpolynomial_fold_copy(d->x), isl_point_copy(pt)), *w = isl_union_pw_qpolynomial_fold_eval(isl_union_pw_qpolynomial_fold_copy(d->y), pt); if (isl_val_eq(v, w) != isl_bool_true) d->same = false; isl_val_free(v); isl_val_free(w); return isl_stat_ok; }, q);
		isl_set_free(s); return r; }, &d);
	isl_union_set_free(u); isl_union_pw_qpolynomial_fold_free(x); isl_union_pw_qpolynomial_fold_free(y); return d.same;
}
// the printed text denotes the printed object (objects with a reader and an equality test; others are not judged)
static bool printed_same(isl_ctx *c, const api_fn &F, const Call &k, const char *txt) {
	if (!txt) return true;
	string n = F.name; size_t q = n.rfind("_to_str"); if (q == string::npos || q + 7 != n.size()) return true;
	string rd = n.substr(0, q) + "_read_from_str"; int type = F.arg[0].type; if (!api_types[type].eq) return true;
	for (int f = 0; f < api_n_fns; ++f) if (api_fns[f].defined && rd == api_fns[f].name && api_fns[f].n == 2) {
		api_slot a[2], r; memset(a, 0, sizeof a); memset(&r, 0, sizeof r); a[0].p = c; a[1].s = (char *) txt; api_fns[f].call(a, &r); if (!r.p) { isl_ctx_reset_error(c); return false; }
		void *o = makers()[type][k.ch[0]](c); bool same = api_types[type].eq(o, r.p) == 1; api_types[type].free(o); api_types[type].free(r.p); return same; }
	return true;
}
int main(int argc, char **argv) {
	aw_init(); api::logging = false;
	mc::Harness h; h.property = "C23";
	bool th = tier_thorough(argc, argv);
	static long cap; cap = th ? 4000 : 80;
	makers();
	static Table T(th ? 2 : 1);
	static bool dev = getenv("C23_TRACE");
	h.setup = []() {
		for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_fault; sa.sa_flags = SA_NODEFER | SA_ONSTACK; sigaction(s, &sa, nullptr); }
		static char stk[1 << 16]; stack_t ss; ss.ss_sp = stk; ss.ss_size = sizeof stk; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
		backtrace(bt, 2); if (dev) aw_hook = hook;
		if (getenv("MC_DEBUG")) return; int fd = open("/dev/null", O_WRONLY); dup2(fd, 2); };
	mc::SpaceDef s("allocations", T.n, [](uint64_t i) {
		Call k = T.at(i); auto &F = api_fns[k.fn];
		if (outside_contract(k)) { mc::note_outcome("outside the documented contract (skipped)"); return; }
		bool voidret = F.ret == API_RVOID;
		string bases[2]; bool bnulls[2]; int berrs[2]; string key = F.name, site = show(k);
		bool sample = strstr(F.name, "_sample"), fmt = strstr(F.name, "_print") || strstr(F.name, "_to_str");   // a printer may fall back to another notation of the same object
		static string firstbad; firstbad.clear();
		for (long n = -2; ; ++n) {   // -2, -1: no failure, arguments unshared and shared; then allocation 0, 1, 2, ...
			bool inj = n >= 0, shared = n & 1;
			string &base = bases[shared]; bool &bnull = bnulls[shared]; int &berr = berrs[shared];
			long live = aw_live; string bad; bool done = false; bool leakfree = true;
			isl_ctx *c = new_ctx();
			{
				Exec e(c, k); e.make(shared, false); e.snapshot();
				isl_ctx_reset_error(c);
				aw_failed = 0; int sig = 0;
				armed = true; if ((sig = sigsetjmp(jb, 1)) == 0) { if (inj) aw_fail = aw_count + n; e.run(); }
				armed = false; aw_fail = -1;
				if (sig) { static volatile int z; z = sig; string m = cat("signal ", (int) z, " when allocation ", n, " fails"); aw_live = live; fail("crash|" + site, m + (dev ? " TRACE" + trace() + trace2() : "")); }
				bool failed = aw_failed;
				int err = isl_ctx_last_error(c); bool null = e.null_result();
				isl_ctx_reset_error(c);
				string t = e.result(); isl_ctx_reset_error(c);
				if (!inj) { base = t; bnull = null; berr = err; }
				else {
					mc::note_state(mc::hash_mix(mc::hash_str(F.name), mc::hash_mix(n, mc::hash_str(t))));
					mc::note_validated();
					done = !failed;
					auto same = [&]() { if (F.ret != API_ROBJ || !e.r.p) return false; Exec b(c, k); b.make(shared, false); b.snapshot(); b.run(); bool r = b.r.p && ((api_types[F.rtype].eq && api_types[F.rtype].eq(b.r.p, e.r.p) == 1) || (strstr(api_types[F.rtype].name, "fold") && same_fold(F.rtype, b.r.p, e.r.p))); b.drop(); isl_ctx_reset_error(c); return r; };
					bool reported = null || (F.ret == API_RINT && (int) e.r.i < 0) ||  (voidret && err) || ((F.ret == API_RINT || F.ret == API_RDBL || F.ret == API_RCTX) && err);
					if (failed && !reported) {
						if (t != base && !sample && !voidret && !same() && !(fmt && printed_same(c, F, k, e.r.s))) bad = cat("allocation ", n, " fails", err ? " (error recorded)" : "", ", but the call reports success with ", t, " instead of ", base);
					}
					if (failed && null && !bnull && !err && F.ret != API_RMAYBE) mc::note_outcome("failure reported without an error code");
					if (!failed && !sample && (null != bnull || err != berr || (t != base && !same()))) bad = cat("without a failure: ", t, " differs from ", base);
					for (int a = 0; a < F.n && bad.empty(); ++a) if (e.obj(a)) {
						string now = text(F.arg[a].type, e.obj(a)); if (now == e.before[a]) continue;
						auto &Y = api_types[F.arg[a].type]; void *z = makers()[F.arg[a].type][k.ch[a]](c);
						if (!Y.eq || Y.eq(z, e.obj(a)) != 1) bad = cat("allocation ", n, " fails: argument ", a, " changed from ", e.before[a], " to ", now);
						Y.free(z);
					}
				}
				armed = true; if ((sig = sigsetjmp(jb, 1)) == 0) e.drop(); armed = false;
				if (sig) { aw_live = live; fail("crash|" + site, cat("signal when releasing the objects after allocation ", n, " failed", trace2())); }
				isl_ctx_reset_error(c);
				if (failed && bad.empty()) {   // the context stays usable
					Exec b(c, k); b.make(shared, false); b.snapshot(); isl_ctx_reset_error(c); b.run(); int e2 = isl_ctx_last_error(c); isl_ctx_reset_error(c); string t2 = b.result();
					if (t2 != base || e2 != berr || b.null_result() != bnull) { bool ok = false; if (F.ret == API_ROBJ && api_types[F.rtype].eq && b.r.p) { Exec d(c, k); d.make(shared, false); d.snapshot(); d.run(); ok = d.r.p && api_types[F.rtype].eq(d.r.p, b.r.p) == 1; d.drop(); } if (!ok && !sample) bad = cat("after allocation ", n, " failed the same computation gives ", t2, " instead of ", base); }
					b.drop();
				}
				(void) leakfree;
			}
			mc::note_transition();
			isl_ctx_reset_error(c); isl_ctx_free(c);
			if (!bad.empty()) { aw_live = live; fail("result|" + site, bad + trace2()); }
			if (aw_live != live) { long d = aw_live - live; aw_live = live; fail("leak|" + site, cat(d, " allocations outstanding after allocation ", n, " failed", trace2())); }
			if (inj) mc::note_outcome(done ? "completed without failing" : "failed allocation");
			if (!inj) continue;
			if (done) break;
			if (n >= cap) { mc::note_outcome("more allocations than the bound"); break; }
		}
	}, [](uint64_t i) { return show(T.at(i)); });
	s.item_timeout = th ? 120 : 60; h.add(s);
	// construction of every pool object (text readers, builders): the whole object is either built or the failure is reported
	struct B { int type, k; }; static vector<B> mk; for (int t = 0; t < api_n_types; ++t) for (size_t k = 0; k < makers()[t].size(); ++k) mk.push_back({t, (int) k});
	mc::SpaceDef s2("construction", mk.size(), [](uint64_t i) {
		B b = mk[i]; auto &Y = api_types[b.type]; string site = cat(Y.name, "#", b.k), base;
		for (long n = -1; n <= cap * 8; ++n) {
			long live = aw_live; isl_ctx *c = new_ctx(); aw_failed = 0; int sig = 0; void *volatile o = nullptr;
			armed = true; if ((sig = sigsetjmp(jb, 1)) == 0) { if (n >= 0) aw_fail = aw_count + n; o = makers()[b.type][b.k](c); }
			armed = false; aw_fail = -1;
			if (sig) { aw_live = live; fail("build-crash|" + site, cat("signal when allocation ", n, " fails", dev ? " TRACE" + trace() + trace2() : "")); }
			bool failed = aw_failed; int err = isl_ctx_last_error(c); isl_ctx_reset_error(c); mc::note_transition(); string bad;
			if (n < 0) { if (!o) fail("pool|" + site, "not built"); base = text(b.type, o); }
			else if (o) { string t = text(b.type, o); mc::note_validated(); if (t != base) { void *z = makers()[b.type][b.k](c); if (!(Y.eq && Y.eq(z, o) == 1) && !(strstr(Y.name, "fold") && same_fold(b.type, z, o))) bad = cat("allocation ", n, " fails", err ? " (error recorded)" : "", ", but ", t, " is built instead of ", base); Y.free(z); } }
			if (o) Y.free(o);
			isl_ctx_reset_error(c); isl_ctx_free(c);
			if (!bad.empty()) { aw_live = live; fail("build|" + site, bad + trace2()); }
			if (aw_live != live) { long d = aw_live - live; aw_live = live; fail("build-leak|" + site, cat(d, " allocations outstanding after allocation ", n, " failed", trace2())); }
			mc::note_state(mc::hash_mix(mc::hash_str(site), n));
			if (n >= 0) mc::note_outcome(failed ? "construction: failed allocation" : "construction: completed");
			if (n >= 0 && !failed) break;
		}
	}, [](uint64_t i) { return cat("build ", api_types[mk[i].type].name, "#", mk[i].k); });
	s2.item_timeout = 60; h.add(s2);
	h.bounds["construction"] = cat(mk.size(), " pool objects, every allocation of their construction");
	h.bounds["allocations"] = cat(T.n, " calls of ", T.fns.size(), " functions; allocation 0, 1, ... fails until the call completes, at most ", cap);
	return mc::run(argc, argv, h);
}
