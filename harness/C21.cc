// C21: value semantics, reference counting and memory safety of every public function, on every tuple of pool objects.
#include "api.hpp"
#include <fcntl.h>
#include <unistd.h>
using namespace api;
struct Outcome { string res; bool err; bool null; };
static Outcome once(const Call &k, bool shared, bool alias, int fill, const char *how) {
	long live = aw_live; Outcome o; string bad;
	aw_fill = fill;
	isl_ctx *c = new_ctx();
	{
		Exec e(c, k); e.make(shared, alias); e.snapshot();
		// an independent twin of everything the caller keeps, for comparison after the call
		vector<void *> twin(e.F.n);
		isl_ctx_reset_error(c);
		e.run(); o.err = e.failed; o.null = e.null_result(); 
		isl_ctx_reset_error(c);
		o.res = e.result();
		isl_ctx_reset_error(c);
		for (int a = 0; a < e.F.n && bad.empty(); ++a) if (e.obj(a)) {
			string now = text(e.F.arg[a].type, e.obj(a));
			if (now == e.before[a]) continue;
			auto &T = api_types[e.F.arg[a].type]; void *t = makers()[e.F.arg[a].type][k.ch[a]](c);
			if (!T.eq || T.eq(t, e.obj(a)) != 1) bad = cat("argument ", a, " changed from ", e.before[a], " to ", now);
			T.free(t);
		}
		e.drop();
	}
	isl_ctx_reset_error(c);
	isl_ctx_free(c);
	aw_fill = -1;
	if (!bad.empty()) fail(string("value|") + api_fns[k.fn].name, bad + " [" + how + "]");
	if (aw_live != live) { long d = aw_live - live; aw_live = live; fail(string("leak|") + api_fns[k.fn].name, cat(d, " allocations outstanding after everything was released [", how, "] result ", o.res)); }
	mc::note_transition();
	return o;
}
// The texts of two executions differ: are the values equal?  (Only the order of pieces is allowed to differ.)
static bool same_value(const Call &k, const char *how) {
	auto &F = api_fns[k.fn]; bool ok = false;
	if (strstr(F.name, "_sample")) return strcmp(how, "memory contents");        // any element may be returned
	if (!strcmp(how, "same object passed twice") && (strstr(F.name, "isl_schedule_node_is_equal") || strstr(F.name, "shared_ancestor") || strstr(F.name, "_add_disjoint") || strstr(F.name, "_union_disjoint"))) return true;   // identity, respectively disjointness, is part of the contract
	if (!strcmp(how, "memory contents") || F.ret != API_ROBJ || !api_types[F.rtype].eq) return false;
	isl_ctx *c = new_ctx();
	{ Exec a(c, k), b(c, k); a.make(false, false); b.make(true, !strcmp(how, "same object passed twice")); a.run(); b.run(); ok = a.r.p && b.r.p && api_types[F.rtype].eq(a.r.p, b.r.p) == 1; a.drop(); b.drop(); }
	isl_ctx_free(c); return ok;
}
int main(int argc, char **argv) {
	aw_init();
	mc::Harness h; h.property = "C21";
	int scale = tier_thorough(argc, argv) ? 2 : 1;
	makers();
	static Table T(scale);
	h.setup = []() { if (getenv("MC_DEBUG")) return; int fd = open("/dev/null", O_WRONLY); dup2(fd, 2); };
	mc::SpaceDef s("calls", T.n, [](uint64_t i) {
		Call k = T.at(i); auto &F = api_fns[k.fn];
		if (outside_contract(k)) { mc::note_outcome("outside the documented contract (skipped)"); return; }
		Outcome a = once(k, false, false, 0, "unshared");
		mc::note_state(mc::hash_mix(mc::hash_str(F.name), mc::hash_str(a.res)));
		mc::note_validated();
		bool takes = false, same = false;
		for (int x = 0; x < F.n; ++x) { if (F.arg[x].kind != API_OBJ) continue; takes |= F.arg[x].take; for (int y = 0; y < x; ++y) same |= F.arg[y].kind == API_OBJ && F.arg[y].type == F.arg[x].type && k.ch[x] == k.ch[y]; }
		auto cmp = [&](const Outcome &b, const char *how) {
			if ((b.res != a.res || b.null != a.null) && !same_value(k, how)) fail(string("result|") + F.name, cat("result depends on sharing [", how, "]: ", a.res, " vs ", b.res));
		};
		cmp(once(k, false, false, 0xAA, "fill"), "memory contents");
		if (takes) cmp(once(k, true, false, 0, "shared"), "extra reference held");
		if (same) cmp(once(k, true, true, 0, "aliased"), "same object passed twice");
		mc::note_outcome(a.null ? (a.err ? "rejected with error" : "null/none") : a.err ? "value with error" : "value");
	}, [](uint64_t i) { return show(T.at(i)); });
	s.item_timeout = 20; h.add(s);
	h.bounds["calls"] = cat(T.fns.size(), " functions of the public headers, ", T.n, " argument tuples from a pool of up to ", 8, " objects per type; 4 ownership modes each");
	return mc::run(argc, argv, h);
}
