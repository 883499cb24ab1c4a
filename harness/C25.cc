// C25: independent contexts. A call in one context is preempted at every basic block of the library by a complete
// computation in another context (variant pc), and every pair of calls is run by two threads under a
// happens-before race detector (variant tsan).
#include "api.hpp"
#include <fcntl.h>
#include <unistd.h>
#include <thread>
#include <pthread.h>
#include <sys/mman.h>
#include <map>
using namespace api;
#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define TSAN 1
#endif
#endif
#define NOCOV __attribute__((no_sanitize("coverage")))
static bool counting, recording; static long point, stop_at = -1; static void (*preempt)();
static void *visits[1 << 16];   // the blocks visited, in order
extern "C" NOCOV void __sanitizer_cov_trace_pc() { if (!counting) return; if (recording && point < (1 << 16)) visits[point] = __builtin_return_address(0); if (point++ == stop_at) { counting = false; preempt(); counting = true; } }
// --- everything observable of a context that no computation in it has touched ---------------------------------
static string ctx_state(isl_ctx *c) {
	string s = cat((int) isl_ctx_last_error(c), " ", isl_ctx_last_error_msg(c) ? isl_ctx_last_error_msg(c) : "-", " ", isl_ctx_last_error_file(c) ? isl_ctx_last_error_file(c) : "-", " ", isl_ctx_last_error_line(c), " max ", isl_ctx_get_max_operations(c), " abort ", isl_ctx_aborted(c));
#define O(f) s += cat(" " #f "=", f(c));
	O(isl_options_get_on_error) O(isl_options_get_bound) O(isl_options_get_gbr_only_first) O(isl_options_get_schedule_algorithm) O(isl_options_get_schedule_max_coefficient) O(isl_options_get_schedule_max_constant_term) O(isl_options_get_schedule_maximize_band_depth) O(isl_options_get_schedule_maximize_coincidence) O(isl_options_get_schedule_outer_coincidence) O(isl_options_get_schedule_split_scaled) O(isl_options_get_schedule_treat_coalescing) O(isl_options_get_schedule_separate_components) O(isl_options_get_schedule_serialize_sccs) O(isl_options_get_schedule_whole_component) O(isl_options_get_schedule_carry_self_first) O(isl_options_get_tile_scale_tile_loops) O(isl_options_get_tile_shift_point_loops) O(isl_options_get_pip_symmetry) O(isl_options_get_coalesce_bounded_wrapping) O(isl_options_get_coalesce_preserve_locals) O(isl_options_get_ast_build_atomic_upper_bound) O(isl_options_get_ast_build_prefer_pdiv) O(isl_options_get_ast_build_detect_min_max) O(isl_options_get_ast_build_exploit_nested_bounds) O(isl_options_get_ast_build_group_coscheduled) O(isl_options_get_ast_build_separation_bounds) O(isl_options_get_ast_build_scale_strides) O(isl_options_get_ast_build_allow_else) O(isl_options_get_ast_build_allow_or) O(isl_options_get_ast_always_print_block) O(isl_options_get_ast_print_outermost_block) O(isl_options_get_ast_print_macro_once)
#undef O
	const char *it = isl_options_get_ast_iterator_type(c); s += it ? it : "-"; return s;
}
struct Res { string t; int err; };
static Res once(isl_ctx *c, const Call &k) { Exec e(c, k); e.make(false, false); isl_ctx_reset_error(c); e.run(); Res r; r.err = isl_ctx_last_error(c); r.t = e.result(); e.drop(); return r; }
static bool unspecified(const api_fn &F) { string n = F.name; return n == "isl_vec_alloc" || n == "isl_vec_add_els" || n == "isl_vec_insert_els" || n == "isl_mat_alloc" || n == "isl_mat_extend" || n == "isl_mat_add_rows" || (n.rfind("isl_mat_insert_", 0) == 0 && n.find("zero") == string::npos); }
static const Call *pb; static Res ra_b; static isl_ctx *cb_ctx;
static void other() { int sc = cb_count; string sl = cblog; cblog.clear(); ra_b = once(cb_ctx, *pb); isl_ctx_reset_error(cb_ctx); cb_count = sc; cblog = sl; }
#ifdef TSAN
static long races; static string race;
extern "C" void __tsan_on_report(void *) { ++races; }
#endif
int main(int argc, char **argv) {
	aw_init(); mc::Harness h; h.property = "C25"; bool th = tier_thorough(argc, argv); makers();
	h.setup = []() { if (getenv("MC_DEBUG")) return; int fd = open("/dev/null", O_WRONLY); dup2(fd, 2); };
	static Table T(1); static long cap; cap = th ? 20000 : 3000; static int per; per = th ? 40 : 1;   // visits of the same block that are preempted
	struct Pair { uint64_t a, b; }; static vector<Pair> P;
	for (size_t f = 0; f < T.fns.size(); ++f) { vector<uint64_t> ok; for (uint64_t i = T.off[f]; i < T.off[f + 1]; ++i) { Call c = T.at(i); if (!outside_contract(c)) ok.push_back(i); if (ok.size() >= 64) break; }
		if (ok.empty() || unspecified(api_fns[T.fns[f]])) continue; size_t n = ok.size();
		P.push_back({ok[0], ok[n - 1]}); if (n > 2 && th) P.push_back({ok[n / 2], ok[0]}); if (th && n > 4) { P.push_back({ok[n - 1], ok[n / 3]}); P.push_back({ok[n / 3], ok[n / 2]}); } }
#ifdef TSAN
	api::logging = false; api_devnull();
	auto threads = [](const Call &a, const Call &b) {
		long before = races; isl_ctx *c[2] = {new_ctx(), new_ctx()}; const Call *k[2] = {&a, &b}; pthread_barrier_t gate; pthread_barrier_init(&gate, nullptr, 2);
		auto go = [&](int q) { pthread_barrier_wait(&gate); Exec e(c[q], *k[q]); e.make(false, false); e.F.call(e.a.data(), &e.r); e.drop(); isl_ctx_reset_error(c[q]); };
		std::thread t0(go, 0), t1(go, 1); t0.join(); t1.join(); pthread_barrier_destroy(&gate); isl_ctx_free(c[0]); isl_ctx_free(c[1]);
		mc::note_transition(); mc::note_validated(); mc::note_state(mc::hash_mix(mc::hash_str(show(a)), mc::hash_str(show(b))));
		if (races > before) fail("race|" + show(a), cat("data race between ", show(a), " and ", show(b), " in two threads with their own contexts")); };
	mc::SpaceDef s("threads", P.size(), [threads](uint64_t i) { threads(T.at(P[i].a), T.at(P[i].b)); threads(T.at(P[i].a), T.at(P[i].a)); }, [](uint64_t i) { return show(T.at(P[i].a)) + " in two threads"; });
	s.item_timeout = 60; h.add(s); h.bounds["threads"] = cat(P.size(), " pairs of calls plus the same call twice, in two threads; conflicting accesses decided by happens-before, independent of the schedule");
#else
	preempt = other;
	static const size_t TAB = 1 << 24; static unsigned char *used = (unsigned char *) mmap(nullptr, TAB, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); static int share; share = th ? 255 : 16; if (th) used = nullptr;
	mc::SpaceDef s("preempt", P.size(), [](uint64_t i) {
		Call a = T.at(P[i].a), b = T.at(P[i].b); Res base, bb; cb_ctx = new_ctx(); pb = &b;
		{ isl_ctx *c = new_ctx(); base = once(c, a); isl_ctx_reset_error(c); isl_ctx_free(c); c = new_ctx(); bb = once(c, b); isl_ctx_reset_error(c); isl_ctx_free(c); }
		string bad; vector<long> pts; long n = 0;
		{ isl_ctx *c = new_ctx(); { Exec e(c, a); e.make(false, false); cb_count = 0; point = 0; stop_at = -1; recording = counting = true; e.F.call(e.a.data(), &e.r); counting = recording = false; n = point; e.drop(); } isl_ctx_reset_error(c); isl_ctx_free(c); }
		// quick: a block stops being selected once it has been preempted in `share` calls (table shared by the workers)
		std::map<void *, int> seen; for (long p = 0; p < n && p < (1 << 16) && (long) pts.size() < cap; ++p) if (seen[visits[p]]++ < per) { static unsigned char dummy; dummy = 0; unsigned char &u = !used ? dummy : used[mc::hash_mix(0, (uint64_t) visits[p]) & (TAB - 1)]; if (u >= share) continue; ++u; pts.push_back(p); }
		pts.push_back(n);
		for (long p : pts) { if (!bad.empty()) break;
			isl_ctx *c = new_ctx(); ra_b = bb;
			{ Exec e(c, a); e.make(false, false); isl_ctx_reset_error(c); cb_count = 0; cblog.clear();
			  point = 0; stop_at = p; counting = true; e.F.call(e.a.data(), &e.r); counting = false;
			  Res r; r.err = isl_ctx_last_error(c); r.t = e.result(); mc::note_transition(); mc::note_validated();
			  if (r.t != base.t || r.err != base.err) bad = cat("preempted at block ", p, " by ", show(b), ": ", r.t, " (error ", r.err, ") instead of ", base.t, " (error ", base.err, ")");
			  else if (ra_b.t != bb.t || ra_b.err != bb.err) bad = cat("running at block ", p, " of it, ", show(b), " gives ", ra_b.t, " (error ", ra_b.err, ") instead of ", bb.t, " (error ", bb.err, ")");
			  e.drop(); }
			isl_ctx_reset_error(c); isl_ctx_free(c);
		}
		stop_at = -1; isl_ctx_reset_error(cb_ctx); isl_ctx_free(cb_ctx);
		mc::note_state(mc::hash_mix(mc::hash_str(show(a)), n)); mc::note_outcome((long) pts.size() < cap ? "every selected block preempted" : "more blocks than the bound");
		if (!bad.empty()) fail("preempt|" + show(a), bad);
	}, [](uint64_t i) { return show(T.at(P[i].a)) + " preempted by " + show(T.at(P[i].b)); });
	s.item_timeout = 120; h.add(s);
	h.bounds["preempt"] = cat(P.size(), " pairs of calls; the first is preempted at every distinct basic block of the library that it visits (first ", per, " visits of each block, at most ", cap, " points", th ? "" : "; a block that has been preempted in 16 calls is not selected again", ") by a complete run of the second in another context");
	// state of a bystander context
	mc::SpaceDef s2("bystander", T.n, [](uint64_t i) {
		Call k = T.at(i); if (outside_contract(k)) return;
		isl_ctx *w = new_ctx(), *c = new_ctx(); isl_ctx_set_max_operations(w, 12345); isl_options_set_schedule_max_coefficient(w, 7); isl_options_set_ast_iterator_type(w, "long"); isl_set *o = isl_set_read_from_str(w, "[n] -> { A[i, j] : 0 <= i <= n and j = 3i }"); isl_set_free(isl_set_fix_si(isl_set_copy(o), isl_dim_set, 9, 0));
		string before = ctx_state(w), so; char *t = isl_set_to_str(o); so = t; free(t);
		Res r = once(c, k); isl_ctx_reset_error(c); isl_ctx_free(c);
		string after = ctx_state(w); t = isl_set_to_str(o); string so2 = t; free(t); mc::note_transition(); mc::note_validated(); mc::note_state(mc::hash_mix(mc::hash_str(api_fns[k.fn].name), mc::hash_str(r.t)));
		isl_set_free(o); isl_ctx_reset_error(w); isl_ctx_free(w);
		if (before != after || so != so2) fail("bystander|" + show(k), cat("a context that takes no part changes from ", before, " to ", after));
	}, [](uint64_t i) { return show(T.at(i)) + " beside an idle context"; });
	h.add(s2); h.bounds["bystander"] = cat(T.n, " calls beside an idle context with its own options, limits, error and objects");
	// options: every option of one context set to every value of a small range
	struct Opt { const char *name; isl_stat (*set)(isl_ctx *, int); int (*get)(isl_ctx *); };
#define P_(x) {#x, isl_options_set_##x, isl_options_get_##x}
	static const vector<Opt> opts{P_(bound), P_(on_error), P_(gbr_only_first), P_(schedule_algorithm), P_(schedule_max_coefficient), P_(schedule_max_constant_term), P_(schedule_maximize_band_depth), P_(schedule_maximize_coincidence), P_(schedule_outer_coincidence), P_(schedule_split_scaled), P_(schedule_treat_coalescing), P_(schedule_separate_components), P_(schedule_serialize_sccs), P_(schedule_whole_component), P_(schedule_carry_self_first), P_(tile_scale_tile_loops), P_(tile_shift_point_loops), P_(pip_symmetry), P_(coalesce_bounded_wrapping), P_(coalesce_preserve_locals), P_(ast_build_atomic_upper_bound), P_(ast_build_prefer_pdiv), P_(ast_build_detect_min_max), P_(ast_build_exploit_nested_bounds), P_(ast_build_group_coscheduled), P_(ast_build_separation_bounds), P_(ast_build_scale_strides), P_(ast_build_allow_else), P_(ast_build_allow_or), P_(ast_always_print_block), P_(ast_print_outermost_block), P_(ast_print_macro_once)};
	static const uint64_t no = opts.size();
	mc::SpaceDef s3("options", no * no * 9, [](uint64_t i) {
		auto &x = opts[i / 9 / no], &y = opts[i / 9 % no]; int v = i % 3, u = i / 3 % 3; isl_ctx *a = isl_ctx_alloc(), *b = isl_ctx_alloc(), *d = isl_ctx_alloc(); string fresh = ctx_state(d);
		x.set(a, v); y.set(b, u); mc::note_transition(); mc::note_validated(); mc::note_state(i);
		string bad; if (x.get(a) != v) bad = cat(x.name, " set to ", v, " reads ", x.get(a)); if (y.get(b) != u) bad = cat(y.name, " set to ", u, " reads ", y.get(b));
		if (ctx_state(d) != fresh) bad = cat("setting options in other contexts changes ", fresh, " to ", ctx_state(d));
		isl_ctx *n = isl_ctx_alloc(); if (ctx_state(n) != fresh) bad = cat("a context allocated later has ", ctx_state(n), " instead of ", fresh);
		y.set(a, u); if (x.name != y.name && x.get(a) != v) bad = cat("setting ", y.name, " changes ", x.name);
		isl_ctx_free(n); isl_ctx_free(a); isl_ctx_free(b); isl_ctx_free(d); if (!bad.empty()) fail(cat("options|", x.name, "|", y.name), bad);
	}, [](uint64_t i) { return cat(opts[i / 9 / no].name, " and ", opts[i / 9 % no].name); });
	h.add(s3); h.bounds["options"] = cat(no, "^2 pairs of options x 9 values");
#endif
	return mc::run(argc, argv, h);
}
