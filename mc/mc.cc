#include "mc.hpp"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <errno.h>
#include <atomic>

#if defined(__SANITIZE_ADDRESS__)
#define MC_ASAN 1
#endif
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define MC_ASAN 1
#endif
#if __has_feature(thread_sanitizer)
#define MC_TSAN 1
#endif
#endif

namespace mc {

isl_ctx *ctx;
bool replaying;
bool thorough;
int tier_level;
long seed;

void fail(const std::string &key, const std::string &msg) { throw Violation{key, msg}; }

uint64_t hash_bytes(const void *p, size_t n, uint64_t h) {
	const unsigned char *c = (const unsigned char *) p;
	for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
	h ^= h >> 32; h *= 0x9e3779b97f4a7c15ull; h ^= h >> 29;
	return h ? h : 1;
}

static void *shared(size_t bytes) {
	void *p = mmap(0, bytes, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED) { perror("mmap"); exit(3); }
	return p;
}

enum { MAXW = 64, MAXOUT = 256, MAXVIOL = 4096 };
struct Slot { volatile uint64_t space, idx, chunk_begin, chunk_end; volatile int active; };
struct VRec { int space; uint64_t idx, begin; int kind; char key[400]; char msg[3000]; };
struct Shm {
	std::atomic<uint64_t> next, done, transitions, validated, states, states_capped;
	std::atomic<int> stop;
	std::atomic<uint32_t> nviol, nknown, nunknown;
	std::atomic<uint32_t> nout;
	struct { char name[64]; std::atomic<uint64_t> n; } out[MAXOUT];
	std::atomic<int> outlock;
	Slot slot[MAXW];
	VRec viol[MAXVIOL];
};
static Shm *shm;
static SharedSet *state_set;

SharedSet::SharedSet(int lg) {
	tab = (uint64_t *) shared(8ull << lg); mask = (1ull << lg) - 1; cnt = (uint64_t *) shared(4096);
}
bool SharedSet::insert(uint64_t h) {
	if (!h) h = 1;
	uint64_t i = (h * 0x9e3779b97f4a7c15ull) >> 7 & mask;
	for (uint64_t probes = 0; probes <= mask; ++probes, i = (i + 1) & mask) {
		uint64_t cur = __atomic_load_n(&tab[i], __ATOMIC_RELAXED);
		if (cur == h) return false;
		if (cur == 0) {
			uint64_t z = 0;
			if (__atomic_compare_exchange_n(&tab[i], &z, h, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) {
				__atomic_fetch_add(cnt, 1, __ATOMIC_RELAXED);
				return true;
			}
			if (z == h) return false;
		}
		if (probes > 4096) return false;
	}
	return false;
}
uint64_t SharedSet::size() const { return *cnt; }

Frontier::Frontier(uint64_t c) : cap(c) { rec = (Rec *) shared(sizeof(Rec) * c); count = (uint64_t *) shared(4096); }
bool Frontier::push(const Rec &r) {
	uint64_t i = __atomic_fetch_add(count, 1, __ATOMIC_RELAXED);
	if (i >= cap) { __atomic_fetch_sub(count, 1, __ATOMIC_RELAXED); return false; }
	rec[i] = r; return true;
}
uint64_t Frontier::size() const { return *count; }

void note_state(uint64_t f) { if (state_set) state_set->insert(f); }
void note_transition(uint64_t n) { if (shm) shm->transitions.fetch_add(n, std::memory_order_relaxed); }
void note_validated(uint64_t n) { if (shm) shm->validated.fetch_add(n, std::memory_order_relaxed); }
static std::map<std::string, int> out_cache;
void note_outcome(const char *name, uint64_t n) {
	if (!shm) return;
	int id = -1;
	auto it = out_cache.find(name);
	if (it != out_cache.end()) id = it->second;
	else {
		int z = 0;
		while (!shm->outlock.compare_exchange_weak(z, 1)) { z = 0; }
		uint32_t k;
		for (k = 0; k < shm->nout; ++k) if (!strncmp(shm->out[k].name, name, 63)) break;
		if (k == shm->nout && k < MAXOUT) { strncpy(shm->out[k].name, name, 63); shm->nout++; }
		shm->outlock = 0;
		if (k < MAXOUT) id = k;
		out_cache[name] = id;
	}
	if (id >= 0) shm->out[id].n.fetch_add(n, std::memory_order_relaxed);
}

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static const bool dev = getenv("MC_DEV") != nullptr;   // development aid: list everything, no confirmation by replay
static std::set<std::string> known_keys;
static std::vector<SpaceDef> built;
static Harness *H;

static void record(int space, uint64_t idx, uint64_t begin, int kind, const std::string &key, const std::string &msg) {
	bool known = known_keys.count(key) > 0;
	if (known) { shm->nknown++; }
	else if (shm->nunknown.fetch_add(1) >= (dev ? 3500u : 12u)) shm->stop = 1;
	uint32_t k = shm->nviol.fetch_add(1);
	if (k >= MAXVIOL) { shm->nviol = MAXVIOL; return; }
	VRec &v = shm->viol[k];
	v.space = space; v.idx = idx; v.begin = begin; v.kind = kind;
	snprintf(v.key, sizeof(v.key), "%s", key.c_str());
	snprintf(v.msg, sizeof(v.msg), "%s", msg.c_str());
}

static void set_alarm(double t) {
	struct itimerval it; memset(&it, 0, sizeof it);
	it.it_value.tv_sec = (long) t; it.it_value.tv_usec = (long) ((t - (long) t) * 1e6);
	setitimer(ITIMER_REAL, &it, 0);
}
static void on_alarm(int) { _exit(97); }

static void new_ctx() {
	ctx = isl_ctx_alloc();
	isl_options_set_on_error(ctx, ISL_ON_ERROR_CONTINUE);
	if (H->setup) H->setup();
}
static void drop_ctx() {
	if (H->teardown) H->teardown();
	if (H->check_leaks) isl_options_set_on_error(ctx, ISL_ON_ERROR_ABORT);
	isl_ctx_free(ctx);
	ctx = 0;
}

static void describe(int space, uint64_t i, std::string &out) {
	out = built[space].name + "#" + std::to_string(i);
	if (built[space].desc) out += " " + built[space].desc(i);
}

// Run items [b,e) of a space in this process.
static void run_items(int space, uint64_t b, uint64_t e, Slot *slot, double deadline, bool report_all) {
	SpaceDef &S = built[space];
	for (uint64_t i = b; i < e; ++i) {
		if (slot) { slot->idx = i; }
		if (shm->stop) return;
		if ((i & 63) == 0 && deadline > 0 && now() > deadline) { shm->stop = 2; return; }
		set_alarm(S.item_timeout * (replaying ? 4 : 1));
		if (S.fresh_ctx_per_item) new_ctx();
		try {
			S.body(i);
		} catch (const Violation &v) {
			record(space, i, b, 0, v.key, v.msg);
			isl_ctx_reset_error(ctx);
			// the exception may have skipped frees: leave the chunk's context unchecked
			H->check_leaks = false;
		}
		if (S.fresh_ctx_per_item) drop_ctx();
		if (i + 1 == e || (i & 15) == 15) set_alarm(S.item_timeout * 4);
	}
	set_alarm(0);
}

static void child_setup(bool quiet) {
	signal(SIGALRM, on_alarm);
	struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
	if (quiet) { int fd = open("/dev/null", O_WRONLY); dup2(fd, 2); dup2(fd, 1); close(fd); }
#if !defined(MC_ASAN) && !defined(MC_TSAN)
	struct rlimit as = {6ull << 30, 6ull << 30}; setrlimit(RLIMIT_AS, &as);
#endif
}

static std::string jesc(const std::string &s) {
	std::string o;
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { o += '\\'; o += c; }
		else if (c == '\n') o += "\\n";
		else if (c == '\t') o += "\\t";
		else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
		else o += c;
	}
	return o;
}

// Re-execute items b..e in a fresh process.  Returns 0 silent, 1 violation, 2 crash, 3 hang, 4 leak
static int replay_range(int space, uint64_t b, uint64_t e, bool quiet, std::string *text = nullptr) {
	int fds[2]; if (pipe(fds)) exit(3);
	fflush(0);
	pid_t pid = fork();
	if (pid == 0) {
		close(fds[0]);
		child_setup(quiet);
		replaying = true;
		shm->stop = 0; shm->nviol = 0; shm->nunknown = 0; shm->nknown = 0;
		bool fresh = built[space].fresh_ctx_per_item;
		if (!fresh) new_ctx();
		run_items(space, b, e, nullptr, 0, true);
		std::string m;
		for (uint32_t k = 0; k < shm->nviol; ++k) if (k < 5) m += std::string(shm->viol[k].key) + ": " + shm->viol[k].msg + "\n";
		if (write(fds[1], m.data(), m.size()) < 0) {}
		if (shm->nviol > 0) _exit(1);
		set_alarm(20);
		if (!fresh) drop_ctx();
		_exit(0);
	}
	close(fds[1]);
	std::string m; char buf[4096]; ssize_t r;
	while ((r = read(fds[0], buf, sizeof buf)) > 0) m.append(buf, r);
	close(fds[0]);
	int st; waitpid(pid, &st, 0);
	if (text) *text = m;
	if (WIFEXITED(st)) {
		int c = WEXITSTATUS(st);
		if (c == 0 || c == 1) return c;
		if (c == 97) return 3;
		return 2;
	}
	return 2;
}

int run(int argc, char **argv, Harness &h) {
	H = &h;
	std::string out, replay, only;
	int workers = 8; double budget = 0;
	tier_level = 0;
	for (int i = 1; i < argc; ++i) {
		std::string a = argv[i];
		auto val = [&]() { return std::string(argv[++i]); };
		if (a == "--tier") { std::string t = val(); tier_level = t == "thorough"; }
		else if (a == "--out") out = val();
		else if (a == "--workers") workers = atoi(val().c_str());
		else if (a == "--budget") budget = atof(val().c_str());
		else if (a == "--seed") seed = atol(val().c_str());
		else if (a == "--replay") replay = val();
		else if (a == "--only") only = val();
		else if (a == "--known") {
			FILE *f = fopen(val().c_str(), "r"); char line[4096];
			while (f && fgets(line, sizeof line, f)) { line[strcspn(line, "\n")] = 0; if (*line) known_keys.insert(line); }
			if (f) fclose(f);
		}
	}
	thorough = tier_level > 0;
	shm = (Shm *) shared(sizeof(Shm));
	state_set = new SharedSet(25);
	double t0 = now();
	double deadline = budget > 0 ? t0 + budget : 0;

	if (!replay.empty()) {
		// space-name:begin[-end]
		size_t c = replay.rfind(':');
		std::string sn = replay.substr(0, c);
		uint64_t b = strtoull(replay.c_str() + c + 1, 0, 10), e = b + 1;
		size_t d = replay.find('-', c);
		if (d != std::string::npos) e = strtoull(replay.c_str() + d + 1, 0, 10);
		for (auto &mk : h.spaces) {
			// frontier-dependent spaces need their predecessors: run those fully first
			built.push_back(mk());
			SpaceDef &S = built.back();
			if (S.name != sn) continue;
			std::string dd; describe(built.size() - 1, e - 1, dd);
			printf("replay %s\n", dd.c_str());
			std::string text;
			int r = replay_range(built.size() - 1, b, e, false, &text);
			static const char *nm[] = {"no violation", "violation", "crash", "hang"};
			printf("%s%s\n", text.c_str(), nm[r]);
			return r ? 1 : 0;
		}
		printf("no such space\n");
		return 3;
	}

	std::string spaces_json;
	std::vector<std::string> samples;
	bool exhaustive = true; bool out_of_time = false;
	uint64_t total_items = 0, total_done = 0;
	for (auto &mk : h.spaces) {
		if (shm->stop) { exhaustive = false; break; }
		built.push_back(mk());
		int si = built.size() - 1;
		SpaceDef &S = built[si];
		if (!only.empty() && S.name.find(only) == std::string::npos) { continue; }
		if (S.n == 0) continue;
		double ts = now();
		uint64_t chunk = S.chunk;
		if (!chunk) { chunk = S.n / (workers * 24) + 1; if (chunk > 5000) chunk = 5000; }
		shm->next = 0; shm->done = 0;
		uint64_t st0 = state_set->size();
		std::vector<pid_t> pids(workers, 0);
		std::vector<std::pair<uint64_t, uint64_t>> resume;  // chunks to finish after a crash
		auto spawn = [&](int w, uint64_t rb, uint64_t re) {
			fflush(0);
			pid_t pid = fork();
			if (pid == 0) {
				child_setup(true);
				Slot *sl = &shm->slot[w];
				for (;;) {
					uint64_t b, e;
					if (re > rb) { b = rb; e = re; rb = re = 0; }
					else {
						b = shm->next.fetch_add(chunk); if (b >= S.n) break;
						e = std::min<uint64_t>(S.n, b + chunk);
					}
					if (shm->stop) break;
					sl->space = si; sl->chunk_begin = b; sl->chunk_end = e; sl->idx = b; sl->active = 1;
					set_alarm(120);
					bool save = H->check_leaks;
					if (!S.fresh_ctx_per_item) new_ctx();
					run_items(si, b, e, sl, deadline, false);
					sl->active = 2;
					set_alarm(120);
					if (!S.fresh_ctx_per_item) drop_ctx();
					set_alarm(0);
					H->check_leaks = save;
					sl->active = 0;
					shm->done += e - b;
				}
				_exit(0);
			}
			pids[w] = pid;
		};
		int nw = std::min<uint64_t>(workers, (S.n + chunk - 1) / chunk);
		for (int w = 0; w < nw; ++w) { shm->slot[w].active = 0; spawn(w, 0, 0); }
		int live = nw;
		while (live > 0) {
			int st; pid_t p = wait(&st);
			if (p < 0) break;
			int w = -1; for (int k = 0; k < nw; ++k) if (pids[k] == p) w = k;
			if (w < 0) continue;
			Slot &sl = shm->slot[w];
			bool ok = WIFEXITED(st) && WEXITSTATUS(st) == 0;
			if (ok) { --live; continue; }
			bool hang = WIFEXITED(st) && WEXITSTATUS(st) == 97;
			std::string how = hang ? "hang" : WIFSIGNALED(st) ? cat("signal ", WTERMSIG(st)) : cat("exit ", WEXITSTATUS(st));
			uint64_t rb = 0, re = 0;
			if (sl.active == 1) {
				std::string d; describe(si, sl.idx, d);
				record(si, sl.idx, sl.chunk_begin, hang ? 2 : 1, cat(hang ? "hang" : "crash", "|", d).substr(0, 390), cat("execution ", d, " ended with ", how));
				rb = sl.idx + 1; re = sl.chunk_end;
				shm->done += sl.idx + 1 - sl.chunk_begin;
			} else if (sl.active == 2) {
				record(si, sl.chunk_begin, sl.chunk_begin, 3, cat("leak|", S.name, "|", sl.chunk_begin, "-", sl.chunk_end), cat("chunk ", S.name, " ", sl.chunk_begin, "-", sl.chunk_end, " ended with ", how, " when freeing the context (object still referenced)"));
				shm->done += sl.chunk_end - sl.chunk_begin;
				// remember the chunk end in key; resolved below
			} else {
				fprintf(stderr, "worker died outside an item: %s\n", how.c_str());
				record(si, 0, 0, 1, cat("setup|", S.name), cat("worker died outside an item: ", how));
				shm->stop = 1;
			}
			sl.active = 0;
			if (shm->stop) { --live; continue; }
			spawn(w, rb, re);
		}
		uint64_t done = shm->done;
		bool complete = shm->stop == 0;
		if (shm->stop == 2) out_of_time = true;
		if (!complete) exhaustive = false;
		total_items += S.n; total_done += complete ? S.n : std::min<uint64_t>(done, S.n);
		char b[512];
		snprintf(b, sizeof b, "%s{\"name\":\"%s\",\"executions\":%llu,\"complete\":%s,\"new_states\":%llu,\"wall_s\":%.2f}", spaces_json.empty() ? "" : ",",
			jesc(S.name).c_str(), (unsigned long long) (complete ? S.n : done), complete ? "true" : "false", (unsigned long long) (state_set->size() - st0), now() - ts);
		spaces_json += b;
		fprintf(stderr, "[%s] %s: %llu executions, %.1fs%s\n", h.property.c_str(), S.name.c_str(), (unsigned long long) S.n, now() - ts, complete ? "" : " (stopped)");
		if (samples.size() < 24) {
			std::string d;
			describe(si, S.n / 2, d); samples.push_back(d);
			if (S.n > 4) { describe(si, S.n / 3, d); samples.push_back(d); }
		}
	}
	uint64_t transitions = shm->transitions, validated = shm->validated, states = state_set->size();
	std::string outj;
	for (uint32_t k = 0; k < shm->nout; ++k) outj += cat(k ? "," : "", "\"", jesc(shm->out[k].name), "\":", shm->out[k].n.load());
	// Replay before report.
	uint32_t nv = shm->nviol;
	std::vector<VRec> viol(shm->viol, shm->viol + nv);
	int st_reason = shm->stop;
	(void) st_reason;
	std::string vj; std::set<std::string> seen;
	int confirmed = 0, unconfirmed = 0, tried = 0;
	std::set<std::string> seen_known;
	if (dev) { std::map<std::string, int> cnt; for (auto &v : viol) if (!cnt[v.kind >= 1 ? std::string(v.key) : v.key]++) { std::string d; describe(v.space, v.idx, d); fprintf(stderr, "DEV %s :: %s :: %s\n", v.key, d.c_str(), v.msg); } viol.clear(); }
	for (auto &v : viol) {
		bool known = known_keys.count(v.key) > 0;
		if (!seen.insert(v.key).second) continue;
		if (!known && tried >= 12) continue;
		if (!known) ++tried;
		std::string text, rp;
		int r; uint64_t b = v.idx, e = v.idx + 1;
		if (v.kind == 3) {
			// leak: find a single leaking item, else keep the chunk
			const char *dash = strrchr(v.key, '-');
			e = dash ? strtoull(dash + 1, 0, 10) : v.idx + 1;
			uint64_t hi = e; r = 0;
			double tl = now();
			while (hi - b > 1 && now() - tl < 60) {   // bisect on prefix/suffix
				uint64_t mid = (b + hi) / 2;
				if (replay_range(v.space, b, mid, true)) hi = mid;
				else if (replay_range(v.space, mid, hi, true)) b = mid;
				else break;
			}
			e = hi;
			r = replay_range(v.space, b, e, true, &text);
		} else {
			r = replay_range(v.space, b, e, true, &text);
			if (!r && v.begin < v.idx) { b = v.begin; r = replay_range(v.space, b, e, true, &text); }
		}
		rp = cat(built[v.space].name, ":", b, e == b + 1 ? std::string() : cat("-", e));
		if (!r) { ++unconfirmed; fprintf(stderr, "not reproduced: %s: %s\n", v.key, v.msg); continue; }
		if (v.kind == 2 && r != 3) { ++unconfirmed; continue; }
		++confirmed;
		std::string d; describe(v.space, e - 1, d);
		vj += cat(vj.empty() ? "" : ",", "{\"key\":\"", jesc(v.key), "\",\"msg\":\"", jesc(v.msg), "\",\"replay\":\"", jesc(rp), "\",\"item\":\"", jesc(d), "\",\"known\":", known ? "true" : "false", "}");
	}
	std::string bj;
	for (auto &kv : h.bounds) bj += cat(bj.empty() ? "" : ",", "\"", jesc(kv.first), "\":\"", jesc(kv.second), "\"");
	std::string sj;
	for (auto &s : samples) sj += cat(sj.empty() ? "" : ",", "\"", jesc(s.substr(0, 600)), "\"");
	std::string j = cat("{\"executions\":", total_done, ",\"planned\":", total_items, ",\"states\":", states, ",\"transitions\":", transitions,
		",\"validated\":", validated, ",\"exhaustive\":", exhaustive && !viol.size() ? "true" : "false", ",\"out_of_time\":", out_of_time ? "true" : "false",
		",\"unconfirmed\":", unconfirmed, ",\"wall_s\":", now() - t0,
		",\"spaces\":[", spaces_json, "],\"outcomes\":{", outj, "},\"bounds\":{", bj, "},\"samples\":[", sj, "],\"violations\":[", vj, "]}\n");
	if (!out.empty()) { FILE *f = fopen(out.c_str(), "w"); fwrite(j.data(), 1, j.size(), f); fclose(f); }
	else printf("%s", j.c_str());
	return 0;
}

} // namespace mc
