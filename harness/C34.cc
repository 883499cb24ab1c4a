// C34: command-line option parsing.  All argument vectors up to a length over a vocabulary that exercises every kind of declaration;
// the outcome is computed by an interpreter written from the declarations alone.
#include "common.hpp"
#include "argtab.h"
#include <isl/options.h>
#include <isl/schedule.h>
#include <isl/ast_build.h>
static bool g_th;
enum Kind { CHOICE, FLAGS, BOOL, INT, LONG, ULONG, STR, LIST };
struct Opt { Kind k; char sh; vector<string> names; vector<string> path; string field; bool single = false, barg = false, hidden = false; long sel = 0; bool hassel = false; int setter = -1; };
struct Model { std::map<string, string> v; vector<string> list; int set[8] = {}; };
static const vector<Opt> &table() {
	static vector<Opt> t; if (t.size()) return t; auto o = [&](Kind k, char s, vector<string> n, const char *f, vector<string> p = {}) -> Opt & { Opt x; x.k = k; x.sh = s; x.names = n; x.field = f; x.path = p; t.push_back(x); return t.back(); };
	{ Opt &x = o(CHOICE, 'c', {"choice"}, "choice"); x.sel = 1; } { Opt &x = o(CHOICE, 'O', {"ochoice"}, "ochoice"); x.sel = 3; } { Opt &x = o(CHOICE, 0, {"uchoice"}, "uchoice"); x.sel = 4; x.setter = 0; } { Opt &x = o(CHOICE, 0, {"pchoice"}, ""); x.sel = 2; x.setter = 2; }
	o(FLAGS, 'f', {"flags"}, "flags"); o(BOOL, 'b', {"bee", "buzz", "no-op"}, "b1"); o(BOOL, 'z', {}, "b0"); o(BOOL, 0, {"ba"}, "ba").barg = true; o(BOOL, 'p', {"phantom"}, "").setter = 1; o(BOOL, 0, {"hidden"}, "hidden").hidden = true;
	o(INT, 'i', {"int"}, "i"); o(INT, 0, {"wide"}, "sd").single = true; o(LONG, 'l', {"long"}, "l"); { Opt &x = o(LONG, 0, {"olong"}, "ol"); x.sel = 99; x.hassel = true; } o(LONG, 0, {"ulo"}, "ul_").setter = 3; o(ULONG, 'u', {"ulong"}, "u");
	o(STR, 's', {"str"}, "s"); o(STR, 0, {"nul"}, "s0"); o(LIST, 'L', {"list"}, "list");
	o(BOOL, 'F', {"flag", "banner"}, "sub->flag", {"sub"}); o(LONG, 'N', {"num"}, "sub->num", {"sub"}); o(STR, 'D', {"dstr"}, "sub->deep->dstr", {"sub", "deep"}); o(INT, 0, {"dint"}, "sub->deep->dint", {"sub", "deep"}); o(BOOL, 0, {"dbool"}, "sub->deep->dbool", {"sub", "deep"});
	{ Opt &x = o(CHOICE, 0, {"mode"}, "sub->mode", {"sub"}); x.sel = 2; } o(STR, 0, {"name"}, "sub->name", {"sub"}); o(BOOL, 'G', {"gopt"}, "gopt", {"grp"}); o(INT, 0, {"gint"}, "gint", {"grp"}); return t;
}
// every spelling of every option: text after the dashes -> (option, negated)
struct Sp { int o; bool neg; };
static const std::map<string, Sp> &spell() {
	static std::map<string, Sp> m; if (m.size()) return m; auto &t = table();
	for (size_t k = 0; k < t.size(); ++k) for (int neg = 0; neg < (t[k].k == BOOL ? 2 : 1); ++neg) for (auto &l : t[k].names) { int d = t[k].path.size(); for (int mask = 0; mask < 1 << d; ++mask) for (int at = 0; at <= (neg ? d : 0); ++at) {
		string s; for (int j = 0; j <= d; ++j) { if (neg && j == at) s += "no-"; if (j < d && mask >> j & 1) s += t[k].path[j] + "-"; } s += l; m.insert({s, {(int)k, (bool)neg}}); } }
	return m;
}
static string quoted(const string &s) { return "\"" + s + "\""; }
static bool number(const string &s, long &v) { if (s.empty()) { v = 0; return true; } char *e; v = strtol(s.c_str(), &e, 0); return !*e; }
static const std::map<string, unsigned> CH = {{"one", 1}, {"two", 2}, {"three", 3}, {"tw", 4}};
// parse one option; returns the number of arguments consumed, 0 if not recognised
static int option(Model &m, const vector<string> &a, size_t at) {
	const string &x = a[at]; auto &t = table(); int o = -1; bool neg = false, att = false; string val;
	bool next = at + 1 < a.size(); string nx = next ? a[at + 1] : "";
	if (x.size() >= 2 && x[1] != '-') { for (size_t k = 0; k < t.size() && o < 0; ++k) if (t[k].sh && t[k].sh == x[1]) { o = k; att = x.size() > 2; val = x.substr(2); } }
	if (o < 0) { size_t st; if (x.substr(0, 2) == "--") st = 2; else st = 1; string n = x.substr(st); size_t e = n.find('='); att = e != string::npos; if (att) val = n.substr(e + 1), n = n.substr(0, e); auto i = spell().find(n); if (i == spell().end()) return 0; if (st == 1 && !t[i->second.o].single) return 0; o = i->second.o; neg = i->second.neg; }
	const Opt &p = t[o]; auto num = [&](long v) { m.v[p.field] = cat(v); if (p.setter >= 0) m.set[2 * p.setter]++, m.set[2 * p.setter + 1] = v; }; auto setv = [&](long v) { if (p.field.size()) m.v[p.field] = cat(v); if (p.setter >= 0) m.set[2 * p.setter]++, m.set[2 * p.setter + 1] = v; };
	switch (p.k) {
	case CHOICE: { if (!att && (!next || nx[0] == '-')) { setv(p.sel); return 1; } auto i = CH.find(att ? val : nx); if (i == CH.end()) return 0; setv(i->second); return att ? 1 : 2; }
	case FLAGS: { if (!att && !next) return 0; string s = att ? val : nx; static const struct { const char *n; unsigned m, v; } F[] = {{"none", 7, 0}, {"aa", 1, 1}, {"bb", 2, 2}, {"cd", 4, 4}, {"xy", 24, 16}, {"xz", 24, 8}}; unsigned r = 0; s += ","; size_t b = 0, e; while ((e = s.find(',', b)) != string::npos) { string f = s.substr(b, e - b); b = e + 1; int k = 0; for (; k < 6; ++k) if (string(F[k].n).substr(0, f.size()) == f) break; if (k == 6) return 0; r = (r & ~F[k].m) | F[k].v; } m.v[p.field] = cat(r); return att ? 1 : 2; }
	case BOOL: { if (neg) { setv(0); return 1; } long v; if (p.barg && next && number(nx, v) && (v == 0 || v == 1)) { setv(v); return 2; } setv(1); return 1; }
	case INT: case ULONG: case LONG: { long v; if (att) { number(val, v); num(v); return 1; } if (next && number(nx, v)) { num(v); return 2; } if (p.hassel) { num(p.sel); return 1; } return 0; }
	case STR: if (!att && !next) return 0; m.v[p.field] = quoted(att ? val : nx); return att ? 1 : 2;
	case LIST: if (!att && !next) return 0; m.list.push_back(att ? val : nx); return att ? 1 : 2;
	}
	return 0;
}
static const vector<string> ORDER = {"choice", "ochoice", "uchoice", "flags", "b1", "b0", "ba", "i", "sd", "l", "ol", "ul_", "u", "s", "s0", "list", "sub->flag", "sub->num", "sub->mode", "sub->name", "sub->deep->dstr", "sub->deep->dint", "sub->deep->dbool", "gopt", "gint", "hidden", "uo", "in", "out"};
static string text(const Model &m) { string r; for (auto &f : ORDER) if (f == "list") { r += "list=["; for (auto &s : m.list) r += s + ","; r += "] "; } else r += f + "=" + m.v.at(f) + " "; r += "setters="; for (int k = 0; k < 8; k += 2) r += cat(k ? "," : "", m.set[k], ":", m.set[k + 1]); return r; }
static Model defaults(int tab) { Model m; m.v = {{"choice", "1"}, {"ochoice", "1"}, {"uchoice", "2"}, {"flags", "17"}, {"b1", "1"}, {"b0", "0"}, {"ba", "0"}, {"i", "5"}, {"sd", "6"}, {"l", "7"}, {"ol", "1"}, {"ul_", "2"}, {"u", "8"}, {"s", "\"def\""}, {"s0", "null"}, {"sub->flag", "0"}, {"sub->num", "-4"}, {"sub->mode", "2"}, {"sub->name", "\"child\""}, {"sub->deep->dstr", "null"}, {"sub->deep->dint", "11"}, {"sub->deep->dbool", "1"}, {"gopt", "0"}, {"gint", "3"}, {"hidden", "0"}, {"uo", "\"init\""}, {"in", "null"}, {"out", tab ? "\"a.out\"" : "null"}}; return m; }
static void set_defaults_setters(Model &m) { m.set[0] = 1; m.set[1] = 2; m.set[2] = 1; m.set[3] = 0; m.set[4] = 1; m.set[5] = 2; m.set[6] = 1; m.set[7] = 2; }
static void check(int tab, unsigned flags, const vector<string> &a, bool output = false) {
	string who = cat(tab ? "with arguments" : "options only", flags & ISL_ARG_ALL ? " all" : "", flags & ISL_ARG_SKIP_HELP ? " skip-help" : "", " |"); for (auto &s : a) who += " '" + s + "'";
	vector<string> own = a; own.insert(own.begin(), "/usr/bin/prog"); vector<char *> argv; for (auto &s : own) argv.push_back((char *)s.c_str()); argv.push_back(nullptr); vector<char *> orig = argv;
	static arg_result r; r.want_output = output; r.output[0] = 0; arg_run(tab, own.size(), argv.data(), flags, &r); note_transition(a.size());
	Model m = defaults(tab); if (string(r.before).substr(0, string(r.before).find("setters")) != text(m).substr(0, text(m).find("setters"))) fail("defaults|" + who, cat("defaults are ", r.before, " expected ", text(m)));
	{ int n[8]; if (sscanf(strstr(r.before, "setters=") + 8, "%d:%d,%d:%d,%d:%d,%d:%d", n, n + 1, n + 2, n + 3, n + 4, n + 5, n + 6, n + 7) != 8) fail("internal", r.before); for (int k = 0; k < 8; ++k) m.set[k] = n[k]; }
	bool ex = false; int st = 0, ver = 0; vector<string> left; int npos = 0;
	if (tab) for (auto &s : a) if (s == "--version" || s == "-V") { ex = true; ver = 12; }
	if (!tab) for (auto &s : a) if (s == "--version" || s == "-V") { ex = true; ver = 2; }
	for (size_t i = 0; i < a.size() && !ex;) {
		if (a[i].empty() || a[i][0] != '-') { if (tab && npos < 2) { m.v[npos ? "out" : "in"] = quoted(a[i]); ++npos; } else if (flags & ISL_ARG_ALL) { ex = true; st = 255; } else left.push_back(a[i]); ++i; continue; }
		if (!(flags & ISL_ARG_SKIP_HELP) && (a[i] == "--help" || a[i] == "-h")) { ex = true; break; }
		int n = option(m, a, i); if (n) { i += n; continue; } if (flags & ISL_ARG_ALL) { ex = true; st = 255; } else left.push_back(a[i]); ++i;
	}
	if (!ex && tab && npos < 2) { ex = true; st = 255; }
	if (!!r.exited != ex || r.status != st) fail("exit|" + who, cat("exited=", r.exited, " status=", r.status, " expected ", ex, " ", st)); if (r.versions != ver) fail("version|" + who, cat("version callbacks ", r.versions, " expected ", ver));
	if (text(m) != r.after) fail("options|" + who, cat("parsed ", r.after, " expected ", text(m))); if (r.leaked) fail("leak|" + who, cat(r.leaked, " allocations left after freeing the options"));
	if (!ex) { if (r.ret != (int)left.size() + 1) fail("count|" + who, cat("returned ", r.ret, " arguments, expected ", left.size() + 1)); if (argv[0] != orig[0]) fail("argv|" + who, "program name moved"); for (size_t k = 0; k < left.size(); ++k) if (left[k] != argv[k + 1]) fail("argv|" + who, cat("remaining argument ", k, " is ", argv[k + 1], " expected ", left[k])); note_outcome(left.size() ? "arguments left over" : "everything consumed"); }
	else note_outcome(st ? "rejected" : ver ? "version" : "help");
	if (output && ex && !st && !ver) { string out = r.output; for (auto &p : table()) { if (p.names.empty()) { if (out.find(cat("-", string(1, p.sh))) == string::npos) fail("help|" + who, cat("option -", string(1, p.sh), " not listed")); continue; } bool hid = p.hidden || (tab && p.names[0] == "pchoice"); string full; for (auto &q : p.path) full += q + "-"; full += p.names[0]; bool found = false; for (const char *pre : {"-", "-no-"}) { size_t b = 0; string f = pre + full; while ((b = out.find(f, b)) != string::npos) { char c = out[b + f.size()]; if (c != '-' && !isalnum(c)) found = true; b++; } } if (found == hid) fail("help|" + who, cat("option ", full, hid ? " is hidden but listed" : " is not listed", "\n", out)); } if (out.find("the footer") == string::npos) fail("help|" + who, "no footer"); if (tab && (out.find("input") == string::npos || out.find("output") == string::npos)) fail("help|" + who, "arguments not listed"); }
	note_validated(); note_state(mc::hash_bytes(r.after, strlen(r.after)));
}
static vector<string> vocab(int level) {
	vector<string> v = {"x", "one", "three", "5", "-3", "1", "aa,cd", "bb", "--bogus", "-b", "--no-bee", "-c", "--choice=two", "--ochoice", "-f", "--flags=xy,aa", "--ba", "-i", "--int=12", "-wide", "--olong", "-l42", "-s", "--str=v", "-L", "--list=q", "--sub-flag", "--no-sub-flag", "--sub-no-banner", "--sub-deep-dint=8", "--deep-dstr", "--grp-gopt", "--no-gopt"};
	if (level < 1) return v;
	for (const char *s : {"", "tw", "0x10", "nope", "xz,xy", "none", "-", "--", "-q", "--bee", "--buzz", "--no-buzz", "--no-op", "--no-no-op", "-z", "--choice", "-ctwo", "-cnope", "--uchoice=one", "--uchoice", "--pchoice=three", "--pchoice", "--flags", "-fbb,cd", "-fxy,xz", "--flags=zz", "--no-ba", "-p", "--phantom", "--no-phantom", "--hidden", "--int", "-i7", "--int=-2", "--wide=9", "--wide", "-wide=4", "--long", "--long=0x1f", "-l", "--olong=4", "--ulo=6", "--ulo", "-u", "--ulong=77", "-sabc", "--str", "--str=", "--nul=w", "--nul", "-Lz", "--list", "--flag", "--banner", "-F", "--sub-banner", "--no-flag", "-N", "-N-5", "--sub-num=3", "--num", "-D", "--sub-deep-dstr=e", "--sub-dstr=f", "--dint", "--no-dbool", "--sub-no-deep-dbool", "--sub-deep-no-dbool", "--deep-no-dbool", "--deep-sub-dbool", "--sub-mode=one", "--mode", "--sub-name=nm", "--name", "-G", "--grp-gint=2", "--gint", "--grp-no-gopt", "--no-grp-gopt", "--sub-gopt", "--no-int=2", "--no-choice", "--bogus=1", "--sub", "--version", "-V", "--help", "-h"}) v.push_back(s);
	return v;
}
// the library's own options: setters, getters and parsing
static const char *BOOLS[] = {"ast_always_print_block", "ast_build_allow_else", "ast_build_allow_or", "ast_build_atomic_upper_bound", "ast_build_detect_min_max", "ast_build_exploit_nested_bounds", "ast_build_group_coscheduled", "ast_build_prefer_pdiv", "ast_build_scale_strides", "ast_print_macro_once", "ast_print_outermost_block", "coalesce_bounded_wrapping", "coalesce_preserve_locals", "gbr_only_first", "pip_symmetry", "schedule_carry_self_first", "schedule_maximize_band_depth", "schedule_maximize_coincidence", "schedule_outer_coincidence", "schedule_separate_components", "schedule_serialize_sccs", "schedule_split_scaled", "schedule_treat_coalescing", "schedule_whole_component", "tile_scale_tile_loops", "tile_shift_point_loops"};
struct Lib { string arg; int opt; int val; };
static int optix(const string &s) { for (int k = 0; k < opt_n; ++k) if (s == opt_name[k]) return k; return -1; }
static const vector<Lib> &lib() {
	static vector<Lib> v; if (v.size()) return v; auto dash = [](string s) { for (auto &c : s) if (c == '_') c = '-'; return s; };
	for (auto b : BOOLS) v.push_back({dash(b), optix(b), 1}), v.push_back({"no-" + dash(b), optix(b), 0});
	for (int k : {-1, 0, 5}) v.push_back({cat("schedule-max-coefficient=", k), optix("schedule_max_coefficient"), k}), v.push_back({cat("schedule-max-constant-term=", k), optix("schedule_max_constant_term"), k});
	v.push_back({"bound=bernstein", optix("bound"), ISL_BOUND_BERNSTEIN}); v.push_back({"bound=range", optix("bound"), ISL_BOUND_RANGE}); v.push_back({"on-error=warn", optix("on_error"), ISL_ON_ERROR_WARN}); v.push_back({"on-error=continue", optix("on_error"), ISL_ON_ERROR_CONTINUE}); v.push_back({"on-error=abort", optix("on_error"), ISL_ON_ERROR_ABORT});
	v.push_back({"schedule-algorithm=isl", optix("schedule_algorithm"), ISL_SCHEDULE_ALGORITHM_ISL}); v.push_back({"schedule-algorithm=feautrier", optix("schedule_algorithm"), ISL_SCHEDULE_ALGORITHM_FEAUTRIER}); v.push_back({"ast-build-separation-bounds=explicit", optix("ast_build_separation_bounds"), ISL_AST_BUILD_SEPARATION_BOUNDS_EXPLICIT}); v.push_back({"ast-build-separation-bounds=implicit", optix("ast_build_separation_bounds"), ISL_AST_BUILD_SEPARATION_BOUNDS_IMPLICIT});
	v.push_back({"schedule-fuse=max", optix("schedule_serialize_sccs"), 0}); v.push_back({"schedule-fuse=min", optix("schedule_serialize_sccs"), 1}); return v;
}
static void check_lib(int nested, size_t a, size_t b, int how) {
	int *mine = nullptr; isl_ctx *c = nested ? user_ctx(&mine) : isl_ctx_alloc(); auto &L = lib(); vector<int> want; for (int k = 0; k < opt_n; ++k) want.push_back(opt_get[k](c)); string bad, who = cat(nested ? "nested " : "", how ? "set " : "parse ", L[a].arg, " then ", L[b].arg);
	for (size_t x : {a, b}) { if (how) { if (opt_set[L[x].opt](c, L[x].val) != isl_stat_ok) bad = "setter failed"; } else { string s = (nested ? "--isl-" : "--") + L[x].arg; if (nested && L[x].arg.substr(0, 3) == "no-" && x == b) s = "--no-isl-" + L[x].arg.substr(3); string m = "-m7", p = "prog"; char *av[] = {(char *)p.c_str(), (char *)s.c_str(), nested ? (char *)m.c_str() : nullptr, nullptr}; int n = isl_ctx_parse_options(c, nested ? 3 : 2, av, ISL_ARG_ALL); if (n != 1) bad = cat("parse returned ", n); } want[L[x].opt] = L[x].val; note_transition(); }
	if (nested && *mine != (how ? 1 : 7)) bad = cat("own option is ", *mine); for (int k = 0; k < opt_n; ++k) if (opt_get[k](c) != want[k] && bad.empty()) bad = cat(opt_name[k], " is ", opt_get[k](c), " expected ", want[k]);
	if (bad.empty() && !how) { string s = nested ? "--isl-ast-iterator-type=long" : "--ast-iterator-type=long", p = "prog"; char *av[] = {(char *)p.c_str(), (char *)s.c_str(), nullptr}; if (isl_ctx_parse_options(c, 2, av, ISL_ARG_ALL) != 1 || string(isl_options_get_ast_iterator_type(c)) != "long") bad = "iterator type not set"; }
	if (bad.empty() && how) { if (isl_options_set_ast_iterator_type(c, "short") != isl_stat_ok || string(isl_options_get_ast_iterator_type(c)) != "short") bad = "iterator type not set"; }
	isl_ctx_free(c); if (bad.size()) fail("library options|" + who, bad); note_validated();
}
int main(int argc, char **argv) {
	mc::Harness h; h.property = "C34"; g_th = tier_thorough(argc, argv);
	static vector<string> small = vocab(0), big = vocab(1); static vector<string> tiny; for (size_t k = 0; k < small.size(); ++k) if (k % 3 != 2) tiny.push_back(small[k]);
	static const unsigned FL[] = {0, ISL_ARG_ALL, ISL_ARG_SKIP_HELP, ISL_ARG_ALL | ISL_ARG_SKIP_HELP};
	auto seqs = [&](const string &n, const vector<string> &v, int len, int tab, int nfl) {
		vector<uint64_t> dims(len, v.size()); dims.push_back(nfl); mc::Radix r(dims); const vector<string> *V = &v; auto get = [=](uint64_t i) { auto d = r.at(i); vector<string> a; for (int k = 0; k < len; ++k) a.push_back((*V)[d[k]]); return std::make_pair(a, d[len]); };
		h.add(mc::SpaceDef(n, r.size(), [=](uint64_t i) { auto p = get(i); bool out = false; if (len <= 2) for (auto &s : p.first) out |= s == "--help" || s == "-h"; check(tab, FL[p.second], p.first, out); }, [=](uint64_t i) { auto p = get(i); string s; for (auto &x : p.first) s += "'" + x + "' "; return s; }));
	};
	for (int t = 0; t < 2; ++t) { string w = t ? "table with required arguments" : "table with options only"; for (int l = 1; l <= 2; ++l) seqs(cat(w, ", every vector of ", l), big, l, t, 4); seqs(w + ", every vector of 3", big, 3, t, g_th ? 4 : 1); if (g_th || t) seqs(w + ", reduced vocabulary, every vector of 4", small, 4, t, g_th ? 2 : 1); if (g_th && t) seqs(w + ", reduced vocabulary, every vector of 5", tiny, 5, t, 1); }
	{ mc::Radix r({lib().size(), lib().size(), 2, 2}); h.add(mc::SpaceDef("pairs of library options, set and parsed, plain and nested in a user's options", r.size(), [=](uint64_t i) { auto d = r.at(i); check_lib(d[2], d[0], d[1], d[3]); }, [=](uint64_t i) { auto d = r.at(i); return lib()[d[0]].arg + " " + lib()[d[1]].arg; })); }
	h.bounds["spaces"] = "argument vectors up to length 3 over 119 tokens and 4 over 33 (5 over 22) tokens, for a table using every kind of declaration (choices, optional choices, setters, flags, booleans, aliases, phantom and hidden options, numbers, strings, lists, nested children, groups, version, positional arguments); all pairs of library options";
	return mc::run(argc, argv, h);
}
