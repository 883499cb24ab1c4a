// C19: generated code executes exactly the scheduled instances in a compatible order.
#include "astspace.hpp"
using namespace gen;
static const I NLO = -1, NHI = 6;
static void check(const Problem &p) {
	isl_ast_node *node = generate(p); if (!node) return;
	struct Fr { isl_ast_node *n; ~Fr() { isl_ast_node_free(n); } } fr{node};
	string bad; uint64_t h = mc::hash_bytes(p.what.data(), 0, 11);
	try {
		for (I n = NLO; n <= NHI && bad.empty(); ++n) {
			if (!p.ctx_ok(n)) continue;
			ast::Env env; env["n"] = n; ast::Run r; ast::stats().steps = 0;
			ast::exec(node, env, r); bad = judge(p, n, r.out); note_validated();
			for (auto &i : r.out) { h = mc::hash_mix(h, i.name[0]); for (I x : i.x) h = mc::hash_mix(h, (uint64_t) (x + 50)); }
		}
	} catch (ast::Bad &b) { bad = b.why; } catch (Overflow &) { note_outcome("inconclusive"); return; }
	if (!bad.empty()) fail(cat("ast|", p.what), cat(bad, " in\n", mc::str(isl_ast_node_to_C_str(node))));
	note_state(h);
}
// the same through separate callbacks: extension, expansion and guard nodes
struct Special { string tree; std::function<vector<Inst>(I)> insts; std::function<void(const Inst &, I, Key &)> key; };
static void put(Key &k, I v) { k.v.push_back(v); k.un.push_back(0); }
static vector<Special> specials() {
	vector<Special> r;
	for (string o : {"", "{ separate[x] }", "{ unroll[x] }", "{ atomic[x] }", "{ isolate[[] -> [a]] : 1 <= a <= 2 }"}) {
		string opt = o.empty() ? "" : ", options: \"" + o + "\"";
		// copy-in / copy-out statements added by an extension node
		for (string dom : {"0 <= x <= 3 and 0 <= y <= 2", "0 <= x < n and 0 <= y <= 2", "0 <= x <= y < n", "0 <= x <= 4 and (x + n) mod 2 = 0 and 0 <= y <= 1"}) for (int ext = 0; ext < 3; ++ext) {
			auto in = [dom](I n, I x, I y) { if (dom[5] == 'x' && dom.find("n)") != string::npos) return x >= 0 && x <= 4 && mod(x + n, 2) == 0 && y >= 0 && y <= 1; if (dom.find("x <= y") != string::npos) return 0 <= x && x <= y && y < n; if (dom.find("x < n") != string::npos) return 0 <= x && x < n && 0 <= y && y <= 2; return 0 <= x && x <= 3 && 0 <= y && y <= 2; };
			// executed once per outer loop value a for which the domain contains some S[a,y] (the extension is restricted accordingly)
			string e = ext == 0 ? "[a] -> A[a]" : ext == 1 ? "[a] -> A[b] : a <= b <= a + 1" : "[a] -> A[2a]";
			auto extv = [ext](I a) -> vector<I> { if (ext == 0) return {a}; if (ext == 1) return {a, a + 1}; return {2 * a}; };
			(void) extv;
			string D = "[n] -> { S[x,y] : " + dom + " }";
			// restrict the extension to outer values that occur, through the projected domain
			string lim = dom.find("x <= y") != string::npos ? "0 <= a < n" : dom.find("x < n") != string::npos ? "0 <= a < n" : dom.find("mod") != string::npos ? "0 <= a <= 4 and (a + n) mod 2 = 0" : "0 <= a <= 3";
			auto lima = [dom](I n, I a) { return dom.find("x <= y") != string::npos || dom.find("x < n") != string::npos ? 0 <= a && a < n : dom.find("mod") != string::npos ? 0 <= a && a <= 4 && mod(a + n, 2) == 0 : 0 <= a && a <= 3; };
			if (ext == 1) continue;                                      // an element may only be introduced once
			string E = "[n] -> { " + e + " : " + lim + " }";
			Special s; s.tree = "{ domain: \"" + D + "\", child: { schedule: \"[{ S[x,y] -> [x] }]\"" + opt + ", child: { extension: \"" + E + "\", child: { sequence: [ { filter: \"{ A[i] }\" }, { filter: \"{ S[x,y] }\", child: { schedule: \"[{ S[x,y] -> [y] }]\" } } ] } } } }";
			s.insts = [in, lima, ext](I n) { vector<Inst> v; for (I x = -2; x <= 9; ++x) { for (I y = -2; y <= 9; ++y) if (in(n, x, y)) v.push_back({"S", {x, y}}); if (lima(n, x)) v.push_back({"A", {ext == 2 ? 2 * x : x}}); } return v; };
			s.key = [ext](const Inst &i, I, Key &k) { if (i.name == "A") { put(k, ext == 2 ? i.x[0] / 2 : i.x[0]); put(k, 0); } else { put(k, i.x[0]); put(k, 1); put(k, i.x[1]); } };
			r.push_back(s);
		}
		// expansion: R[x] stands for S[x,y] and U[x]
		for (int v = 0; v < 3; ++v) {
			string D = v == 0 ? "[n] -> { R[x] : 0 <= x < n }" : v == 1 ? "[n] -> { R[x] : 0 <= x <= 4 and x mod 2 = 0 }" : "[n] -> { R[x] : 0 <= x <= 3 and x >= n - 2 }";
			auto in = [v](I n, I x) { return v == 0 ? 0 <= x && x < n : v == 1 ? 0 <= x && x <= 4 && mod(x, 2) == 0 : 0 <= x && x <= 3 && x >= n - 2; };
			Special s; s.tree = "{ domain: \"" + D + "\", child: { schedule: \"[{ R[x] -> [" + string(v == 2 ? "-x" : "x") + "] }]\"" + opt + ", child: { contraction: \"{ S[x,y] -> R[x]; U[x] -> R[x] }\", expansion: \"{ R[x] -> S[x,y] : 0 <= y <= 1; R[x] -> U[x] : x >= 1 }\", child: { sequence: [ { filter: \"{ U[x] }\" }, { filter: \"{ S[x,y] }\", child: { schedule: \"[{ S[x,y] -> [-y] }]\" } } ] } } } }";
			s.insts = [in](I n) { vector<Inst> q; for (I x = -2; x <= 9; ++x) if (in(n, x)) { for (I y = 0; y <= 1; ++y) q.push_back({"S", {x, y}}); if (x >= 1) q.push_back({"U", {x}}); } return q; };
			s.key = [v](const Inst &i, I, Key &k) { put(k, v == 2 ? -i.x[0] : i.x[0]); put(k, i.name == "S"); if (i.name == "S") put(k, -i.x[1]); };
			r.push_back(s);
			// guard on the parameters below an outer band
			Special g; g.tree = "{ domain: \"[n] -> { R[x] : n >= 2 and 0 <= x <= 3 and x <= n }\", child: { guard: \"[n] -> { [] : n >= 2 }\", child: { schedule: \"[{ R[x] -> [" + string(v == 2 ? "-x" : v == 1 ? "2x" : "x") + "] }]\"" + opt + " } } }";
			g.insts = [](I n) { vector<Inst> q; if (n >= 2) for (I x = 0; x <= 3 && x <= n; ++x) q.push_back({"R", {x}}); return q; };
			g.key = [v](const Inst &i, I, Key &k) { put(k, v == 2 ? -i.x[0] : i.x[0]); };
			r.push_back(g);
		}
	}
	return r;
}
int main(int argc, char **argv) {
	mc::Harness h; h.property = "C19"; ast::strict() = false; bool th = tier_thorough(argc, argv);
	auto S2 = scheds2(), S1 = scheds1(); auto D2 = doms2(), D1 = doms1(); auto CX = contexts(); auto OP = options3(); auto BO = bandopts();
	auto st1 = [=](uint64_t d) { return vector<Stmt>{{"S", 2, D2[d]}}; };
	auto st2 = [=](uint64_t d, uint64_t e) { return vector<Stmt>{{"S", 2, D2[d]}, {"T", 1, D1[e]}}; };
	h.bounds["single"] = cat(D2.size(), " domains x ", S2.size(), " schedules x ", OP.size(), " option maps x ", th ? FLAGS.size() : 3, " generator settings x contexts; n in -1..6");
	auto add = [&](const string &n, mc::Radix r, std::function<Problem(const vector<uint64_t> &)> f) { h.add(mc::SpaceDef(n, r.size(), [=](uint64_t i) { check(f(r.at(i))); }, [=](uint64_t i) { return f(r.at(i)).what; })); };
	add("single-options", mc::Radix{D2.size(), S2.size(), OP.size()}, [=](const vector<uint64_t> &d) { return map_problem(st1(d[0]), {S2[d[1]]}, CX[(d[0] + d[1] + d[2]) % CX.size()], OP[d[2]], FLAGS[(d[0] * 5 + d[1] * 3 + d[2]) % FLAGS.size()]); });
	if (th) add("single-all", mc::Radix{D2.size(), S2.size(), OP.size(), FLAGS.size(), CX.size()}, [=](const vector<uint64_t> &d) { return map_problem(st1(d[0]), {S2[d[1]]}, CX[d[4]], OP[d[2]], FLAGS[d[3]]); });
	add("single-flags", mc::Radix{D2.size(), 6, FLAGS.size(), 2}, [=](const vector<uint64_t> &d) { return map_problem(st1(d[0]), {S2[(d[1] * 5) % S2.size()]}, CX[d[3] * 2], "", FLAGS[d[2]]); });
	add("two-statements", mc::Radix{th ? D2.size() : 6, th ? D1.size() : 4, S2.size(), S1.size(), th ? 6u : 2u}, [=](const vector<uint64_t> &d) { uint64_t a = th ? d[0] : (d[0] * 3 + 1) % D2.size(), b = th ? d[1] : d[1] * 2 + 1; return map_problem(st2(a, b), {S2[d[2]], S1[d[3]]}, CX[(d[2] + d[3]) % 2], OP[d[4] == 0 ? 0 : (d[4] + d[2] + d[3] + d[0]) % OP.size()], FLAGS[(d[0] + 2 * d[1] + d[2] + d[3]) % FLAGS.size()]); });
	add("trees", mc::Radix{(uint64_t) NSHAPES, BO.size(), th ? D2.size() : 6, S2.size(), th ? S1.size() : 3}, [=](const vector<uint64_t> &d) { auto st = st2(th ? d[2] : (d[2] * 5 + 1) % D2.size(), (d[2] + d[3]) % D1.size()); const Ctx &c = d[0] == 5 ? CX[3] : CX[(d[1] + d[3]) % CX.size()]; return tree_problem(st, shape(d[0], st, S2[d[3]], S1[(d[4] * 3 + d[3]) % S1.size()], BO[d[1]]), c, FLAGS[(d[0] + d[1] + d[2] + d[3]) % FLAGS.size()], BO[d[1]].find("unroll") != string::npos); });
	auto SP = specials();
	add("special-nodes", mc::Radix{SP.size(), FLAGS.size(), CX.size()}, [=](const vector<uint64_t> &d) { auto &s = SP[d[0]]; Problem p; p.tree = s.tree; p.context = CX[d[2]].t; p.ctx_ok = CX[d[2]].ok; p.flags = FLAGS[d[1]]; p.unroll = s.tree.find("unroll") != string::npos; p.what = cat(s.tree, " context ", p.context, " flags ", p.flags); p.insts = s.insts; p.key = s.key; return p; });
	return mc::run(argc, argv, h);
}
