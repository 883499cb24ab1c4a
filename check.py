#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] | check.py PROPERTY --replay FILE

Builds libisl from /repo's current tree together with the property's harness,
explores the bounded space exhaustively and reports.
Exit 0: held on everything explored.  Exit 1: VIOLATION line(s).
"""
import json, os, re, subprocess, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
import build
VERIF = build.VERIF

# property -> list of parts; each part is one harness run
#   (harness source, variant, extra build arguments, extra run arguments)
from parts import PARTS


def known_findings(pid):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [f for f in json.load(open(path)) if f.get("property") == pid and f.get("status") == "known"]


def run_part(pid, part, tier, seed, known, budget):
    exe = build.build(part["harness"], part.get("variant", "opt"), extra_src=part.get("extra", ()), ld=part.get("ld", ()),
                      cxxflags=part.get("cxxflags", ()), tag=part.get("tag"), out=part.get("out"))
    tmp = os.path.join(VERIF, "_work", "run"); os.makedirs(tmp, exist_ok=True)
    name = part.get("out") or part["harness"]
    res = os.path.join(tmp, f"{pid}-{name}.json")
    kf = os.path.join(tmp, f"{pid}-{name}.known")
    open(kf, "w").write("".join(f["key"] + "\n" for f in known))
    if os.path.exists(res): os.unlink(res)
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:handle_abort=0:detect_stack_use_after_return=0", UBSAN_OPTIONS="halt_on_error=1", TSAN_OPTIONS="exitcode=0:report_thread_leaks=0")
    cmd = [exe, "--tier", tier, "--out", res, "--known", kf, "--seed", str(seed), "--workers", str(os.cpu_count() or 8), "--budget", str(budget)]
    r = subprocess.run(cmd + part.get("args", []), env=env, cwd=VERIF)
    if not os.path.exists(res):
        raise RuntimeError(f"harness {part['harness']} ended with {r.returncode} and no result")
    return json.load(open(res))


def main():
    pid = sys.argv[1]
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        d = json.load(open(sys.argv[3]))
        part = PARTS[pid][d["part"]]
        exe = build.build(part["harness"], part.get("variant", "opt"), extra_src=part.get("extra", ()), ld=part.get("ld", ()),
                          cxxflags=part.get("cxxflags", ()), tag=part.get("tag"), out=part.get("out"))
        sys.exit(subprocess.run([exe, "--tier", d["tier"], "--replay", d["replay"]] + part.get("args", [])).returncode)
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    known = known_findings(pid)
    budget = {"quick": 600, "thorough": int(os.environ.get("VERIF_THOROUGH_S", "830"))}[tier]
    results, bad = [], 0
    ev = os.path.join(VERIF, "evidence", pid + ".json")
    os.makedirs(os.path.dirname(ev), exist_ok=True)
    rdir = os.path.join(VERIF, "_work", "replay", pid); os.makedirs(rdir, exist_ok=True)
    seen_known = set()
    for pi, part in enumerate(PARTS[pid]):
        left = budget - (time.time() - t0)
        d = run_part(pid, part, tier, seed, known, max(60, left))
        results.append((part, d))
        for n, v in enumerate(d["violations"]):
            if v["known"]:
                seen_known.add(v["key"]); continue
            path = os.path.join(rdir, f"{pi}-{n}.json")
            json.dump({"property": pid, "part": pi, "tier": tier, "replay": v["replay"], "key": v["key"], "msg": v["msg"], "item": v["item"]}, open(path, "w"), indent=1)
            print(f"VIOLATION property={pid} replay={path}")
            if n < 5: print(f"  {v['key'][:300]}: {v['msg'][:300]}\n  at {v['replay']} ({v['item'][:300]})")
            bad += 1
        if bad: break
    for f in known:
        if f["key"] in seen_known:
            print(f"KNOWN-FINDING: property={pid} {f['what']}")
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "evaluations": 0, "distinct_nontrivial": 0,
           "exhaustive": True, "samples": [], "parts": [], "rule": ""}
    rules = []
    for part, d in results:
        cov["states"] += d["states"]; cov["transitions"] += d["transitions"]
        cov["traces_validated_against_impl"] += d["validated"]
        cov["evaluations"] += d["executions"]
        cov["distinct_nontrivial"] += d["states"]
        cov["exhaustive"] = cov["exhaustive"] and (d["exhaustive"] or (not d["out_of_time"] and d["executions"] == d["planned"]))
        cov["samples"] += d["samples"][:12]
        cov["parts"].append({"harness": part["harness"], "variant": part.get("variant", "opt"), "spaces": d["spaces"],
                             "outcomes": d["outcomes"], "bounds": d["bounds"], "planned": d["planned"], "executed": d["executions"],
                             "wall_s": d["wall_s"], "out_of_time": d["out_of_time"], "unconfirmed": d["unconfirmed"]})
    cov["rule"] = ("each execution is one point of the enumerated space named in parts.spaces; states counts distinct fingerprints "
                   "(of the objects/answers reached, measured in a shared table); every execution is compared with the reference model")
    manifest = json.load(open(os.path.join(VERIF, "MANIFEST.json")))
    level = next((c["level"] for c in manifest["checks"] if c["property"] == pid), "model_checking")
    json.dump({"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov, "wall_s": round(time.time() - t0, 2),
               "violations": bad, "assumptions": ["integers of the reference model fit 128 bits (wider results are counted as inconclusive)"]},
              open(ev, "w"), indent=1)
    print(f"{pid} {tier}: executions={cov['evaluations']} states={cov['states']} transitions={cov['transitions']} "
          f"validated={cov['traces_validated_against_impl']} exhaustive={cov['exhaustive']} violations={bad} wall={time.time()-t0:.1f}s")
    sys.exit(1 if bad else 0)


if __name__ == "__main__":
    main()
