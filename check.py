#!/usr/bin/env python3
"""Decides one property: builds its harnesses from /repo, explores, reports.

  check.py C01                     the check (tier from VERIF_TIER)
  check.py C01 --replay FILE       runs the execution recorded in FILE again
  check.py --setup                 builds everything
"""
import json, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.realpath(__file__))
sys.path.insert(0, os.path.join(VERIF, "mc"))
import build
from properties_map import HARNESSES, CHECKS

KNOWN = os.path.join(VERIF, "known-findings.txt")

def known_findings(prop):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            if not l.startswith("finding: "): continue
            f = dict(x.split("=", 1) for x in l[9:].rstrip("\n").split(" | "))
            if f["property"] == prop: out.append(f)
    return out

def main():
    a = sys.argv[1:]
    if a == ["--setup"]:
        build.build(list(HARNESSES.values()))
        return 0
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    check = CHECKS[prop]
    t0 = time.time()
    ev = os.path.join(VERIF, "evidence"); os.makedirs(ev, exist_ok=True)
    build.build([HARNESSES[h] for h in check["harnesses"]])
    bins = {h: f"{build.OUT}/bin/{HARNESSES[h][0]}" for h in check["harnesses"]}
    if len(a) == 3 and a[1] == "--replay":
        r = json.load(open(a[2]))
        os.environ["VERIF_TIER"] = r["tier"]
        cmd = [bins[r["harness"]], "--tier", r["tier"], "--replay", r["suite"], str(r["case"]), ",".join(map(str, r["choices"]))]
        if r.get("history"):
            # It needs what earlier executions left behind in the process.
            hf = os.path.join(build.OUT, f"history-{prop}.txt")
            with open(hf, "w") as o: o.write(json.dumps(r["history"]) if isinstance(r["history"][0], list) else "\n".join(map(str, r["history"])))
            cmd += ["--history", hf, "--prefix", check.get("prefix", {}).get(r["harness"], prop + "/")]
        return subprocess.run(cmd).returncode
    known = known_findings(prop)
    kf = os.path.join(build.OUT, f"known-{prop}.txt")
    with open(kf, "w") as o:
        for f in known: o.write(f"{f['sig']}\t{f['case']}\n")
    build_s = time.time() - t0
    budget = 780 if tier == "quick" else check.get("thorough_cap", 3000)
    results, failures = [], []
    for h in check["harnesses"]:
        out = os.path.join(build.OUT, f"result-{prop}-{h}.json")
        if os.path.exists(out): os.unlink(out)
        cap = max(30, budget - (time.time() - t0))
        cmd = [bins[h], "--tier", tier, "--prefix", check.get("prefix", {}).get(h, prop + "/"), "--cap", str(int(cap)), "--known", kf, "--out", out]
        r = subprocess.run(cmd)
        if r.returncode != 0 or not os.path.exists(out):
            print(f"ERROR: harness {h} ended with status {r.returncode}")
            return 2
        d = json.load(open(out))
        d["harness_id"] = h
        results.append(d)
        for f in d["failures"]:
            f["harness"] = h
            failures.append(f)
        if any(f["confirmed"] and not f["known"] for f in failures): break
    tot = lambda k: sum(d[k] for d in results)
    samples = [s for d in results for s in d["samples"]][:12]
    bad = [f for f in failures if f["confirmed"] and not f["known"]]
    unconfirmed = [f for f in failures if not f["confirmed"]]
    coverage = {
        "states": tot("states"), "transitions": tot("transitions"),
        "traces_validated_against_impl": tot("traces"),
        "executions": tot("executions"), "distinct_outcomes": tot("outcomes"),
        "nontrivial_executions": tot("nontrivial"), "choice_points": tot("choice_points"),
        "merged_states": tot("pruned"), "longest_choice_sequence": max(d["max_depth"] for d in results),
        "suites": [s for d in results for s in d["suites"]],
        "exhaustive": not any(d["capped"] for d in results) and not bad and not unconfirmed,
        "samples": samples or ["(none)"],
    }
    json.dump({"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": coverage,
               "assumptions": check.get("assumptions", []), "wall_s": round(time.time() - t0, 2),
               "build_s": round(build_s, 2), "violations": len(bad)},
              open(os.path.join(ev, prop + ".json"), "w"), indent=1)
    print(f"{prop} {tier}: {coverage['executions']} executions, {coverage['states']} states, "
          f"{coverage['transitions']} transitions, {coverage['distinct_outcomes']} outcomes, "
          f"{'complete' if coverage['exhaustive'] else 'incomplete'} within bounds, "
          f"{time.time()-t0:.1f} s (build {build_s:.1f} s)")
    for f in known:
        hit = [x for x in failures if x["known"] and x["sig"].startswith(f["sig"]) and f["case"] in x["desc"]]
        print(f"KNOWN-FINDING: property={prop} {f['what']}" + ("" if hit else " (not reached in this run)"))
    for i, f in enumerate(bad):
        p = os.path.join(ev, f"replay-{prop}-{i}.json")
        f["tier"] = tier; f["property"] = prop
        json.dump(f, open(p, "w"), indent=1)
        print(f"{f['suite']} case {f['case']}: {f['sig']}\n  case: {f['desc']}\n  {f['msg']}"[:3000])
        print(f"VIOLATION property={prop} replay={p}")
    if bad: return 1
    if unconfirmed:
        # Something failed that does not fail again: the machinery has lost
        # control of some nondeterminism, so the run gives no answer.
        for f in unconfirmed: print(f"ERROR: unconfirmed failure {f['suite']} case {f['case']}: {f['sig']}\n {f['msg'][:1500]}")
        return 2
    return 0

sys.exit(main())
