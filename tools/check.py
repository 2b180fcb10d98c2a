#!/usr/bin/env python3
"""check.py ID [quick|thorough]   build the simulator from /repo's working tree and decide one property
   check.py replay FILE [-v]      replay one recorded execution
   check.py build                 build only"""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import plan
B = os.environ.get("SIM_BUILD", os.path.join(V, "build"))
SIM = os.path.join(B, "sim")

def build():
    t = time.time()
    subprocess.run([sys.executable, os.path.join(V, "tools", "configure.py")], check=True)
    r = subprocess.run(["ninja", "-C", B], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stderr.write(r.stdout[-6000:])
        print("ERROR: the simulator does not build against /repo's working tree")
        sys.exit(2)
    return time.time() - t

def findings():
    out = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding:"):
                d = dict(x.split("=", 1) for x in l[8:].split(" -- ")[0].split())
                d["text"] = l.split(" -- ", 1)[1]
                out.append(d)
    return out

def main():
    if len(sys.argv) < 2: print(__doc__); return 2
    if sys.argv[1] == "build": print("built in %.1f s" % build()); return 0
    if sys.argv[1] == "replay":
        build(); return subprocess.run([SIM, "replay"] + sys.argv[2:]).returncode
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if prop not in plan.PLAN or tier not in plan.BUDGET: print(__doc__); return 2
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    bt = build()
    replays, ev = os.path.join(V, "replays"), os.path.join(V, "evidence")
    os.makedirs(replays, exist_ok=True); os.makedirs(ev, exist_ok=True)
    # recorded findings: each is replayed on its own; the searched scenarios steer clear of its trigger
    known = []
    for f in findings():
        if f["property"] != prop: continue
        r = subprocess.run([SIM, "replay", os.path.join(V, f["replay"])], stdout=subprocess.PIPE, text=True)
        if r.returncode == 1: print("KNOWN-FINDING: property=%s %s" % (prop, f["text"]), flush=True)
        known.append({"finding": f["text"], "still_fails": r.returncode == 1})
    # searches
    total = float(os.environ.get("SIM_BUDGET", plan.BUDGET[tier]))
    weight = sum(w for _, w in plan.PLAN[prop])
    frags, rcs = [], []
    for sc, w in plan.PLAN[prop]:
        out = os.path.join(B, "%s.%s.json" % (prop, sc))
        if os.path.exists(out): os.unlink(out)
        r = subprocess.run([SIM, "search", "--property", prop, "--scenario", sc, "--seed", str(seed), "--count", "1000000000", "--budget", str(total * w / weight),
                            "--jobs", os.environ.get("SIM_JOBS", "8"), "--tier", tier, "--replays", replays, "--out", out])
        rcs.append(r.returncode)
        if os.path.exists(out): frags.append(json.load(open(out)))
        sys.stdout.flush()
    wall = time.time() - t0
    add = lambda k: int(sum(f[k] for f in frags))
    merge = lambda k: {n: sum(f[k].get(n, 0) for f in frags) for n in sorted({n for f in frags for n in f[k]})}
    sw = sum(f["wall_s"] for f in frags) or 1e-9
    real, stub = plan.WORLD[prop]
    cov = {
        "evaluations": add("runs"), "distinct_nontrivial": add("distinct_nontrivial"), "rule": plan.RULE[prop] + "; two cases are distinct when the hashes of their complete event histories differ",
        "samples": [s for f in frags for s in f["samples"]][:4],
        "scenarios": {f["scenario"]: {k: int(f[k]) for k in ("runs", "nontrivial", "distinct_nontrivial", "distinct_states")} for f in frags},
        "runs_per_hour": int(add("runs") / sw * 3600), "seeds_per_hour": int(add("runs") / sw * 3600),
        "search_seed": seed, "seed_rule": "run i of a scenario is generated from the pair (search seed, i)",
        "simulated_time": {"basic_block_steps": add("steps"), "library_calls": add("calls"), "bytes_through_the_link": add("bytes")},
        "fault_kinds_injected": merge("faults"), "reached": merge("probes"),
        "distinct_interleavings_or_states": add("distinct_states"),
        "distinct_measure": "distinct event-history hashes over all runs (each event records call, status, byte counts and bytes delivered)",
        "library_edges_reached": max([int(f["edges_reached"]) for f in frags] or [0]), "library_edges_instrumented": max([int(f["edges_total"]) for f in frags] or [0]),
        "same_trace_executed_twice_and_compared": add("same_trace_twice_checks"), "unreproducible": add("unreproducible"),
        "real_components": real, "stubbed_components": stub, "build_s": round(bt, 1), "known_findings": known,
    }
    json.dump({"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "assumptions": plan.ASSUME,
               "wall_s": round(wall, 2), "violations": add("violations")}, open(os.path.join(ev, prop + ".json"), "w"), indent=1)
    if any(r == 1 for r in rcs): return 1
    if any(rcs) or len(frags) != len(rcs): print("ERROR: check of %s ended without an answer (%s)" % (prop, rcs)); return 3
    print("OK property=%s runs=%d distinct=%d wall=%.0fs" % (prop, add("runs"), add("distinct_nontrivial"), wall))
    return 0

sys.exit(main())
