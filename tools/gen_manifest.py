#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/plan.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import plan
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NA = {
 "N01": "A checksum is a pure function of a byte block: there is no schedule, clock, I/O, fault or history for a simulator to control, so simulation would only be input sampling under another name. (A wrong CRC-32 is nevertheless caught by C03/C04, whose reference model computes its own.)",
 "N02": "Scalar conversions are pure functions of one argument: no schedule, clock, I/O, fault or history to simulate.",
 "N03": "The Python package cannot be built here: nanobind, simdjson, spdlog_setup and the generated message database are not installed and there is no network.",
}
m = {"version": 1, "setup_cmd": "./check.sh build",
     "hooks": {"guard": "EDIE_SIM", "enable": "tools/configure.py compiles /repo's sources with -DEDIE_SIM; no hook in /repo's sources was needed: the simulator uses the arguments, streams, allocator and libc/libpthread entry points the library already goes through", "source_commits": []},
     "checks": [], "not_applicable": [], "notes": "See DESIGN.md. ./check.sh ID quick|thorough decides a property, ./check.sh replay FILE -v replays a recorded execution."}
for p in props:
    if p in plan.PLAN:
        m["checks"].append({"property": p, "quick_cmd": "./check.sh %s quick" % p, "thorough_cmd": "./check.sh %s thorough" % p, "evidence_file": "evidence/%s.json" % p,
                            "technique": "deterministic simulation with fault injection: " + plan.TECH.get(p, "seeded search over delivery schedules and line faults"),
                            "level": "exploration",
                            "level_note": plan.NOTE.get(p, "Seeded random search over simulated executions of the real code against an independent oracle; exactly repeatable, no exhaustiveness. Trusts the framework's own reference model of the frame grammar.")})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "check under construction; see DESIGN.md")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not applicable")
