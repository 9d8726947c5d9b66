#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/registry.py and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import registry
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in registry.PROPS:
        r = registry.PROPS[i]
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s" % i,
            "thorough_cmd": "python3 check.py %s --thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "deterministic simulation with fault injection: seeded search over schedules, workloads and faults of the real code; " + r["oracle"],
            "level": "fault_enumeration" if r.get("level") == "fault_enumeration" else "exploration",
            "level_note": "Holds on every simulated execution explored (seeded random search, not exhaustive). Workload: %s. Assumes: %s." % (r["workload"], "; ".join(r["assumptions"])),
        })
    else:
        na.append({"property": i, "reason": registry.NOT_APPLICABLE.get(i, "Check not built yet.")})
m = {"version": 1,
     "setup_cmd": "python3 check.py setup",
     "hooks": {"guard": "none", "enable": "No hooks in /repo: every seam (threads, mutexes, condition variables, futexes, clocks, files, heap, EVP calls) is taken at link time by sim/rt, and plain memory accesses through -fsanitize=thread call-outs.", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "check.py PROP builds sim/rt, the harness and /repo's current sources into build/, searches seeds derived from VERIF_SEED, minimises and writes replays/*.json; check.py replay FILE reproduces one."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
