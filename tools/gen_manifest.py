#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import PROPS
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
TECH = {
    "cpp": "runtime monitoring: sanitizer-instrumented library under generated workloads, online oracle",
    "fuzz": "coverage-guided fuzzing under sanitizers",
    "vg": "memcheck of an uninstrumented build",
    "py": "runtime monitoring of the Python layer, online reference oracle",
}
checks = []
for p in ids:
    if p not in PROPS:
        continue
    c = PROPS[p]
    checks.append({
        "property": p,
        "quick_cmd": "python3 run.py %s quick" % p,
        "thorough_cmd": "python3 run.py %s thorough" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": c.get("technique") or "; ".join(TECH[x] for x in c["parts"]),
        "level": "exploration",
        "level_note": c.get("level_note") or ("Holds on every generated case of the run; says nothing about inputs not generated. Trusts the reference oracle in /verif/harness, gcc's sanitizers" + (" and: " + "; ".join(c["assume"]) if c.get("assume") else "") + "."),
    })
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks,
     "not_applicable": [{"property": p, "reason": "the check is not built yet"} for p in ids if p not in PROPS],
     "notes": "No hooks in /repo are needed: the monitors sit at the public interfaces and in the compiler's instrumentation. known_findings.txt lists recorded and repaired defects."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(m["not_applicable"]), "not claimed")
