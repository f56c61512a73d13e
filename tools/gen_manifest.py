#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from plan import PLAN, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for i in ids:
    if i in PLAN:
        checks.append({
            "property": i,
            "quick_cmd": f"./check {i} quick",
            "thorough_cmd": f"./check {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": PLAN[i].get("technique") or
                "symbolic execution of the LLVM IR compiled from /repo, z3 deciding every branch and assertion within stated bounds; counterexamples replayed on a native build",
            "level": "model_checking",
            "level_note": "bounded: " + PLAN[i]["bounds"] + ". Outside: " + PLAN[i]["outside"],
        })
na = [{"property": i, "reason": NOT_APPLICABLE[i]} for i in ids if i not in PLAN]
m = {"version": 1, "setup_cmd": "./check --setup",
     "checks": checks, "not_applicable": na,
     "notes": "See DESIGN.md. Exit 2 means the check has no answer (build failure or a counterexample that does not reproduce)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
