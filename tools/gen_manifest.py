#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and tools/jobs.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from jobs import JOBS, NOT_APPLICABLE
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p in NOT_APPLICABLE:
        na.append({"property": p, "reason": NOT_APPLICABLE[p]})
    elif p in JOBS:
        checks.append({
            "property": p,
            "quick_cmd": f"python3 run.py {p} --tier quick",
            "thorough_cmd": f"python3 run.py {p} --tier thorough",
            "evidence_file": f"evidence/{p}.json",
            "technique": "symbolic execution of the library's LLVM IR, assertions decided by SMT solvers (z3, cvc5)",
            "level": "model_checking",
            "level_note": "; ".join(j["name"] + ": " + j["bounds"] for j in JOBS[p])[:1500],
        })
    else:
        na.append({"property": p, "reason": "check under construction"})
m = {"version": 1, "setup_cmd": "python3 run.py --prepare",
     "hooks": {"guard": "VECMEM_VERIF_HOOKS",
               "enable": "no hooks are needed; nothing in /repo is guarded", "source_commits": []},
     "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
