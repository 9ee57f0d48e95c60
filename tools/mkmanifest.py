#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of claims below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = "trace-partitioned abstract interpretation of the SSA form (linear inequalities, memory shapes, symbolic sequences)"
NOTE = ("Static: nothing is executed. Every obligation of the property is decided on the current source for all sizes and contents; "
        "an obligation whose code leaves the analysed fragment is printed as UNDECIDED and not claimed. Trusted: go/ssa, the models of builtins and x/exp, the specification in sa/spec.")
CLAIMS = {}
def claim(id, technique=AI, note=NOTE): CLAIMS[id] = (technique, note)
exec(open(os.path.join(here, "tools", "claims.py")).read())
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMS:
        t, n = CLAIMS[i]
        checks.append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
                       "evidence_file": f"evidence/{i}.json", "technique": t, "level": "other", "level_note": n})
    else:
        na.append({"property": i, "reason": NA[i] if i in NA else "no check yet"})
m = {"version": 1, "setup_cmd": "./build.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the checks read /repo's source and never build or run it. Findings repaired by fix: commits are listed in KNOWN_FINDINGS.txt."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
print(len(checks), "claimed;", [x["property"] for x in na])
