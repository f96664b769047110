#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed checks below."""
import json, os, sys
home = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(os.path.join(home, "properties.jsonl"))]
TRUST = ("Exploration: holds on everything generated and observed in the run; trusts the independent reference in harness/eff.go "
         "(written from the RAML 1.0 rules and the documented behaviour) and the generator's reach, which the evidence file counts.")
CL = {}
exec(open(os.path.join(home, "tools", "claims.py")).read())
checks, na = [], []
for p in props:
    if p in CL:
        t, note = CL[p]
        checks.append({"property": p, "quick_cmd": f"./check.sh {p} quick", "thorough_cmd": f"./check.sh {p} thorough",
                       "technique": t, "level": LEVEL.get(p, "exploration"), "level_note": note or TRUST})
    else:
        na.append({"property": p, "reason": NA.get(p, "the monitor for it is not built yet; nothing is claimed")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "check.sh builds the monitor (harness/) against /repo's working tree on every run; no hooks in /repo are needed."}
json.dump(m, open(os.path.join(home, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(home, "MANIFEST.json"), "a").write("\n")
