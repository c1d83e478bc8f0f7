#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one check per property that has a harness package."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
TECH = ("symbolic execution of the repository's Go SSA (regenerated from /repo on every run) with z3 deciding every "
        "branch and assertion over symbolic inputs; counterexamples replayed on the compiled code")
NOTE = ("bounded: every value of the symbolic inputs is decided by the solver for the shapes, graphs, options and run "
        "lengths listed per harness in the evidence (field scope); floats are modelled as exact reals; outside those "
        "bounds nothing is claimed")
NA = {}
p = os.path.join(here, "tools", "not_applicable.json")
if os.path.exists(p):
    NA = json.load(open(p))
checks, na = [], []
for q in props:
    i = q["id"]
    if os.path.isdir(os.path.join(here, "harness", i.lower())):
        checks.append({"property": i, "quick_cmd": f"bash check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {i}",
                       "evidence_file": f"evidence/{i}.json", "technique": TECH, "level": "model_checking", "level_note": NOTE})
    else:
        na.append({"property": i, "reason": NA.get(i, "the harness for this property is not built yet")})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: harness packages are added to the build by overlay only. known-findings.jsonl lists fixed and open findings."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
