#!/usr/bin/env python3
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 "C29": "liveness under fair schedules (termination of blocking waits and of shutdown polling) is a whole-history property; function contracts and CBMC loop contracts cannot express fairness or eventual progress of other threads",
}
LEVEL = {}
NOTE = {}
exec(open(os.path.join(H, "tools", "levels.py")).read())
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.isdir(os.path.join(H, "units", i)) and i not in NA:
        checks.append(dict(property=i, quick_cmd="python3 vf/vf.py check " + i, thorough_cmd="VERIF_TIER=thorough python3 vf/vf.py check " + i,
            evidence_file="evidence/%s.json" % i,
            technique=TECH.get(i, "contract-based deductive verification (CBMC, loop contracts as inductive cuts, SAT back end)"),
            level=LEVEL.get(i, "proof"), level_note=NOTE.get(i, "all obligations of the contracted functions discharged for all inputs; trusts CBMC, its libc models and the harness environment listed in the evidence")))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check was built in the time available: this part of the code (text parsing over maps, lists, stdio) is within reach of the method, but its contracts are not written; nothing is claimed")))
json.dump(dict(version=1, setup_cmd="python3 -c 'import sys; sys.exit(0)'", checks=checks, not_applicable=na,
   notes="No hooks in /repo: contracts live in units/, are attached mechanically to a scratch copy of the current sources on every run."),
   open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
