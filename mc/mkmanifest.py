#!/usr/bin/env python3
"""Writes MANIFEST.json. CLAIMED lists the properties with a check."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCHED = "stateless model checking of the implementation: exhaustive schedules of the rewritten code under a controlled scheduler, up to a deviation bound"
INP = "explicit enumeration of all inputs / operation sequences of a bounded domain on the implementation, against an independent reference model"
BOTH = SCHED + "; plus " + INP
CLAIMED = {}
exec(open(os.path.join(here, "mc", "claimed.py")).read())
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
checks = [{
    "property": p,
    "quick_cmd": f"bash run.sh {p} quick",
    "thorough_cmd": f"bash run.sh {p} thorough",
    "technique": CLAIMED[p][0],
    "level": "model_checking",
    "level_note": CLAIMED[p][1],
} for p in props if p in CLAIMED]
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "none: the sources are rewritten in a scratch copy, /repo has no hooks", "enable": "mc/tool copies /repo's working tree, rewrites it and adds mc/zzmc", "source_commits": []},
     "checks": checks,
     "not_applicable": [{"property": p, "reason": NOTYET.get(p, "no check built")} for p in props if p not in CLAIMED],
     "notes": "Known and fixed defects: known_findings.txt. Design: DESIGN.md."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
