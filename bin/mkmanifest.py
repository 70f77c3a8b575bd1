#!/usr/bin/env python3
# Regenerates MANIFEST.json from units.py and properties.jsonl.
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
from units import META
try: from units import NOTE, TECH, NOT_APPLICABLE
except ImportError: NOTE, TECH, NOT_APPLICABLE = {}, {}, {}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in META:
        checks.append(dict(property=i, quick_cmd=f"bin/check {i} --tier quick", thorough_cmd=f"bin/check {i} --tier thorough",
            evidence_file=f"evidence/{i}.json",
            technique=TECH.get(i, "stateless model checking: exhaustive enumeration of bounded executions of the real code against a reference model in lock step"),
            level="model_checking", level_note="Exhaustive within bounds: " + META[i]["bounds"] + ". Assumes: " + "; ".join(META[i]["assumptions"]) + "." + NOTE.get(i, "")))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="bin/setup", checks=checks, not_applicable=na,
    notes="No hooks in /repo: the harnesses use the public API of the headers only. Every check compiles its harness from /repo's working tree into a scratch directory that it removes.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
