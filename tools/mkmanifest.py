#!/usr/bin/env python3
"""Writes MANIFEST.json for the properties that have a program in harness/."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
TECH = {}
exec(open(V + "/tools/techniques.py").read())
checks, na = [], []
for p in props:
    id = p["id"]
    if os.path.exists(V + "/harness/%s.cpp" % id.lower()):
        tech, note = TECH[id]
        checks.append({"property": id, "quick_cmd": "python3 /verif/run.py %s" % id,
                       "thorough_cmd": "python3 /verif/run.py %s --thorough" % id,
                       "technique": tech, "level": "exploration", "level_note": note,
                       "evidence_file": "/verif/evidence/%s.json" % id})
    else:
        na.append({"property": id, "reason": "the check is not built yet"})
m = {"version": 1, "setup_cmd": "python3 /verif/run.py --build", "checks": checks, "not_applicable": na,
     "notes": "Checks are C++ programs built from /repo's working tree with the engine in harness/pbt.h; run.py builds, runs and writes the evidence. A failure is shrunk and written to replays/; `run.py --replay FILE` runs it again."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
