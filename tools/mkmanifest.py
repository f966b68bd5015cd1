#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the tables below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HIST = ("TLA+ contracts (spec/Client.tla) checked by TLC against recorded histories of the real binary")
NOTE = ("Every step of each recorded history of the real binary (its arguments, result and the complete observed world: repositories "
        "decoded independently, source, output and working directories) is checked by TLC against the TLA+ contract of that command. "
        "Histories are generated from the seed; assurance is that of the histories explored. Trusts the projection lib/{decode,world,driver}.py. ")
CLAIM = {  # property: (technique, extra note)
}
SKIP = {}
exec(open(os.path.join(V, "tools/claims.py")).read())
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in SKIP:
        na.append({"property": i, "reason": SKIP[i]})
        continue
    tech, level, note = CLAIM.get(i, (HIST, "model_checking", ""))
    checks.append({"property": i, "quick_cmd": "python3 checks/run.py %s" % i, "thorough_cmd": "python3 checks/run.py %s" % i,
                   "evidence_file": "evidence/%s.json" % i, "technique": tech, "level": level, "level_note": NOTE + note})
json.dump({"version": 1, "setup_cmd": "python3 -m compileall -q lib checks", "checks": checks, "not_applicable": na, "hooks": HOOKS},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
