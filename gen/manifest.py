#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from py/props_table.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "py")); sys.dont_write_bytecode = True
import props_table as T
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in T.TABLE:
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": T.TECH[i][0], "level": T.LEVEL.get(i, "model_checking"), "level_note": T.TECH[i][1]})
    else:
        na.append({"property": i, "reason": T.NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 setup_check.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the checks use the public API, the tool binary, compiler instrumentation and an LD_PRELOAD shim. /repo carries only fix: commits (known_findings.json)."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", len(na), "not claimed")
