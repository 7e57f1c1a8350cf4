#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from mc/meta.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from mc.meta import META
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    m = META.get(p["id"])
    if m is None or not os.path.exists(os.path.join(HERE, "mc", "props", p["id"].lower() + ".py")):
        na.append({"property": p["id"], "reason": "no check built yet (work in progress)"})
        continue
    checks.append({"property": p["id"], "quick_cmd": "./check %s quick" % p["id"],
                   "thorough_cmd": "./check %s thorough" % p["id"],
                   "technique": m["technique"], "level": m["level"], "level_note": m["note"]})
d = {"version": 1,
     "setup_cmd": "./setup.sh",
     "checks": checks, "not_applicable": na,
     "notes": "Every check copies /repo's working tree to a scratch directory, builds it there with its own setup.py, "
              "explores the stated space on the real code as an unprivileged user, and removes the scratch directory. "
              "No hooks are needed in /repo. Replay a violation with ./check ID --replay FILE."}
json.dump(d, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
