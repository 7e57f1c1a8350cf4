"""Prints DESIGN.md's table of planted changes, from the outputs of tools/runbug.sh (KEEP=1)."""
import glob
import json
import os
import re

rows = {}
for f in sorted(glob.glob(os.path.join(os.path.dirname(__file__), "../seeded/*/meta.json"))):
    m = json.load(open(f))
    bug = os.path.basename(os.path.dirname(f))
    c = "/tmp/rbout/%s.c" % bug
    t = open(c).read() if os.path.exists(c) else ""
    s = re.search(r"is violated in section (.*)", t)
    rows.setdefault(m["property"], {}).setdefault(s.group(1).strip() if s else "?", []).append(bug)
print("| property | section of the check: planted changes it reports |\n|---|---|")
for p in sorted(rows):
    print("| %s | %s |" % (p, "; ".join("%s: %s" % (s, ", ".join(b)) for s, b in sorted(rows[p].items()))))
