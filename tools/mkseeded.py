#!/usr/bin/env python3
"""mkseeded.py LOG: SEEDED.md from the output of runseeds.py."""
import json
import os
import re
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows, caught = [], 0
seen = {}
for l in open(sys.argv[1]):
    m = re.match(r"(\S+) (C\d\d) (CAUGHT|MISSED)\S*(?: rc=\d+)? (\S+)\s*(.*)", l)
    if m:
        seen[m[1]] = m.groups()
for i in sorted(os.listdir(os.path.join(VERIF, "seeded"))):
    meta = json.load(open(os.path.join(VERIF, "seeded", i, "meta.json")))
    if i not in seen:
        rows.append((i, meta["property"], meta["what_it_breaks"], meta["needs"], "not run"))
        continue
    _, p, v, wall, rest = seen[i]
    case = re.match(r"case C\d\d/(\w+)", rest)
    caught += v == "CAUGHT"
    rows.append((i, p, meta["what_it_breaks"], meta["needs"],
                 "%s, %s" % ("`%s`" % case[1] if case else "caught", wall) if v == "CAUGHT" else "**missed**"))
esc = lambda s: str(s).replace("|", "\\|").replace("\n", " ")
with open(os.path.join(VERIF, "SEEDED.md"), "w") as f:
    f.write("# Planted bugs\n\n%d planted bugs, %d caught by the quick check of their property. Last column: the case that caught it first, and the "
            "time of the\nwhole check (several run at once with few processes each, so slower than alone). Written by `tools/mkseeded.py` from a run "
            "of `tools/runseeds.py`.\n\n" % (len(rows), caught))
    f.write("| id | property | breaks | needs | caught by |\n|---|---|---|---|---|\n")
    for r in rows:
        f.write("| %s |\n" % " | ".join(esc(x) for x in r))
