#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.md: fills in the findings and the planted bugs.

/verif/seeded is only read here, by hand; no check reads it."""
import json, os
T = os.path.dirname(os.path.abspath(__file__)); R = os.path.join(T, "..")
s = open(os.path.join(T, "design.md")).read()
props = open(os.path.join(T, "design_props.md")).read()
find = []
for l in open(os.path.join(R, "known-findings.txt")):
    l = l.strip()
    if l.startswith("fixed:"):
        p, c, what = l[len("fixed: property="):].split(" ", 2)
        find.append("* %s, `%s`: %s" % (p, c, what))
    elif l.startswith("KNOWN-FINDING:"):
        find.append("* **open** " + l[len("KNOWN-FINDING: "):])
seen = json.load(open(os.path.join(T, "seeds.json")))
rows = ["| planted bug | property | needs | caught by the quick check |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(R, "seeded"))):
    m = json.load(open(os.path.join(R, "seeded", d, "meta.json")))
    rows.append("| `%s` | %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "\\|"), seen.get(d, "not yet run")))
s = s.replace("@@PROPS@@", props).replace("@@FINDINGS@@", "\n".join(find)).replace("@@SEEDS@@", "\n".join(rows))
open(os.path.join(R, "DESIGN.md"), "w").write(s)
