#!/usr/bin/env python3
"""Writes DESIGN.md from tools/DESIGN.in.md, tools/fixed.txt and seeded/."""
import json, os, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = open(here + "/tools/DESIGN.in.md").read()
MISSED = {"b17-dedup-narrow": "narrow ordinals in C09", "b39-degree-label": "more neighbours than the label type counts in C26", "b41-mirror-position": "narrow ordinals in C07",
          "b46-vector-keep": "vectors hold exactly m elements, C21 and C24", "b59-dedup-weight": "weights that decrease with the endpoint in C09",
          "b77-sorted-flag": "histories of one object whose entries change in between (stay.h)",
          "b93-insertion-sort": "rows that are almost in order, C09", "b95-power-table": "weights in all spellings in ops.h (C17 C20 C25)",
          "b90-slices-64": "teams of 70 and 300 threads", "b91-thread-byte": "teams of 70 and 300 threads"}
exec(open(here + "/tools/missed.py").read()) if os.path.exists(here + "/tools/missed.py") else None
f = [l.strip() for l in open(here + "/tools/fixed.txt") if l.startswith("fixed:")]
d = d.replace("@@FIXED@@", "%d, each repaired by a \"fix:\" commit in /repo (also in known_findings.json); none is left unrepaired.\n\n" % len(f) + "\n".join("* " + l[len("fixed: property="):] for l in f))
rows = []
for m in sorted(glob.glob(here + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(m)); j = json.load(open(m))
    rows.append("| %s%s | %s | %s | %s |%s" % (i, "*" if i in MISSED else "", j["property"], j["needs"].replace("|", "/"), j["what_it_breaks"].replace("|", "/"), " " + MISSED[i] + " |" if i in MISSED else " |"))
d = d.replace("@@SEEDED@@", "| change | caught by | needs | what it breaks | strengthened |\n|----|----|----|----|----|\n" + "\n".join(rows))
open(here + "/DESIGN.md", "w").write(d)
