#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the harnesses present."""
import json, glob, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]

exec(open(os.path.join(here, "tools", "notes.py")).read())
checks, na = [], []
for p in props:
    i = p["id"]
    if glob.glob(os.path.join(here, "harness", i + "*.cpp")):
        t, n = NOTE.get(i, ("exhaustive schedule and input exploration of the implementation (stateless model checking, DPOR)", "All cases and schedules within the bounds stated in DESIGN.md."))
        checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i, technique=t, level="model_checking", level_note=n))
    else: na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="python3 check.py setup", checks=checks, not_applicable=na,
         notes="Every check builds its harness from /repo/include in a scratch directory under /tmp and removes it. No hooks in /repo are needed: the compiler's thread sanitizer instrumentation, libgomp's entry points and --wrap of libc calls are the seams.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
