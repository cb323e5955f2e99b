#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and tools/props.py"""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(V, "tools"))
from props import PROPS, NA
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=[], not_applicable=[],
         notes="Deductive verification with Verus of functions extracted mechanically from /repo on every run; see DESIGN.md. No hooks: the extraction reads the sources, the bounded search uses the public API.")
for i in ids:
    if i in PROPS:
        c = PROPS[i]
        m["checks"].append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
                                technique=c["technique"], level=c["level"], level_note=c["note"]))
    else:
        m["not_applicable"].append(dict(property=i, reason=NA.get(i, "no check built yet")))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
