#!/usr/bin/env python3
"""restate.py ID <<< statement: replace a property's statement in properties.jsonl"""
import json, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ps = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
for a in sys.argv[1:]:
    i, f = a.split("=", 1)
    key, val = f.split("=", 1) if f.split("=",1)[0] in ("title","qtext") else ("statement", f)
    for p in ps:
        if p["id"] == i:
            if key == "qtext": p["quantifier"]["text"] = val
            else: p[key] = val
open(f"{V}/properties.jsonl", "w").write("".join(json.dumps(p) + "\n" for p in ps))
