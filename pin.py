#!/usr/bin/env python3
"""pin.py -- (development only) record the signature and loop structure each unit's
contracts were written for; a check compares against this record before it calls a
failed obligation a violation."""
import json, os, subprocess
V = os.path.dirname(os.path.abspath(__file__))
out = {}
for p in sorted(os.listdir(os.path.join(V, "units"))):
    if p.endswith(".vx") and p[0] == "c":
        u = p[:-3]
        o = os.path.join(V, "build", "gen", u + ".rs")
        subprocess.check_call([os.path.join(V, "build/kx/debug/kx"), "/repo", os.path.join(V, "units", p), o])
        out[u] = {f["fn"]: f["skeleton"] for f in json.load(open(o + ".json"))["functions"] if not f.get("external")}
json.dump(out, open(os.path.join(V, "units", "skeleton.json"), "w"), indent=1, sort_keys=True)
