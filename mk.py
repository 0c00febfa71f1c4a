#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and props.json from the table in proptab.py."""
import json, os
from proptab import P, NA
V = os.path.dirname(os.path.abspath(__file__))
props, checks, cfg = [], [], {}
for p in P:
    props.append({
        "id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p.get("over", ["inputs"]), "text": p["quant"]},
        "why_tests_cant": p["tests"],
        "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
    })
    assert len(p["title"]) <= 80, p["id"]
    if p.get("na"):
        continue
    c = {"units": p.get("units", []), "search": p.get("search", "base")}
    for k in ("kani", "level", "bounded", "assumptions", "explanation"):
        if k in p:
            c[k] = p[k]
    cfg[p["id"]] = c
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 check.py " + p["id"],
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p["id"],
        "technique": p.get("technique", "deductive verification with Verus of contracts spliced into functions extracted from /repo on every run; failing obligations replayed by a search over the real code"),
        "level": p.get("level", "proof"),
        "level_note": p["note"],
        "theorems": p.get("theorems", []),
    })
na = NA + [{"property": p["id"], "reason": p["na"]} for p in P if p.get("na")]
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for x in props:
        f.write(json.dumps(x) + "\n")
with open(os.path.join(V, "props.json"), "w") as f:
    json.dump(cfg, f, indent=1)
    f.write("\n")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}, f, indent=1)
    f.write("\n")
d = []
for p in P:
    d.append("### %s %s\n\n%s\n" % (p["id"], p["title"], p["statement"]))
    if p.get("na"):
        d.append("Not applicable: %s\n" % p["na"])
        continue
    d.append("- Specified and proved: units %s. %s" % (", ".join("`%s`" % u for u in p.get("units", [])) or "none", p["note"]))
    d.append("- Obligations that carry the property: %s." % ", ".join("`%s`" % t for t in p.get("theorems", [])))
    d.append("- Quantified over: %s." % p["quant"])
    d.append("- Why tests cannot settle it: %s" % p["tests"])
    if p.get("bounded"):
        d.append("- Bounded, not proved: %s" % "; ".join(p["bounded"]))
    if p.get("assumptions"):
        d.append("- Assumed: %s." % "; ".join(p["assumptions"]))
    if p.get("design"):
        d.append("- " + p["design"])
    d.append("")
b = ["| id | property | needs | caught by |", "|---|---|---|---|"]
res = {}
if os.path.exists(os.path.join(V, "bugs.json")):
    res = json.load(open(os.path.join(V, "bugs.json")))
for s in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", s, "meta.json")))
    b.append("| %s | %s | %s: %s | %s |" % (s, m["property"], m["needs"], m["what_it_breaks"], res.get(s, "not run")))
t = open(os.path.join(V, "DESIGN.in.md")).read()
t = t.replace("@@PROPS@@", "## Properties\n\n" + "\n".join(d)).replace("@@BUGS@@", "\n".join(b))
open(os.path.join(V, "DESIGN.md"), "w").write(t)
try:
    import jsonschema
    S = "/root/.vp/"
    for x in props:
        jsonschema.validate(x, json.load(open(S + "PROPERTIES.schema.json")))
    jsonschema.validate(json.load(open(os.path.join(V, "MANIFEST.json"))), json.load(open(S + "MANIFEST.schema.json")))
    print("valid:", len(props), "properties,", len(checks), "checks")
except ImportError:
    print("written (run with python3-vt to validate)")
