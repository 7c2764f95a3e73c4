#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and conf.py."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(V, "conf.py")).read())
TECH = {}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in CONF:
        na.append({"property": i, "reason": "its check is not built yet"})
        continue
    c = CONF[i]
    checks.append({
        "property": i,
        "quick_cmd": "python3 run.py %s --tier quick" % i,
        "thorough_cmd": "python3 run.py %s --tier thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": c.get("technique", "property-based testing (rapid)"),
        "level": "exploration",
        "level_note": c.get("note", "Random search with shrinking; no proof of absence. Trusts go/parser, go/types and go/format of the installed Go 1.27 and the harness's own models."),
    })
m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks, "not_applicable": na,
     "notes": "All checks use the exported API only: no hooks in /repo. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
