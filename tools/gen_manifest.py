#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from tools/props.py and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    c = props.CHECKS.get(i)
    if c:
        checks.append(dict(property=i, quick_cmd="python3 check.py " + i, thorough_cmd="python3 check.py " + i,
                           technique=c["technique"], level=c.get("level", "exploration"), level_note=c["note"]))
    else:
        na.append(dict(property=i, reason=props.NOT_APPLICABLE.get(i, props.PENDING)))
m = dict(version=1, setup_cmd="python3 -c 'import sys; sys.path.insert(0, \"tools\"); import props'", checks=checks, not_applicable=na,
         notes="Every check builds what it needs from /repo's working tree into /verif/build (git-ignored). Replay: python3 check.py <id> --replay <path>. See DESIGN.md.")
if getattr(props, "HOOKS", None): m["hooks"] = props.HOOKS
with open(os.path.join(V, "MANIFEST.json"), "w") as f: json.dump(m, f, indent=1); f.write("\n")
