#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md (between its two markers)
from seeded/*/meta.json; the check that catches a bug is, unless noted here,
the one of the property the bug is planted for."""
import json, pathlib, re
root = pathlib.Path(__file__).resolve().parent.parent
NOTE = {}
nf = root / "tools" / "seednotes.json"
if nf.exists(): NOTE = json.loads(nf.read_text())
rows = ["| Planted bug | Property | What it needs to show | Caught by |", "|---|---|---|---|"]
for d in sorted(list((root / "seeded").iterdir()) + list((root / "planted-cl").iterdir()), key=lambda d: d.name):
    m = json.loads((d / "meta.json").read_text())
    cell = lambda s: re.sub(r"\s+", " ", s).replace("|", "\\|").strip()
    needs = m["needs"] if isinstance(m["needs"], str) else "; ".join(m["needs"])
    rows.append("| %s | %s | %s | %s |" % (d.name, m["property"], cell(needs), NOTE.get(d.name, m["property"])))
p = root / "DESIGN.md"; s = p.read_text()
s = re.sub(r"<!-- seeds -->.*?<!-- /seeds -->", lambda _: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->", s, flags=re.S)
p.write_text(s)
