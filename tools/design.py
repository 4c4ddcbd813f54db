#!/usr/bin/env python3
"""Writes DESIGN.md from design/*.md, the table of the properties, the findings and the planted bugs."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, here); sys.dont_write_bytecode = True
from table import PROPS, NOT_APPLICABLE
rd = lambda p: open(os.path.join(root, p)).read()
o = [rd("design/head.md"), "\n## The properties, and how each is decided\n"]
for p in sorted(PROPS, key=lambda p: p["id"]):
    o.append("\n### %s — %s\n\n%s\n\nTechnique: %s. %s\n\n%s" % (p["id"], p["title"], p["statement"], p["technique"], p["note"], rd("design/%s.md" % p["id"])))
o.append("\n## Not applicable\n\n")
o += ["* %s: %s\n" % (x["property"], x["reason"]) for x in NOT_APPLICABLE] or ["None: each property of properties.jsonl is claimed.\n"]
kf = json.loads(rd("known_findings.json"))
o.append("\n## Genuine defects that were repaired (commits \"fix:\" in /repo)\n\n")
o += ["* %s\n" % f["what"] for f in kf if f["status"] == "fixed"]
o.append("\n## Known findings (genuine, not repaired)\n\n")
o += ["* %s: %s. Case: `%s`\n" % (f["property"], f["what"], f["case"]) for f in kf if f["status"] == "known"]
o.append("\n" + rd("design/tail.md"))
o.append("\n## Planted bugs, and the checks that catch them\n\n")
caught = json.loads(rd("design/caught.json"))
for d in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = json.loads(rd("seeded/%s/meta.json" % d))
    o.append("* `%s` (%s): %s. Needs: %s. %s\n" % (d, m["property"], m["what_it_breaks"].rstrip("."), m["needs"].rstrip("."), caught.get(d, "?")))
open(os.path.join(root, "DESIGN.md"), "w").write("".join(o))
