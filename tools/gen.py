#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/table.py, so that the two stay in step."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
sys.dont_write_bytecode = True
from table import PROPS, NOT_APPLICABLE, NOTES
root = os.path.dirname(here)
ids = set()
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert p["id"] not in ids, p["id"]
        ids.add(p["id"])
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p.get("observe", ["the output of libasciidoc.Convert"]),
                        "hook_needed": None},
        }, ensure_ascii=False) + "\n")
na = {x["property"] for x in NOT_APPLICABLE}
checks = []
for p in PROPS:
    if p["id"] in na:
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "bash check.sh %s quick" % p["id"],
        "thorough_cmd": "bash check.sh %s thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": p["technique"],
        "level": "model_checking",
        "level_note": p["note"],
    })
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": NOT_APPLICABLE, "notes": NOTES}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(PROPS), "properties,", len(checks), "checks")
