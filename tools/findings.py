#!/usr/bin/env python3
"""Writes known_findings.json: the repairs (commits of /repo whose message starts with "fix:") and the known findings.
Run by hand after a repair; no check runs it."""
import json, os, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# property which each repair belongs to, by the beginning of the message of the commit
FIXED = [
 ("report read errors", "C08"), ("do not panic on an unmatched end tag", "C01"), ("ignore attributes, inclusions", "C10"),
 ("match the '<='", "C10"), ("track literal block", "C19"), ("ignore other delimiters", "C19"), ("do not change the working", "C06"),
 ("report an error instead of overflowing", "C11"), ("do not leak the attributes", "C07"), ("give precedence to the attributes of the configuration while", "C13"),
 ("validate manpages", "C31"), ("do not confuse some content", "C03"), ("do not skip the content", "C03"), ("take the start value", "C14"),
 ("keep the whole value", "C27"), ("do not overwrite", "C27"), ("no panic, no loss of content in tables", "C22"),
 ("no panic on authors", "C01"), ("render verse paragraphs", "C01"), ("render images whose", "C01"), ("collect the footnotes", "C17"),
 ("fall back on the default layout", "C01"), ("arrange the lists of the blocks", "C18"), ("keep quote blocks", "C01"),
 ("substitute attributes in footnotes", "C01"), ("substitute counters", "C14"), ("render the attributes of the first", "C18"),
 ("arrange the lists and the blocks in the cells", "C22"), ("keep the lines of lists", "C03"), ("well-formed XHTML", "C25"),
 ("render the titles and the styles", "C26"), ("the literal style", "C26"), ("number the titled examples", "C24"),
 ("render the roles of literal", "C33"), ("escape the special characters of all", "C02"), ("the formatted title", "C02"),
 ("escape the special characters in the labels", "C02"), ("no panic when rendering the metadata", "C01"),
 ("take the author and the email", "C02"),
]
from known import KNOWN, MORE_FIXED
out = []
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True, check=True).stdout.splitlines()
for line in log:
    h, m = line.split(" ", 1)
    if not m.startswith("fix: "):
        continue
    m = m[5:]
    ps = [p for k, p in FIXED + MORE_FIXED if m.startswith(k)]
    assert len(ps) == 1, (m, ps)
    out.append({"property": ps[0], "status": "fixed", "what": "fixed: property=%s %s %s" % (ps[0], h, m), "commit": h})
for p, case, what in KNOWN:
    out.append({"property": p, "status": "known", "case": case, "what": what})
with open(os.path.join(root, "known_findings.json"), "w") as f:
    json.dump(out, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(out))
