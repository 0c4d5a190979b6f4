#!/usr/bin/env python3
"""Writes DESIGN.md: prose below, plus the table of planted bugs from seeded/*/meta.json."""
import glob, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(HERE, "tools", "design.md")) as f:
    text = f.read()
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
bugs = {}
for m in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    bugs.setdefault(json.load(open(m))["property"], []).append((os.path.basename(os.path.dirname(m)), json.load(open(m))))
rows = []
for p in props:
    for name, m in bugs.get(p["id"], []):
        rows.append("| %s | %s | %s |" % (p["id"], name, m["needs"].replace("|", "/")))
table = "| caught by | change | needs, to manifest |\n|---|---|---|\n" + "\n".join(rows)
with open(os.path.join(HERE, "DESIGN.md"), "w") as f:
    f.write(text.replace("@BUGS@", table).replace("@NBUGS@", str(len(rows))))
