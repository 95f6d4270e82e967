#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md (between the two markers) from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["<!-- seeded -->", "| id | property | what it breaks | caught by |", "|---|---|---|---|"]
caught = json.load(open(V + "/tools/caught.json"))
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(f)); m = json.load(open(f))
    rows.append(f"| {i} | {m['property']} | {m['what_it_breaks']}; needs {m['needs']} | {caught.get(i, 'not tried')} |")
rows.append("<!-- /seeded -->")
t = open(V + "/DESIGN.md").read()
t = t.replace("SEEDTABLE", "<!-- seeded --><!-- /seeded -->")
t = re.sub(r"<!-- seeded -->.*<!-- /seeded -->", lambda _: "\n".join(rows), t, flags=re.S)
open(V + "/DESIGN.md", "w").write(t)
