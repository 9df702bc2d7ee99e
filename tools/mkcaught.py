#!/usr/bin/env python3
"""Fills the catch table of DESIGN.md from seeded/*/meta.json and tools/catch_notes.json."""
import json, os, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes = {}
p = os.path.join(H, "tools/catch_notes.json")
if os.path.exists(p): notes = json.load(open(p))
rows = ["| planted bug | property | what it breaks | caught by | note |", "|---|---|---|---|---|"]
key = lambda d: (json.load(open(d + "/meta.json"))["property"], d)
for d in sorted(glob.glob(os.path.join(H, "seeded/*")), key=key):
    m = json.load(open(d + "/meta.json")); n = os.path.basename(d)
    x = notes.get(n, {})
    rows.append("| %s | %s | %s | %s | %s |" % (n, m["property"], m["what_it_breaks"].replace("|", "/").replace("\n", " "), x.get("by", m["property"]), x.get("note", "")))
path = os.path.join(H, "DESIGN.md"); s = open(path).read()
a, b = "<!-- caught: begin -->", "<!-- caught: end -->"
s = s[:s.index(a) + len(a)] + "\n\n" + "\n".join(rows) + "\n\n" + s[s.index(b):]
open(path, "w").write(s)
