#!/usr/bin/env python3
"""Writes the per-property table of DESIGN.md from the check modules (RULE, ASSUMPTIONS) and techniques."""
import ast, json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
tech = json.load(open(os.path.join(H, "tools/techniques.json")))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
out = []
for p in props:
    src = open(os.path.join(H, "harness/props/%s.py" % p["id"].lower())).read()
    d = {}
    for n in ast.parse(src).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("RULE", "ASSUMPTIONS", "MUST"):
            try: d[n.targets[0].id] = ast.literal_eval(n.value)
            except Exception: pass
    doc = ast.get_docstring(ast.parse(src)) or ""
    out.append("### %s  %s\n" % (p["id"], p["title"]))
    out.append("- **Decided by:** %s." % tech[p["id"]]["tech"])
    out.append("- **Workload:** %s" % d.get("RULE", ""))
    if d.get("MUST"): out.append("- **Inconclusive unless observed:** %s." % ", ".join(sorted(d["MUST"])))
    if d.get("ASSUMPTIONS"): out.append("- **Assumes:** %s." % "; ".join(d["ASSUMPTIONS"]))
    out.append("")
path = os.path.join(H, "DESIGN.md")
s = open(path).read()
a, b = "<!-- per-property: begin -->", "<!-- per-property: end -->"
s = s[:s.index(a) + len(a)] + "\n\n" + "\n".join(out) + "\n" + s[s.index(b):]
open(path, "w").write(s)
