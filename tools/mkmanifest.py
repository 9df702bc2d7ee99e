#!/usr/bin/env python3
"""Writes MANIFEST.json from the property modules that exist."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TECH = json.load(open(os.path.join(V, "tools", "techniques.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if not os.path.exists(os.path.join(V, "harness", "props", i.lower() + ".py")):
        na.append({"property": i, "reason": "check not built yet"})
        continue
    t = TECH.get(i, {})
    checks.append({
        "property": i,
        "quick_cmd": "python3 harness/run.py {} --tier quick".format(i),
        "thorough_cmd": "python3 harness/run.py {} --tier thorough".format(i),
        "technique": "runtime monitoring: " + t.get("tech", "reference-model monitor over generated workloads"),
        "level": "exploration",
        "level_note": t.get("note", "Held on the executions listed in the evidence file; says nothing about inputs the workload never produced.")
        + " Trusts numpy/scipy/pandas and the reference model in harness/lib/oracle.py.",
    })
json.dump({
    "version": 1,
    "setup_cmd": "bash harness/setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: trikit is single-threaded pure Python, and every monitored event (call, arguments, "
             "returned object, drawn artist) is observable at its public boundary. Checks import the code from "
             "/repo's working tree with byte code redirected to a scratch folder, so nothing needs building.",
}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
