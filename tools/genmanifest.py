#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks.json."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
conf = json.load(open(os.path.join(V, "checks.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "./check.py setup", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    c = conf["checks"].get(i)
    if c is None or "not_applicable" in c:
        m["not_applicable"].append({"property": i, "reason": (c or {}).get("not_applicable", "its contracts are not written yet")})
        continue
    d = dict(conf["default"]); d.update(c)
    m["checks"].append({
        "property": i, "quick_cmd": "./check.py %s quick" % i, "thorough_cmd": "./check.py %s thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": "contract-based deductive verification: contracts on the Go functions, verification conditions from the current source's SSA, discharged by z3 and cvc5",
        "level": d["level"],
        "level_note": d.get("note", "Every obligation generated from the current source is discharged for all inputs and iterations.") +
            " Assumes the library contracts listed in the evidence and the bounds listed under assumptions."})
m["notes"] = "No hooks in /repo. The replay harness is compiled in through a build overlay and only looks for failing inputs; the proof decides."
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
