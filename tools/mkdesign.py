#!/usr/bin/env python3
"""Writes the per-property part of DESIGN.md from the rule texts the monitors report and MANIFEST.json; the rest is in design/*.md"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda f: open(os.path.join(V, f)).read()
m = {c["property"]: c for c in json.load(open(os.path.join(V, "MANIFEST.json")))["checks"]}
cfg = json.load(open(os.path.join(V, "checks.json")))
out = [rd("design/head.md"), "\n## Properties and how each is decided\n"]
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    c = m[p["id"]]
    ev = os.path.join(V, "evidence", p["id"] + ".json")
    rule = json.load(open(ev))["coverage"]["rule"]
    parts = ", ".join(x["bin"] + (" (race detector)" if x.get("race") else "") + (" driving " + ", ".join(x["cmds"]) if x.get("cmds") else "") for x in cfg[p["id"]]["parts"])
    out.append("### %s %s\n\n- decided by: %s (%s)\n- monitors: %s\n- cases: %s\n- assurance and limits: %s\n- why tests do not settle it: %s\n" % (
        p["id"], p["title"], c["technique"], c["level"], parts, rule, c["level_note"], p["why_tests_cant"]))
import subprocess
table = subprocess.run(["python3", V + "/tools/catchtable.py"], capture_output=True, text=True).stdout
out.append(rd("design/tail.md").replace("BUGTABLE", table))
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))
