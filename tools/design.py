#!/usr/bin/env python3
"""Regenerates DESIGN.md from tools/design_src.md, known_findings.json and seeded/*/meta.json."""
import json, glob, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(root+"/tools/design_src.md").read()
kf = json.load(open(root+"/known_findings.json"))
kf = kf if isinstance(kf, list) else kf["findings"]
op = [f"* {f['property']} `{f['key']}`: {f['what']}" for f in kf if f["status"]=="open"]
fx = [f"* {f['property']} `{f['commit']}`: {f['what']}" for f in kf if f["status"]!="open"]
txt = "Open (recorded, reported as KNOWN-FINDING):\n\n" + "\n".join(op) + "\n\nRepaired by `fix:` commits in /repo (each made its check fail before):\n\n" + "\n".join(fx) + "\n"
res = json.load(open(root+"/tools/caught.json")) if os.path.exists(root+"/tools/caught.json") else {}
rows = ["| bug | needs | breaks | caught by |", "|---|---|---|---|"]
for m in sorted(glob.glob(root+"/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(m)); d = json.load(open(m))
    rows.append(f"| {i} | {d['needs']} | {d['what_it_breaks']} | {res.get(i, d['property'])} |")
s = s.replace("FIXES\n", txt).replace("BUGS\n", "\n".join(rows)+"\n")
open(root+"/DESIGN.md","w").write(s)
