#!/usr/bin/env python3
"""Fills the generated sections of DESIGN.md from tools/design_props.md, known_findings.json and seeded/."""
import json, os, glob, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
t = open(V + "/tools/DESIGN.in.md").read()
k = json.load(open(V + "/known_findings.json"))
fx = "\n".join("* " + re.sub(r"^fixed: property=(\S+) (\S+) ", r"**\1** `\2`: ", l) + "." for l in k["fixed"])
kn = k.get("known") or k.get("findings") or []
kn = ("Recorded, not repaired:\n\n" + "\n".join(f"* {x}" for x in kn)) if kn else "None is left unrepaired."
bugs = "| bug | property | what it needs | caught by |\n|---|---|---|---|\n"
res = json.load(open(V + "/tools/bugs.json")) if os.path.exists(V + "/tools/bugs.json") else {}
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d)); i = d.split("/")[-2]
    bugs += f"| {i} | {m['property']} | {m['needs']} | {res.get(i, '?')} |\n"
t = t.replace("@@PROPS@@", open(V + "/tools/design_props.md").read().strip()).replace("@@FIXES@@", fx).replace("@@KNOWN@@", kn).replace("@@BUGS@@", bugs)
open(V + "/DESIGN.md", "w").write(t)
