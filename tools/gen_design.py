#!/usr/bin/env python3
"""fills the tables of DESIGN.md from tools/design.json, prover/baseline.json and seeded/"""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = open(R + "/tools/DESIGN.tmpl").read()
base = json.load(open(R + "/prover/baseline.json"))
D = json.load(open(R + "/tools/design.json"))
rows = [f"| {p} | {len(base.get(p, []))} contracts: {D[p][0]} | {D[p][1]} |" if base.get(p) else f"| {p} | – {D[p][0]} | {D[p][1]} |" for p in D]
bugs = []
for b in sorted(os.listdir(R + "/seeded")):
    m = json.load(open(f"{R}/seeded/{b}/meta.json"))
    bugs.append(f"| {b} | {m['property']} | {m['needs']} | {m.get('by', 'concrete')} |")
open(R + "/DESIGN.md", "w").write(T.replace("@@TABLE@@", "\n".join(rows)).replace("@@BUGS@@", "\n".join(bugs)))
