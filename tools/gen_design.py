#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from its parts: design_head.md, design_rows.txt, design_tail.md, seeded/*/meta.json, seeded_results.txt."""
import glob, json, os
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(H)
rd = lambda f: open(os.path.join(H, f)).read()
out = rd("design_head.md")
for l in rd("design_rows.txt").splitlines():
    out += "| " + " | ".join(l.split("|")) + " |\n"
out += rd("design_tail.md")
out += "| change | property | what it needs | result |\n|---|---|---|---|\n"
res = dict(l.split(None, 1) for l in rd("seeded_results.txt").splitlines() if l.strip())
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f)); i = f.split("/")[-2]
    out += "| %s | %s | %s | %s |\n" % (i, m["property"], m["needs"].replace("|", "/"), res.get(i, "caught by " + m["property"]))
out += "\n" + rd("design_end.md")
open(os.path.join(V, "DESIGN.md"), "w").write(out)
