#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design.md with the lists of defects and planted changes filled in.
(seeded/ and tools/matrix.json are the result of tools/matrix.py)"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
text = open(os.path.join(V, "tools/design.md")).read()
fixes = [l[len("fixed: "):].split(" ", 2) for l in open(os.path.join(V, "known-findings.txt")) if l.startswith("fixed: ")]
fixes.sort()
rows = "\n".join("| %s | %s | %s |" % (p.split("=")[1], c, w.strip().replace("|", "\\|")) for p, c, w in fixes)
text = text.replace("@FIXES@", "| property | commit | what failed |\n|---|---|---|\n" + rows)
m = json.load(open(os.path.join(V, "tools/matrix.json"))) if os.path.exists(os.path.join(V, "tools/matrix.json")) else {}
rows = []
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    j = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    r = m.get(d, {})
    rows.append("| %s | %s | %s | %s |" % (d, j["what_it_breaks"].replace("|", "\\|"), j["needs"].replace("|", "\\|"), ", ".join("%s %s" % (p, "catches it" if x == 1 else "misses it") for p, x in sorted(r.items())) or "(not run yet)"))
text = text.replace("@SEEDED@", "| change | breaks | needs | checks |\n|---|---|---|---|\n" + "\n".join(rows))
open(os.path.join(V, "DESIGN.md"), "w").write(text)
