#!/usr/bin/env python3
"""Rewrites the table of DESIGN.md section 5 from seeded/*/meta.json and tools/caught.json (id -> checks that reported it)."""
import json, os, re
R = "/verif/"
c = json.load(open(R + "tools/caught.json"))
rows = []
for i in sorted(os.listdir(R + "seeded")):
    m = json.load(open(f"{R}seeded/{i}/meta.json"))
    rows.append((m["property"], i, m["needs"], ", ".join(c.get(i, [])) or "not tried"))
t = "| property | bug | needs | caught by |\n|---|---|---|---|\n" + "".join("| %s | %s | %s | %s |\n" % r for r in sorted(rows))
s = open(R + "DESIGN.md").read()
s = re.sub(r"\| property \| bug \| needs \| caught by \|\n(\|.*\n)+", lambda _: t, s)
open(R + "DESIGN.md", "w").write(s)
