#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md. Run in /verif."""
import json
import os
import re

rows = ["| bug | property | what it breaks |", "| --- | --- | --- |"]
for d in sorted(os.listdir("seeded")):
    m = json.load(open("seeded/%s/meta.json" % d))
    rows.append("| `%s` | %s | %s |" % (d, m["property"], m["what_it_breaks"]))
s = open("DESIGN.md").read()
s = re.sub(r"(<!-- bugs -->\n).*?(<!-- end -->)", lambda m: m.group(1) + "\n".join(rows) + "\n" + m.group(2), s, flags=re.S)
open("DESIGN.md", "w").write(s)
