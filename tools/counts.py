#!/usr/bin/env python3
"""Writes the number of cases of each check into the table of DESIGN.md."""
import glob, os, re

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
count = {}
for p in glob.glob(here + "/harness/props/*.go"):
    for m in re.finditer(r'ID:\s+"(C\d\d)".*?Quick:\s*(\d+)', open(p).read(), re.S):
        count[m.group(1)] = int(m.group(2))
out = []
for line in open(here + "/DESIGN.md"):
    m = re.match(r"\| (C\d\d) \|", line)
    if m:
        n = f"{count[m.group(1)]:,}".replace(",", " ")
        cells = line.split(" | ")
        cells[1] = re.sub(r"; [\d ]+$", "; " + n, cells[1])
        line = " | ".join(cells)
    out.append(line)
open(here + "/DESIGN.md", "w").writelines(out)
