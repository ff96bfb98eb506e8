#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md; arguments: log of tools/plant/catch.sh."""
import json, os, re, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = {}
for line in open(sys.argv[1], errors="replace"):
    m = re.match(r"(\S+) (C\d\d) exit=(\d) (\d+)s (?:(?:C\d\d: )?(\S+?):)?", line)
    if m: log[m[1]] = (m[3], m[4], m[5])
rows = ["| bug | what it breaks | caught by |", "|---|---|---|"]
for d in sorted(os.listdir(here + "/seeded")):
    meta = json.load(open(f"{here}/seeded/{d}/meta.json"))
    c = log.get(d)
    how = "not run" if not c else f"{meta['property']}: {c[2]} ({c[1]} s)" if c[0] == "1" else "**missed**"
    rows.append(f"| {d} | {meta['what_it_breaks']} | {how} |")
text = open(here + "/DESIGN.md").read()
start = text.index("@@TABLE@@") if "@@TABLE@@" in text else text.index("| bug | what it breaks")
open(here + "/DESIGN.md", "w").write(text[:start] + "\n".join(rows) + "\n")
