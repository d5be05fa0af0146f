#!/usr/bin/env python3
"""Refreshes the table of planted bugs in DESIGN.md (by hand, not part of a check)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = {l.split()[0]: l.strip().split(None, 1)[1] for l in open(V + "/tools/missed.txt")} if os.path.exists(V + "/tools/missed.txt") else {}
rows = ["| bug | breaks | needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m, n = json.load(open(d)), os.path.basename(os.path.dirname(d))
    c = lambda t: re.sub(r"\s+", " ", t).replace("|", "\\|")
    rows.append("| %s | %s | %s | %s |" % (n, c(m["what_it_breaks"]), c(m["needs"]), missed.get(n, m["property"])))
p = V + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"<!-- seeded -->.*<!-- /seeded -->", lambda _: "<!-- seeded -->\n" + "\n".join(rows) + "\n<!-- /seeded -->", s, flags=re.S)
open(p, "w").write(s)
