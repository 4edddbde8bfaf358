#!/usr/bin/env python3
"""design_seeds.py LOG: put what `seeds.py catch` printed into DESIGN.md."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | caught by | what the monitor said |", "|---|---|---|"]
for l in sorted(open(sys.argv[1])):
    parts = l.rstrip("\n").split(" | ")
    m = re.match(r"(\S+) (C\d\d) rc=(\d) ?(.*)", parts[0])
    if not m:
        continue
    by = [m.group(2)] if m.group(3) == "1" else []
    said = m.group(4)
    for p in parts[1:]:
        k = re.match(r"(C\d\d) rc=(\d) ?(.*)", p)
        if k and k.group(2) == "1":
            by.append(k.group(1))
            said = said or k.group(3)
    said = said.replace("|", "\\|").replace("monitor: ", "")
    rows.append("| %s | %s | %s |" % (m.group(1), ", ".join(by) or "**missed**", said[:110]))
p = os.path.join(V, "DESIGN.md")
t = open(p).read()
a, b = t.index("<!-- seeds -->") + len("<!-- seeds -->"), t.index("<!-- /seeds -->")
open(p, "w").write(t[:a] + "\n" + "\n".join(rows) + "\n" + t[b:])
