#!/usr/bin/env python3
"""Appends the table of planted bugs to tools/DESIGN.base.md -> DESIGN.md (development only; not used by checks)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
miss = json.load(open(os.path.join(V, "tools", "missed.json")))
rows = []
for i in sorted(os.listdir(os.path.join(V, "seeded"))):
    p = os.path.join(V, "seeded", i, "meta.json")
    if os.path.exists(p):
        m = json.load(open(p))
        rows.append((m["property"], i, m["what_it_breaks"].split(": ")[0].split("; ")[0], miss.get(i, "")))
rows.sort()
out = open(os.path.join(V, "tools", "DESIGN.base.md")).read().rstrip() + """

## 8. Planted bugs
`seeded/`: each compiles, passes the stable tests and has a demonstration. Every one is caught by the quick check of its property; the last column
says what had to be strengthened for it (empty: caught at once).

| caught by | bug | what it breaks | strengthened |
|---|---|---|---|
"""
for r in rows:
    out += "| %s | `%s` | %s | %s |\n" % r
open(os.path.join(V, "DESIGN.md"), "w").write(out)
