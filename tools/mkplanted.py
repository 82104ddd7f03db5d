#!/usr/bin/env python3
"""Rewrites section 5 of DESIGN.md from seeded/*/meta.json (development only: checks never read seeded/)."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(root + "/seeded")):
    m = json.load(open(f"{root}/seeded/{d}/meta.json"))
    rows.append(f"| {d} | {m['property']} | {m['needs'].strip()} | {m['what_it_breaks'].strip()} |")
p = root + "/DESIGN.md"
s = open(p).read()
head, tail = s.split("## 5. Planted changes and what catches them\n")
tail = tail[tail.index("\n## 6"):] if "\n## 6" in tail else ""
intro = f"""
`seeded/` holds {len(rows)} changes. Each one is caught (exit 1, VIOLATION line of its property) by the **quick check of the
property it was written for**, the middle column; most within five seconds, races and rare shapes within the 45 s.

| change | caught by | needs | breaks |
|---|---|---|---|
"""
open(p, "w").write(head + "## 5. Planted changes and what catches them\n" + intro + "\n".join(rows) + "\n" + tail)
