#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and
tools/catches.txt (lines: ID seconds [note])."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes = {}
p = os.path.join(root, "tools", "catches.txt")
for l in open(p):
    w = l.split(None, 2)
    if w:
        notes[w[0]] = (w[1], w[2].strip() if len(w) > 2 else "")
rows = ["| bug | caught by | s | what it breaks |", "|---|---|---|---|"]
for i in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = json.load(open(os.path.join(root, "seeded", i, "meta.json")))
    s, n = notes.get(i, ("-", "not run"))
    rows.append(f"| {i} | {m['property']} | {s} | {m['what_it_breaks']}{' **' + n + '**' if n else ''} |")
p = os.path.join(root, "DESIGN.md")
t = open(p).read()
a = t.index("## Planted bugs")
head, tail = t[:a], t[a:]
tail = re.sub(r"\n(TABLE|\| bug .*?)\n(?=\n|\Z)", lambda _: "\n" + "\n".join(rows) + "\n", tail, count=1, flags=re.S)
open(p, "w").write(head + tail)
