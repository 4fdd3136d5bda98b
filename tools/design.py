#!/usr/bin/env python3
"""Regenerates the two tables of DESIGN.md (findings, planted bugs) between their markers."""
import json, os, re
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."); p = R + "/DESIGN.md"; s = open(p).read()
def put(mark, rows):
    global s
    a = s.index(f"<!-- {mark} -->") + len(f"<!-- {mark} -->"); b = s.index(f"<!-- /{mark} -->"); s = s[:a] + "\n" + "\n".join(rows) + "\n" + s[b:]
d = json.load(open(R + "/known-findings.json")); k = [v for v in d.values() if isinstance(v, list)][0]
put("findings", ["| finding | property | commit | what failed |", "|---|---|---|---|"] + [f"| {e['id']} | {e['property']} | {e.get('commit', '-')} | {re.sub('^fixed: property=[A-Z0-9]+ [0-9a-f]+ ', '', e['what'])} |" for e in k])
rows = []
for n in sorted(os.listdir(R + "/seeded")):
    f = f"{R}/seeded/{n}/meta.json"
    if os.path.exists(f): m = json.load(open(f)); rows.append(f"| {n} | {m['property']} | {m['needs']} |")
put("bugs", ["| planted bug | caught by | needs |", "|---|---|---|"] + rows)
open(p, "w").write(s)
