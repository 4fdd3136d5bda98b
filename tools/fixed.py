#!/usr/bin/env python3
"""usage: fixed.py <property> <commit> <what failed>  — records a repaired defect in known-findings.json"""
import json, sys, os
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known-findings.json"); d = json.load(open(p)); k = [v for v in d.values() if isinstance(v, list)][0]
n = max(int(e["id"][1:]) for e in k) + 1
k.append({"id": f"F{n}", "property": sys.argv[1], "status": "fixed", "commit": sys.argv[2], "what": f"fixed: property={sys.argv[1]} {sys.argv[2]} {sys.argv[3]}"})
open(p, "w").write(json.dumps(d, indent=1, ensure_ascii=False) + "\n"); print(k[-1]["id"])
