#!/usr/bin/env python3
"""usage: mkbug.py < spec.py   — spec sets: id, property, needs, breaks, edits=[(file, old, new)], demo (shell text), files={name: text}"""
import sys, os, json, subprocess, shutil, tempfile
ns = {}
exec(sys.stdin.read(), ns)
S = f"/verif/seeded/{ns['id']}"; os.makedirs(S, exist_ok=True)
W = tempfile.mkdtemp(prefix="mk", dir="/tmp")
subprocess.run(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", W + "/w", "HEAD"], check=True)
try:
    for f, old, new in ns["edits"]:
        p = f"{W}/w/{f}"; s = open(p).read()
        if s.count(old) != 1: sys.exit(f"{f}: old text found {s.count(old)} times: {old[:80]!r}")
        open(p, "w").write(s.replace(old, new))
    d = subprocess.run(["git", "-C", W + "/w", "diff"], capture_output=True, text=True, check=True).stdout
    open(S + "/patch.diff", "w").write(d)
finally:
    subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", W + "/w"]); shutil.rmtree(W, ignore_errors=True); subprocess.run(["git", "-C", "/repo", "worktree", "prune"])
open(S + "/demo.sh", "w").write(ns["demo"]); os.chmod(S + "/demo.sh", 0o755)
for n, t in ns.get("files", {}).items(): open(f"{S}/{n}", "w").write(t)
json.dump({"property": ns["property"], "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, open(S + "/meta.json", "w"), indent=1)
print(S, len(d.splitlines()), "diff lines")
