#!/usr/bin/env python3
"""atbase.py SEED...: whether the planted changes alter lines of the original
repository (and not just ones of our own commits)."""
import re, subprocess, sys, os
BASE = "919372b"
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def git(*a):
    return subprocess.run(["git", "-C", "/repo", *a], capture_output=True, text=True, check=True).stdout
for s in sys.argv[1:] or sorted(os.listdir(here + "/seeded")):
    p = f"{here}/seeded/{s}/patch.diff"
    # recompute hunks without context
    ok, cur, at = False, None, 0
    added = {}
    for l in open(p):
        if l.startswith("--- "):
            cur = l[6:].strip()
            t = git("diff", "-U0", BASE, "HEAD", "--", cur)
            added[cur] = set()
            for m in re.finditer(r"(?m)^@@ -\S+ \+(\d+)(?:,(\d+))? @@", t):
                added[cur].update(range(int(m[1]), int(m[1]) + int(m[2] or 1)))
        elif l.startswith("+++"): pass
        elif m := re.match(r"@@ -(\d+)", l): at = int(m[1]); prev = " "
        elif l.startswith("-"):
            ok |= at not in added[cur]; at += 1; prev = "-"
        elif l.startswith("+"):
            if prev == " " : ok |= at not in added[cur] and at - 1 not in added[cur]
            prev = "+"
        elif l.startswith(" "): at += 1; prev = " "
    print(s, "ok" if ok else "NOT AT BASE")
