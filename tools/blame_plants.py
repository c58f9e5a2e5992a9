#!/usr/bin/env python3
"""says for each planted bug how many of the lines it removes are original, and whether its additions stand beside original lines"""
import os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R = "/repo"
base = subprocess.run(["git", "-C", R, "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.strip()[:7]
cache = {}
def blame(f):
    if f not in cache:
        o = subprocess.run(["git", "-C", R, "blame", "-s", "--abbrev=7", f], capture_output=True, text=True).stdout.splitlines()
        cache[f] = [l.lstrip("^").startswith(base) for l in o]
    return cache[f]
for i in sys.argv[1:] or sorted(os.listdir(V + "/seeded")):
    f = None; n = 0; orig = new = added = 0
    for l in open(os.path.join(V, "seeded", i, "patch.diff")):
        if l.startswith("--- a/"): f = l[6:].strip()
        elif l.startswith("@@"): n = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-") and f: 
            if blame(f)[n-1]: orig += 1
            else: new += 1
            n += 1
        elif l.startswith(" "): n += 1
        elif l.startswith("+") and not l.startswith("+++"): added += 1
    print("%-34s removes %d original, %d own; adds %d%s" % (i, orig, new, added, "" if orig else "   <-- no original line"))
