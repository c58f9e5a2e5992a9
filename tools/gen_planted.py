#!/usr/bin/env python3
"""rewrites the list of planted changes at the end of DESIGN.md from seeded/*/meta.json"""
import json, os, collections
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = collections.defaultdict(list)
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/" + i + "/meta.json")); by[m["property"]].append((i, m))
MARK = "## Planted changes and the checks that catch them\n"
s = open(V + "/DESIGN.md").read().split(MARK)[0].rstrip() + "\n\n" + MARK + """
%d changes lie in `seeded/`; `tools/try_plants.py` runs checks against them, each in overlays of its own. Every one is
caught by the quick check of the property it was written against (the check of the row's id). What each breaks and needs is
in its `meta.json`. Reverting a repair (those that revert without conflict, 17 commits) is caught as well, by the checks named in `known_findings.txt`.

| check | planted changes it catches |
|-------|----------------------------|
""" % sum(map(len, by.values()))
for p in sorted(by): s += "| %s | %s |\n" % (p, ", ".join(i[len(p) + 1:] if i.startswith(p + "-") else i for i, _ in by[p]))
open(V + "/DESIGN.md", "w").write(s)
