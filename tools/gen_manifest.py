#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json.  Run by hand after changing what is claimed."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from claims import CLAIMS, NOT
checks = [{"property": p, "quick_cmd": f"./check {p} --tier quick", "thorough_cmd": f"./check {p} --tier thorough", "technique": t, "level": "exploration", "level_note": n} for p, t, n in CLAIMS]
json.dump({"version": 1, "setup_cmd": "./check --build",
  "hooks": {"guard": "--cfg fixrs_verif (rustc cfg)", "enable": "RUSTFLAGS='--cfg fixrs_verif' when building /verif/subject, a library target over /repo's own sources", "source_commits": ["e2d5a75"]},
  "checks": checks, "not_applicable": [{"property": p, "reason": r} for p, r in NOT],
  "notes": "Every check runs the real code of /repo under generated workloads and judges the executions with monitors; see DESIGN.md."}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
