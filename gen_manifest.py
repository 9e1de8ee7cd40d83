#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks (maintenance tool, not a check)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
from manifest_data import CHECKS, NA
checks = []
for p in sorted(CHECKS):
    tech, note = CHECKS[p]
    checks.append({"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "python3 check.py " + p,
                   "evidence_file": "evidence/%s.json" % p, "technique": tech, "level": "other", "level_note": note})
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
na = [{"property": p, "reason": NA.get(p, "check not built yet")} for p in ids if p not in CHECKS]
json.dump({"version": 1, "setup_cmd": "python3 -m compileall -q vp check.py", "checks": checks, "not_applicable": na},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
