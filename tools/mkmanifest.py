#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
from checks import CHECKS
props = [json.loads(l) for l in open(R + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({
            "property": i,
            "quick_cmd": f"VERIF_TIER=quick python3 run.py {i}",
            "thorough_cmd": f"VERIF_TIER=thorough python3 run.py {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": c.get("technique", "property-based testing: structured random generation against a scalar lane-by-lane oracle, with shrinking"),
            "level": "exploration",
            "level_note": c.get("note", "Generated-input search, not a proof: held on every generated case, for every vector type, in each compiler "
                                "configuration listed in the evidence. Trusts rustc's scalar arithmetic as the oracle and x86-64 (little-endian) as the platform."),
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "python3 -c 'import sys; assert sys.version_info >= (3, 8)'",
           "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: every check goes through the public API. Checks build /repo from its working tree with the pinned nightly in several target-feature configurations."},
          open(R + "/MANIFEST.json", "w"), indent=1)
