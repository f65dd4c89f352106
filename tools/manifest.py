#!/usr/bin/env python3
"""Writes MANIFEST.json: the claimed properties with their notes, the others under not_applicable."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(R + "/tools/claims.py").read())
props = [json.loads(l) for l in open(R + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        checks.append({"property": i, "quick_cmd": "./check.sh %s quick" % i, "thorough_cmd": "./check.sh %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": "contract-based deductive verification of the Go source (SSA weakest preconditions, SMT)",
                       "level": "proof", "level_note": CLAIMED[i]})
    else:
        na.append({"property": i, "reason": NOT.get(i, "contracts for this processor are not written yet")})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
  "notes": "Contracts are in spec/*.spec, bound by name to the functions of /repo; vc/ reads /repo's current source on every run. See DESIGN.md."},
  open(R + "/MANIFEST.json", "w"), indent=1)
