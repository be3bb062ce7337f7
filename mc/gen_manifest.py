#!/usr/bin/env python3
"""Writes MANIFEST.json from config.CLAIMED."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import config  # noqa: E402

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl")) if l.strip()]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in config.CLAIMED:
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s quick" % i,
            "thorough_cmd": "python3 check.py %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "stateless explicit-state model checking of the real code: every choice sequence within the "
                         "bounds is executed and compared with a brute-force reference model",
            "level": "model_checking",
            "level_note": config.CLAIMED[i] + " Exhaustive within the bounds stated in DESIGN.md; says nothing beyond "
                          "them. Trusts g++, libsdd.a, libgmp and the reference model in mc/ref.cpp.",
        })
    else:
        na.append({"property": i, "reason": config.UNCLAIMED.get(i, "the check is not built yet")})
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --prebuild",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: every check drives the public API of the unmodified sources (htd and KaHyPar, which "
             "are not installed, are replaced by enumerated stand-ins under mc/shim).",
}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
