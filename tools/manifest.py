#!/usr/bin/env python3
"""Writes MANIFEST.json from checks/registry.py."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(R, "lib"), os.path.join(R, "checks")]
import registry
checks = []
for c in sorted(registry.CHECKS):
    mod, level, assume = registry.CHECKS[c]
    checks.append({"property": c, "quick_cmd": "bin/check " + c, "thorough_cmd": "VERIF_TIER=thorough bin/check " + c,
                   "technique": registry.TECHNIQUE.get(mod, registry.TECHNIQUE["*"]), "level": level,
                   "level_note": registry.NOTE.get(mod, registry.NOTE["*"]) + (" Assumes: " + "; ".join(assume) + "." if assume else "")})
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": registry.NOT_APPLICABLE,
     "notes": "TLA+/TLC specifications in spec/, bound to the C++ code by trace validation in both directions; see DESIGN.md. No hooks in /repo are needed."}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
