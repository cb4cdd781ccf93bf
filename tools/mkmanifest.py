#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks that exist."""
import json, os, re, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import check
NOTE = {
 "L01": "Every recorded whole print is exactly the row sequence of the TLA+ reader machine (Layout); exhaustive over small notations, random beyond.",
}
TECH = "TLA+ specification checked with TLC; trace validation of recorded runs of the real code against it"
props = [json.loads(l)["id"] for l in open(f"{H}/properties.jsonl")]
NA = {}
checks = []
na = []
for p in props:
    if p in check.CHECKS:
        checks.append({"property": p, "quick_cmd": f"python3 check.py {p} quick", "thorough_cmd": f"python3 check.py {p} thorough",
                       "technique": TECH, "level": check.LEVEL.get(p, "model_checking"),
                       "level_note": check.NOTES.get(p, NOTE.get(p, "Recorded runs of the real code on random inputs are validated event by event against the TLA+ specification; trusts TLC, the harness's recording, and that the generators reach the relevant inputs."))})
    else:
        na.append({"property": p, "reason": NA.get(p, "check still under construction")})
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
           "notes": "Language: TLA+ (TLC). See DESIGN.md. No hooks in /repo are needed: the public API exposes what the specification talks about."},
          open(f"{H}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
