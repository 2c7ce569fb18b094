#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, H)
from props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
checks = []
for i in ids:
    if i in PROPS:
        P = PROPS[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py run %s quick" % i, "thorough_cmd": "python3 check.py run %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": P["technique"], "level": P.get("level", "exploration"), "level_note": P["note"]})
na = [{"property": i, "reason": NOT_APPLICABLE.get(i, "no check built yet")} for i in ids if i not in PROPS]
with open(os.path.join(H, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks, "not_applicable": na,
               "notes": "No hooks in /repo: harnesses compile /repo's sources themselves and use link-time wrapping. /repo only carries fix: commits, listed in known_findings.txt."}, f, indent=1)
    f.write("\n")
print(len(checks), "claimed,", len(na), "not")
