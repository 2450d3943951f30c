#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os
from checks import CHECKS, NOT_APPLICABLE
H = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 vf.py setup", "checks": [], "not_applicable": []}
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": f"python3 vf.py run {i}",
                            "thorough_cmd": f"VERIF_TIER=thorough python3 vf.py run {i}",
                            "evidence_file": f"evidence/{i}.json",
                            "technique": c["technique"], "level": c.get("level", "exploration"),
                            "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "no check built yet")})
m["hooks"] = {"guard": "LF_VERIF_STEAL_ATTEMPTS",
              "enable": "-DLF_VERIF_STEAL_ATTEMPTS=<n> on the compiler command line (harnesses of C09 and C23; the others need no hook)",
              "source_commits": ["c1ebb22"]}
m["notes"] = "The harnesses compile /repo's headers against an instrumented run-time. vf.py replay <file> re-runs a replay file."
with open(os.path.join(H, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
