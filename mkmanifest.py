#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the registered checks."""
import json
import os

import checks

HERE = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl")) if l.strip()]
m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": [],
     "notes": "Every check builds the replay engine (harness/) against /repo's working tree, lets TLC generate "
              "behaviours from spec/, replays them into the library and compares. No hooks in /repo are needed."}
for p in props:
    c = checks.CHECKS.get(p["id"])
    if c is None:
        m["not_applicable"].append({"property": p["id"], "reason": "its check is still being built"})
        continue
    cmd = "python3 vrun.py " + p["id"]
    m["checks"].append({"property": p["id"], "quick_cmd": cmd, "thorough_cmd": "env VERIF_TIER=thorough " + cmd,
                        "evidence_file": "evidence/%s.json" % p["id"], "technique": c.technique,
                        "level": c.level, "level_note": c.note})
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
