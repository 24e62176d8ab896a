#!/usr/bin/env python3
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks, vlib
props = [json.loads(l) for l in open(vlib.ROOT + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": []}
if checks.HOOKS:
    m["hooks"] = checks.HOOKS
for p in props:
    c = checks.CHECKS.get(p["id"])
    if c:
        m["checks"].append({"property": p["id"], "quick_cmd": f"./check {p['id']} quick", "thorough_cmd": f"./check {p['id']} thorough",
                            "evidence_file": f"evidence/{p['id']}.json", "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": p["id"], "reason": checks.NA.get(p["id"], "not built yet")})
vlib.write(vlib.ROOT + "/MANIFEST.json", json.dumps(m, indent=1) + "\n")
