#!/usr/bin/env python3
"""Writes MANIFEST.json from the list below (checks without a module are left out)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(HERE, "tools", "levels.py")).read())
checks = []
for cid, (technique, level, note) in sorted(CHECKS.items()):
    if not os.path.exists(os.path.join(HERE, "pbt", "checks", cid.lower() + ".py")):
        continue
    checks.append({
        "property": cid,
        "quick_cmd": f"python3 run_check.py {cid} --tier quick",
        "thorough_cmd": f"python3 run_check.py {cid} --tier thorough",
        "evidence_file": f"evidence/{cid}.json",
        "technique": technique, "level": level, "level_note": note,
    })
body = {"version": 1, "setup_cmd": "python3 run_check.py SETUP", "checks": checks, "not_applicable": [],
        "notes": "Property-based testing throughout (Hypothesis); see DESIGN.md. No hooks in /repo."}
done = {c["property"] for c in checks}
body["not_applicable"] = [{"property": f"C{i:02d}", "reason": "check not built yet"} for i in range(1, 21)
                          if f"C{i:02d}" not in done]
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(body, f, indent=1)
    f.write("\n")
print([c["property"] for c in checks])
