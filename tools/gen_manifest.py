#!/usr/bin/env python3
"""regenerate MANIFEST.json from plan.py and properties.jsonl"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plan
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks, na = [], []
for i in ids:
    p = plan.PROPS.get(i) or plan.QUERY.get(i)
    tool = "check.py" if i in plan.PROPS else "query.py"
    if p:
        checks.append({
            "property": i,
            "quick_cmd": f"python3 tools/{tool} {i}",
            "thorough_cmd": f"python3 tools/{tool} {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": p.get("technique", plan.TECH),
            "level": p.get("level", "proof"),
            "level_note": p.get("note", plan.NOTE),
        })
    else:
        na.append({"property": i, "reason": plan.NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Static analysis of the compiler's MIR of /repo's current source; nothing of the repository is executed. See DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
