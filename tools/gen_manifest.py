#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/plan.py and properties.jsonl."""
import json, os
import plan
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl") if l.strip()]
checks = []
for i in ids:
    if i in plan.PROPS:
        p = plan.PROPS[i]
        checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
                           technique=p["technique"], level=p["level"], level_note=p["note"]))
na = [dict(property=i, reason=getattr(plan, "NOT_APPLICABLE", {}).get(i, "check under construction")) for i in ids if i not in plan.PROPS]
m = dict(version=1, setup_cmd="python3 check.py --build", checks=checks, not_applicable=na)
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
