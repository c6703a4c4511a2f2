#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from plan import PLAN
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in PLAN:
        na.append(dict(property=i, reason="the check is not built yet"))
        continue
    checks.append(dict(property=i, quick_cmd="python3 check.py " + i, thorough_cmd="python3 check.py --thorough " + i,
                       technique=PLAN[i]["technique"], level="exploration", level_note=PLAN[i]["note"]))
json.dump(dict(version=1, setup_cmd="python3 check.py --build", checks=checks, not_applicable=na,
               notes="No hooks: the harnesses use the public interface and the documented extension points only. See DESIGN.md."),
          open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
