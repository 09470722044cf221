#!/usr/bin/env python3
"""writes MANIFEST.json from zcheck.props"""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
from zcheck import props
ids = [json.loads(l)["id"] for l in open(os.path.join(R, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in props.PROPS:
        d = props.PROPS[i]
        checks.append({"property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i,
                       "technique": d.get("technique", props.TECH), "level": "other", "level_note": d.get("note", props.NOTE)})
    else:
        na.append({"property": i, "reason": props.NA.get(i, "no check registered yet")})
m = {"version": 1, "setup_cmd": "python3 -m zcheck.setup", "checks": checks}
m["not_applicable"] = na
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
