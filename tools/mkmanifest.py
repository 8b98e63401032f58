#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py (claimed properties) and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from props import PROPS
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    c = PROPS.get(i)
    if c and c.get("claim", True):
        checks.append({"property": i, "quick_cmd": "python3 run.py %s quick" % i, "thorough_cmd": "python3 run.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": c["technique"], "level": "exploration", "level_note": c["note"]})
    else:
        na.append({"property": i, "reason": (c or {}).get("reason", "monitor not built yet")})
m = {"version": 1, "setup_cmd": "python3 run.py --selfcheck", "hooks": {"guard": "ZK_VP_HOOKS", "enable": "run.py compiles /repo's sources with -DZK_VP_HOOKS=1", "source_commits": ["ba683b0"]},
     "checks": checks, "not_applicable": na,
     "notes": "Every check compiles /repo's current tree itself (content-addressed cache in .build, not needed). One guarded hook in /repo reports each instruction the script machine executes; everything else is compiler-inserted or lives in harness/."}
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
