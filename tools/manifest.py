#!/usr/bin/env python3
"""Regenerates MANIFEST.json from props_cfg.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props_cfg import PROPS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 build.py core net" if any(p["kind"] == "net" for p in PROPS.values()) else "python3 build.py core",
     "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: every seam is a library symbol (pthread, clock, socket, allocator, curl, zlib) or compiler instrumentation."}
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py %s thorough" % i,
                            "evidence_file": "evidence/%s.json" % i, "technique": p["technique"], "level": "exploration", "level_note": p["level_note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "not built yet")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
