#!/usr/bin/env python3
"""Rewrites MANIFEST.json from tools/parts.py and properties.jsonl."""
import json, os
from parts import PARTS, META, NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
checks = [{"property": p, "quick_cmd": f"python3 check.py {p} quick", "thorough_cmd": f"python3 check.py {p} thorough",
           "technique": META[p][0], "level": META[p][1], "level_note": META[p][2]} for p in ids if p in PARTS]
na = [{"property": p, "reason": NOT_APPLICABLE.get(p, "not yet built: the check for this property is still under construction")} for p in ids if p not in PARTS]
json.dump({"version": 1, "setup_cmd": "python3 tools/build.py opt", "checks": checks, "not_applicable": na}, open(f"{V}/MANIFEST.json", "w"), indent=1)
open(f"{V}/MANIFEST.json", "a").write("\n")
