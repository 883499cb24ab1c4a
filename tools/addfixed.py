#!/usr/bin/env python3
"""addfixed.py PROPERTY COMMIT WHAT: record a repaired defect in known_findings.json (used while developing, never by checks)."""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
l = json.load(open(p)); pid, c, w = sys.argv[1:4]
l.append({"property": pid, "status": "fixed", "key": "", "line": f"fixed: property={pid} {c} {w}"})
json.dump(l, open(p, "w"), indent=1); open(p, "a").write("\n")
