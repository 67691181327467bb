#!/usr/bin/env python3
"""add_fixed.py PROP COMMIT WHAT: record a repaired defect in known_findings.json"""
import json, os, sys
p = os.path.join(os.path.dirname(__file__), "..", "known_findings.json")
d = json.load(open(p)) if os.path.exists(p) else {"known": [], "fixed": []}
d["fixed"].append("property=%s %s %s" % tuple(sys.argv[1:4]))
json.dump(d, open(p, "w"), indent=1); open(p, "a").write("\n")
