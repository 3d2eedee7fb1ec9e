#!/usr/bin/env python3
"""tools/fixed.py C16 <commit> what failed...   records a repaired defect in known_findings.json"""
import json, sys
f = "/verif/known_findings.json"
d = json.load(open(f))
d["findings"].append(dict(status="fixed", property=sys.argv[1], entry="fixed: property=%s %s %s" % (sys.argv[1], sys.argv[2], " ".join(sys.argv[3:]))))
json.dump(d, open(f, "w"), indent=1)
