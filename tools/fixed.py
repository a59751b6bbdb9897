#!/usr/bin/env python3
"""tools/fixed.py PROP COMMIT TEXT: append a fixed entry to known_findings.json"""
import json, sys
p = "/verif/known_findings.json"
d = json.load(open(p))
P, C, t = sys.argv[1:4]
d["findings"].append({"property": P, "status": "fixed", "commit": C, "what": "fixed: property=%s %s %s" % (P, C, t)})
json.dump(d, open(p, "w"), indent=1); open(p, "a").write("\n")
