#!/usr/bin/env python3
"""known.py PROP ID COMMIT WHAT : record a repaired defect"""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known-findings.json")
k = json.load(open(p))
prop, i, commit, what = sys.argv[1:5]
k = [x for x in k if x["id"] != i]
k.append({"id": i, "property": prop, "status": "fixed", "what": "fixed: property=%s %s %s" % (prop, commit, what)})
json.dump(k, open(p, "w"), indent=1)
