#!/usr/bin/env python3
"""addfixed.py PROP COMMIT 'what': records a repaired defect in known_findings.json."""
import json,sys
p='/verif/known_findings.json'; k=json.load(open(p))
prop,c,what=sys.argv[1:]
k['findings'].append({"property":prop,"signature":"","what":what,"status":f"fixed: property={prop} {c} {what}"})
json.dump(k,open(p,'w'),indent=2,ensure_ascii=False)
