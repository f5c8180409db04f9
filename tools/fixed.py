#!/usr/bin/env python3
"""usage: fixed.py PROPERTY COMMIT TEXT   records a repaired defect in known_findings.json"""
import json, os, sys
f = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'known_findings.json')
k = json.load(open(f))
p, c, t = sys.argv[1:]
k['findings'].append({"property": p, "status": "fixed", "commit": c, "record": "fixed: property=%s %s %s" % (p, c, t)})
json.dump(k, open(f, 'w'), indent=1, ensure_ascii=False)
open(f, 'a').write('\n')
