#!/usr/bin/env python3
"""addfixed.py PROP 'commit subject substring' 'what failed' : record a repaired defect in known_findings.json"""
import json, subprocess, sys
p = '/verif/known_findings.json'; d = json.load(open(p))
for l in subprocess.run("git -C /repo log --format='%h %s'", shell=True, capture_output=True, text=True).stdout.splitlines():
    h, s = l.split(' ', 1)
    if sys.argv[2] in s: break
else: sys.exit("no commit " + sys.argv[2])
d["fixed"].append("fixed: property=%s %s %s" % (sys.argv[1], h, sys.argv[3]))
json.dump(d, open(p, 'w'), indent=1); print(h)
