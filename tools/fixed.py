#!/usr/bin/env python3
"""fixed.py PROP "text": record the last /repo commit as a repair."""
import json, subprocess, sys
p = "/verif/known_findings.json"
k = json.load(open(p))
h = subprocess.check_output(["git", "-C", "/repo", "log", "-1", "--format=%h"], text=True).strip()
k["fixed"].append("fixed: property=%s %s %s" % (sys.argv[1], h, sys.argv[2]))
json.dump(k, open(p, "w"), indent=1)
