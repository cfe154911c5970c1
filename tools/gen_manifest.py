#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the modules in props/."""
import json, os, sys, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
have = {f.split("_")[0].upper(): f for f in os.listdir(os.path.join(here, "props"))
        if re.match(r"^[a-z]\d\d_.*\.py$", f)}
notes = json.load(open(os.path.join(here, "tools", "notes.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        n = notes.get(i, {})
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s --tier quick" % i,
            "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": n.get("technique", "Hypothesis property-based testing with an independent oracle"),
            "level": n.get("level", "exploration"),
            "level_note": n.get("note", "Randomised generated-input search; no exhaustiveness claim. Trusts the independent model in /verif/vh.")})
    else:
        na.append({"property": i, "reason": notes.get(i, {}).get("reason", "check not built yet")})
m = {"version": 1, "setup_cmd": "sh setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks: every check drives /repo through its public interface."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
