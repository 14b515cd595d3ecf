#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks import CHECKS
checks = []
for p in sorted(CHECKS):
    s = CHECKS[p]
    checks.append(dict(property=p, quick_cmd="python3 check.py %s --tier quick" % p, thorough_cmd="python3 check.py %s --tier thorough" % p,
        technique=s["technique"], level="exploration", level_note=s["note"]))
all_ids = [json.loads(l)["id"] for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"))]
na = [dict(property=i, reason="check not built yet") for i in all_ids if i not in CHECKS]
m = dict(version=1, setup_cmd="python3 build.py fast", checks=checks, not_applicable=na)
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
