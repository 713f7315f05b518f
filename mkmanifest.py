#!/usr/bin/env python3
"""writes MANIFEST.json from props.py and properties.jsonl"""
import json
from props import PROPS, NA
checks = []
for k, c in sorted(PROPS.items()):
    checks.append(dict(property=k, quick_cmd="python3 check.py %s" % k, thorough_cmd="VERIF_TIER=thorough python3 check.py %s" % k,
                       technique=c.get("technique", "contract-based deductive verification (C++ to WhyML, Why3 VCs, SMT)"),
                       level=c.get("level", "proof"), level_note=c["note"]))
json.dump(dict(version=1, setup_cmd="python3 check.py --setup", checks=checks,
               not_applicable=[dict(property=k, reason=r) for k, r in sorted(NA.items())]), open("MANIFEST.json", "w"), indent=1)
ids = {json.loads(l)["id"] for l in open("properties.jsonl")}
assert ids == set(PROPS) | set(NA), ids ^ (set(PROPS) | set(NA))
