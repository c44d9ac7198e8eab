#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from sa/spec.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "sa"))
import spec
keys = ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in spec.PROPS + [n["prop"] for n in spec.NA]:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({k: p[k] for k in keys}) + "\n")
m = {
    "version": 1,
    "setup_cmd": "bash sa/setup.sh",
    "checks": [
        dict(property=p["id"], quick_cmd="python3-vt sa/check.py %s --tier quick" % p["id"], thorough_cmd="python3-vt sa/check.py %s --tier thorough" % p["id"], technique=p["technique"], level=p["level"], level_note=p["level_note"])
        for p in spec.PROPS
    ],
    "not_applicable": [dict(property=n["prop"]["id"], reason=n["reason"]) for n in spec.NA],
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(spec.PROPS), "claimed", len(spec.NA), "not applicable")
