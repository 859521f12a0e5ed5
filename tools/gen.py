#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and the rules in harness/props.json."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props_text import P

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
pj = os.path.join(HERE, "harness", "props.json")
with open(pj) as f:
    cfg = json.load(f)
checks = []
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in sorted(P, key=lambda p: p["id"]):
        assert p["statement"].count(". ") <= 2, p["id"]
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["state"]:
            a["state"] = [dict(zip(("name", "meaning", "where"), s)) for s in p["state"]]
        if p["observe"]:
            a["observe_at"] = p["observe"]
        a["hook_needed"] = None
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"], "anchors": a}) + "\n")
        assert p["id"] in cfg, p["id"]
        cfg[p["id"]]["rule"] = p["rule"]
        cfg[p["id"]]["assumptions"] = p["assumptions"]
        cfg[p["id"]]["level"] = p["level"]
        checks.append({
            "property": p["id"],
            "quick_cmd": "python3 run.py %s quick" % p["id"],
            "thorough_cmd": "python3 run.py %s thorough" % p["id"],
            "technique": p["technique"], "level": p["level"], "level_note": p["level_note"]})
assert set(cfg) == {p["id"] for p in P}, set(cfg) ^ {p["id"] for p in P}
with open(pj, "w") as f:
    json.dump(cfg, f, indent=1)
    f.write("\n")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks,
               "not_applicable": []}, f, indent=1)
    f.write("\n")
