#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json
import os
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.insert(0, os.path.join(V, "tools"))
from checks import CHECKS
from props import PROPS

ids = [p["id"] for p in PROPS]
assert len(set(ids)) == len(ids)
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                         "observe_at": list(p["observe"]), "hook_needed": p["hook"]}}
        if p["state"]:
            d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]]
        f.write(json.dumps(d) + "\n")
        for x in p["files"]:
            assert os.path.exists(os.path.join("/repo", x)), x
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^Verification hook"], stdout=subprocess.PIPE, text=True).stdout.split()
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": "ASAGI_VERIF_TYPELIST", "enable": "most builds pass -DASAGI_VERIF_TYPELIST=<four cell types> to compile grid/grid.cpp faster (vlib.py SMALL); C01 and C03 build with the guard off", "source_commits": hook},
     "checks": [], "not_applicable": []}
for p in PROPS:
    if p["na"]:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
        continue
    assert p["id"] in CHECKS, p["id"]
    m["checks"].append({"property": p["id"], "quick_cmd": "python3 run.py " + p["id"] + " quick", "thorough_cmd": "python3 run.py " + p["id"] + " thorough",
                        "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
assert set(CHECKS) <= set(ids), set(CHECKS) - set(ids)
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
