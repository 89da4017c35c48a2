#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
sys.dont_write_bytecode = True
from props import PROPS, NA
root = os.path.dirname(here)
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS + NA:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
        }, ensure_ascii=False) + "\n")
man = {
    "version": 1,
    "setup_cmd": "bash /verif/setup.sh",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "bash /verif/check.sh %s quick" % p["id"],
        "thorough_cmd": "bash /verif/check.sh %s thorough" % p["id"],
        "technique": p["technique"],
        "level": "other",
        "level_note": p["note"],
    } for p in PROPS],
    "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA],
    "notes": "One static analyser (checker/, Go over go/ssa) decides every check from /repo's current source; nothing of /repo is executed.",
}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1, ensure_ascii=False)
    f.write("\n")
