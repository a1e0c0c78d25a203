#!/usr/bin/env python3-vt
"""Writes properties.jsonl and MANIFEST.json from tools/props.py and the checks present."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS

checks, na = [], []
with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
    for p in PROPS:
        a = {"files": p["files"],
             "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]]}
        if p["observe"]:
            a["observe_at"] = p["observe"]
        f.write(json.dumps({
            "id": p["pid"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]},
            "why_tests_cant": p["why"], "anchors": a}) + "\n")
        mod = "checks/%s.py" % p["pid"].lower()
        if os.path.exists(os.path.join(VERIF, mod)):
            checks.append({
                "property": p["pid"], "quick_cmd": "python3 %s quick" % mod,
                "thorough_cmd": "python3 %s thorough" % mod,
                "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
        else:
            na.append({"property": p["pid"], "reason":
                       "model checking applies; the check is not finished yet (see DESIGN.md)"})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks,
     "not_applicable": na}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
import jsonschema
for name, path in (("MANIFEST", "MANIFEST.json"),):
    jsonschema.validate(m, json.load(open("/root/.vp/%s.schema.json" % name)))
ps = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for line in open(os.path.join(VERIF, "properties.jsonl")):
    jsonschema.validate(json.loads(line), ps)
    d = json.loads(line)
    assert len(d["title"]) <= 80, d["title"]
print(len(checks), "claimed,", len(na), "not claimed")
