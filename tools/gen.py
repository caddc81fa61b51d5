#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py.
A property is claimed when the harness registers a check for it."""
import glob, json, os, re, subprocess
from props import PROPS
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
have = set()
for f in glob.glob(root + "/harness/checks/*.go"):
    have |= set(re.findall(r'Prop:\s*"(P\d+)"', open(f).read()))
hooks = open(root + "/tools/hook_commits.txt").read().split()
with open(root + "/properties.jsonl", "w") as f:
    for p in PROPS:
        anch = {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                "observe_at": p["observe"]}
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]},
            "why_tests_cant": p["why"], "anchors": anch}, ensure_ascii=False) + "\n")
checks, na = [], []
for p in PROPS:
    if p["id"] in have and p["claimed"]:
        checks.append({"property": p["id"],
            "quick_cmd": "./check.sh %s quick" % p["id"],
            "thorough_cmd": "./check.sh %s thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": p["reason"] or "no check has been built for it yet"})
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "build tag verif", "enable": "go build -tags verif", "source_commits": hooks},
     "checks": checks, "not_applicable": na}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(root + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks;", len(na), "not claimed:", [x["property"] for x in na])
