#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and registry.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
from registry import CHECKS
import registry
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [p["id"] for p in PROPS]
assert len(set(ids)) == len(ids)
PROPS.sort(key=lambda p: p["id"])
missing = []
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        for x in p["files"]:
            if not os.path.exists("/repo/" + x): missing.append((p["id"], x))
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["qtext"]},
                            "why_tests_cant": p["why"], "anchors": a}) + "\n")
if missing:
    print("missing anchors:", *missing, sep="\n  ")
checks = []
for p in PROPS:
    if p["id"] not in CHECKS: continue
    i = p["id"]
    checks.append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i} --thorough",
                   "evidence_file": f"evidence/{i}.json", "technique": "runtime monitoring: " + p["technique"],
                   "level": "exploration", "level_note": p["note"]})
na = [{"property": k, "reason": v} for k, v in sorted(registry.NOT_APPLICABLE.items())]
for p in PROPS:
    assert p["id"] in CHECKS or p["id"] in registry.NOT_APPLICABLE, p["id"]
for k in CHECKS: assert k in ids, k
json.dump({"version": 1, "setup_cmd": "python3 check.py --build", "checks": checks, "not_applicable": na,
           "notes": "check.py builds the monitors in harness/ with /repo's current sources and decides one property; see DESIGN.md."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
