#!/usr/bin/env python3
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, "tools"))
import props
ids = set()
with open(os.path.join(R, "properties.jsonl"), "w") as f:
    for p in sorted(props.P, key=lambda p: p["id"]):
        assert p["id"] not in ids and len(p["title"]) <= 80, p["id"] + " " + str(len(p["title"]))
        ids.add(p["id"])
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                            "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}) + "\n")
checks, na = [], []
for p in sorted(props.P, key=lambda p: p["id"]):
    if p["na"]:
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    have = os.path.exists(os.path.join(R, "sa/checks", p["id"].lower() + ".py"))
    if not have:
        na.append({"property": p["id"], "reason": "check not built yet"})
        continue
    c = "python3 check.py " + p["id"]
    checks.append({"property": p["id"], "quick_cmd": c, "thorough_cmd": c, "technique": "static analysis: " + p["technique"], "level": "other", "level_note": p["note"]})
with open(os.path.join(R, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na}, f, indent=1)
    f.write("\n")
print(len(checks), "claimed", len(na), "n/a")
