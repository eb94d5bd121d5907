#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run after editing)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
PROPS = []
NA = []


def P(id, title, statement, over, qtext, why, files, mech, technique, note, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = observe
    PROPS.append(({"id": id, "title": title, "statement": statement,
                   "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a}, technique, note))


def N(id, title, statement, over, qtext, why, files, mech, reason):
    NA.append(({"id": id, "title": title, "statement": statement,
                "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
                "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}, reason))


exec(open(V + "/tools/props_data.py").read())

import rules.registry as reg
with open(V + "/properties.jsonl", "w") as f:
    for p, _, _ in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        if p["id"] in reg.RULES:
            f.write(json.dumps(p) + "\n")
    for p, _ in NA:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [], "not_applicable": []}
for p, t, n in PROPS:
    if p["id"] not in reg.RULES:
        print("unbuilt", p["id"])
        continue
    m["checks"].append({"property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"],
                        "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                        "technique": t, "level": "other", "level_note": n})
for p, r in NA:
    m["not_applicable"].append({"property": p["id"], "reason": r})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
