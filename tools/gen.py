#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and tools/config.json from tools/spec.py; a property is claimed when props/<id>.cpp exists."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from spec import PROPS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ("Generated-input search with a fixed number of cases per run, pure function of the code and VERIF_SEED; it never establishes absence. "
        "Trusts the oracle in /verif/harness and /verif/props, clang and its sanitizers.")
with open(V + "/properties.jsonl", "w") as f:
    for p in PROPS:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")
        assert len(p["title"]) <= 80, p["title"]
claimed = [p for p in PROPS if os.path.exists(V + "/props/%s.cpp" % p["id"])]
m = {"version": 1, "setup_cmd": "python3 tools/check.py --setup", "checks": [], "not_applicable": []}
cfg = {}
for p in PROPS:
    if p not in claimed:
        m["not_applicable"].append({"property": p["id"], "reason": p.get("na") or "applicable, but its check is not built yet"})
        continue
    m["checks"].append({
        "property": p["id"], "quick_cmd": "python3 tools/check.py %s quick" % p["id"],
        "thorough_cmd": "python3 tools/check.py %s thorough" % p["id"],
        "technique": p["technique"] or "property-based testing with a coverage-guided structured generator; oracle: " + p["oracle"],
        "level": "exploration", "level_note": p["note"] or NOTE})
    c = {"rule": p["rule"]}
    for k in ("flavour", "assumptions", "budget_quick", "budget_thorough", "launcher"):
        if k in p:
            c[k] = p[k]
    cfg[p["id"]] = c
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
json.dump({"properties": cfg}, open(V + "/tools/config.json", "w"), indent=1)
print("%d properties, %d claimed" % (len(PROPS), len(claimed)))
