#!/usr/bin/env python3
"""Writes properties.jsonl, props.json and MANIFEST.json from tools/props_src.py (single source)."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(root, "tools"))
sys.dont_write_bytecode = True
from props_src import PROPS, NOTES, HOOKS
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p["observe"], "hook_needed": None},
        }) + "\n")
cfg, checks, na = {}, [], []
for p in PROPS:
    if p.get("na"):
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    cfg[p["id"]] = {"title": p["title"], "trusted": p.get("trusted", []), "unreached": p.get("unreached", []), "min_obligations": p.get("min", 1)}
    checks.append({"property": p["id"], "quick_cmd": "bash run.sh " + p["id"], "thorough_cmd": "VERIF_TIER=thorough bash run.sh " + p["id"],
        "technique": p.get("technique", "contract-based deductive verification: pre/postconditions on the real Go functions, conditions generated from go/ssa, discharged by z3/cvc5"),
        "level": "proof", "level_note": p["note"]})
json.dump(cfg, open(os.path.join(root, "props.json"), "w"), indent=1)
json.dump({"version": 1, "setup_cmd": "bash run.sh setup", "hooks": HOOKS, "checks": checks, "not_applicable": na, "notes": NOTES}, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(PROPS), "properties,", len(checks), "claimed,", len(na), "not applicable")
