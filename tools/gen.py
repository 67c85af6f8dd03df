#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from props import P  # noqa

TECH = ("solver-based checking of the real code: the repository's Python is executed symbolically through the torch dispatcher "
        "(every input element a solver variable), paths are enumerated by z3 feasibility queries and each assertion is decided by z3 "
        "over all values in the bounds; counterexamples are replayed on the real code")
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
man = {
    "version": 1,
    "setup_cmd": "cd /verif && ./run_check.py --selftest",
    "checks": [],
    "not_applicable": [],
}
for p in P:
    assert len(p["title"]) <= 80, p["title"]
    if p["claimed"]:
        man["checks"].append({
            "property": p["id"],
            "quick_cmd": f"cd /verif && ./run_check.py {p['id']} quick",
            "thorough_cmd": f"cd /verif && ./run_check.py {p['id']} thorough",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": TECH,
            "level": "model_checking",
            "level_note": p["note"] or "bounded shapes, orders and segment counts as listed in the evidence; arithmetic over the reals with an explicit tolerance, not bit-exact floating point",
        })
    else:
        man["not_applicable"].append({"property": p["id"], "reason": p["reason"]})
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
