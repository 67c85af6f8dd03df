"""Collects the cost of the last quick runs from evidence/ into tools/cost.json (read by design.py)."""
import glob, json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = {}
for f in sorted(glob.glob(H + "/evidence/C*.json")):
    d = json.load(open(f))
    if d.get("tier") != "quick":
        continue
    c = d["coverage"]
    out[d["property"]] = {"jobs": c["jobs"], "queries": c["solver_queries"], "obligations": c["obligations"], "wall": round(d["wall_s"])}
json.dump(out, open(H + "/tools/cost.json", "w"), indent=1, sort_keys=True)
