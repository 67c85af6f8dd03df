#!/usr/bin/env python3
"""replay.py <evidence/replay/X.json>: run the counterexample on the real code."""
import json
import os
import sys

sys.argv, path = sys.argv[:1] + ["-"], sys.argv[1]
HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get("VERIF_REEXEC") != "1":
    os.environ.update(VERIF_REEXEC="1", OMP_NUM_THREADS="1")
    os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python", os.path.abspath(__file__), path])
sys.path.insert(0, HERE)
from fractions import Fraction

import run_check

d = json.load(open(path))
mod = run_check.load(d["property"])
job = next(j for j in mod.jobs(d["tier"]) if j["name"] == d["job"])
from engine.harness import run_concrete

r = run_concrete(job["fn"], job["cfg"], {k: Fraction(*v) for k, v in d["model"].items()}, d["seed"])
print("holds" if r is None else f"VIOLATED: {r}")
sys.exit(0 if r is None else 1)
