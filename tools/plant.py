#!/usr/bin/env python3
"""Development helper: build and confirm planted bugs (see /verif/seeded).

A spec file defines BUGS = [dict(id, prop, edits=[(file, old, new)], needs, breaks, demo)].
Each is applied to a scratch copy of /repo; the repository's tests and the
demonstration are run there, then the named check."""
import json
import os
import shutil
import subprocess
import sys
import xml.etree.ElementTree as ET

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = set(json.load(open("/opt/vp/BASELINE.json")).get("passed", [])) if os.path.exists("/opt/vp/BASELINE.json") else set()
DEMO = '#!/bin/bash\n# exit 0: the property holds here; nonzero: it is broken\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 CUDA_VISIBLE_DEVICES=\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def sh(cmd, cwd, env=None, timeout=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=dict(os.environ, **(env or {})), capture_output=True, text=True, timeout=timeout)


def one(b, tests=True, checks=True):
    d = f"/tmp/plant_{b['id']}"
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d, symlinks=True)
    try:
        for f, old, new in b["edits"]:
            p = os.path.join(d, f if "/" in f else "high_order_layers_torch/" + f)
            s = open(p).read()
            if s.count(old) != 1:
                return f"{b['id']}: edit matches {s.count(old)} times in {f}: {old[:60]!r}"
            open(p, "w").write(s.replace(old, new))
        sd = os.path.join(ROOT, "seeded", b["id"])
        os.makedirs(sd, exist_ok=True)
        open(os.path.join(sd, "patch.diff"), "w").write(sh("git diff", d).stdout)
        open(os.path.join(sd, "demo.sh"), "w").write(DEMO)
        os.chmod(os.path.join(sd, "demo.sh"), 0o755)
        open(os.path.join(sd, "demo.py"), "w").write(b["demo"])
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(sd, "meta.json"), "w"), indent=1)
        msg = [b["id"]]
        r0 = sh(f"bash {sd}/demo.sh", "/repo")
        r1 = sh(f"bash {sd}/demo.sh", d)
        msg.append(f"demo clean={r0.returncode} planted={r1.returncode}")
        if r0.returncode:
            msg.append(r0.stderr[-600:])
        if not r1.returncode:
            msg.append("DEMO DOES NOT FAIL")
        if tests:
            t = sh("/opt/venv/bin/python -m pytest -q -x -p no:cacheprovider -p vp_seed --timeout=300 --ignore=tests/test_examples.py tests -n0 2>&1 | tail -4", d,
                   {"PYTHONPATH": d + ":/opt/vp/plugins", "PYTHONHASHSEED": "0", "CUDA_VISIBLE_DEVICES": "", "MPLBACKEND": "Agg", "PYTHONDONTWRITEBYTECODE": "1"})
            last = t.stdout.strip().splitlines()[-1] if t.stdout.strip() else "?"
            if "unrecognized" in t.stdout:
                last = t.stdout
            msg.append("tests: " + last)
        if checks:
            for c in b.get("checks", [b["prop"]]):
                k = sh(f"{ROOT}/run_check.py {c} quick", ROOT, {"VERIF_REPO": d})
                msg.append(f"check {c}: exit {k.returncode}: " + " ".join(l for l in k.stdout.splitlines() if "VIOLATION" in l or "quick:" in l)[:200])
        return " | ".join(msg)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    for b in ns["BUGS"]:
        if not only or b["id"] in only:
            print(one(b, tests="--notests" not in sys.argv), flush=True)
