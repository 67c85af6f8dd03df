#!/usr/bin/env python3
"""run_check.py <PROPERTY> [quick|thorough]

Runs every job of /verif/checks/<property>.py: the real code of /repo is
executed symbolically, the property is asserted over the symbolic result, and
z3 decides each assertion for every value within the job's bounds.
exit 0: holds on everything explored; 1: VIOLATION; 2: no verdict.
"""
import os
import sys

VENV = "/opt/venv/bin/python"
if os.path.realpath(sys.executable) != os.path.realpath(VENV) or not sys.flags.hash_randomization == 0:
    if os.environ.get("VERIF_REEXEC") != "1" and os.path.exists(VENV):
        env = dict(os.environ, VERIF_REEXEC="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1",
                   MKL_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", CUDA_VISIBLE_DEVICES="")
        os.execve(VENV, [VENV, os.path.abspath(__file__)] + sys.argv[1:], env)

import json
import multiprocessing as mp
import re
import resource
import signal
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path[:0] = [REPO, HERE]
sys.dont_write_bytecode = True

CORES = int(os.environ.get("VERIF_CORES", os.cpu_count() or 8))


def load(prop):
    import importlib

    import torch

    torch.set_num_threads(1)
    import high_order_layers_torch

    where = os.path.dirname(os.path.abspath(high_order_layers_torch.__file__))
    if where != os.path.join(REPO, "high_order_layers_torch"):
        raise SystemExit(f"package imported from {where}, not from {REPO}")
    import warnings

    warnings.filterwarnings("ignore")
    mod = importlib.import_module(f"checks.{prop.lower()}")
    # everything the jobs need is imported once, before the workers are forked
    import engine.harness  # noqa
    import high_order_layers_torch.networks  # noqa
    import torch._decomp  # noqa
    import torch._refs  # noqa

    return mod


class Tracker:
    """Which functions of the package a job executed."""

    def __init__(self):
        self.seen = set()
        mon = sys.monitoring
        self.tool = 4
        try:
            mon.use_tool_id(self.tool, "verif")
        except ValueError:
            pass
        mon.register_callback(self.tool, mon.events.PY_START, self.start)
        mon.set_events(self.tool, mon.events.PY_START)

    def start(self, code, off):
        f = code.co_filename
        if f.startswith(REPO + "/"):
            self.seen.add(f"{os.path.relpath(f, REPO)}:{code.co_qualname}")
        return sys.monitoring.DISABLE


def worker(conn, job, seed, budget, mem):
    try:
        os.setpgid(0, 0)
        resource.setrlimit(resource.RLIMIT_DATA, (mem, mem))
        from engine.harness import run_job

        tr = Tracker()
        sys.monitoring.restart_events()
        res = run_job(job["fn"], job["cfg"], seed=seed, budget=budget, opts=job.get("opts"))
        st = res.pop("stats")
        res["stats"] = {k: (sorted(v) if isinstance(v, set) else v) for k, v in st.__dict__.items()}
        res["functions"] = sorted(tr.seen)
        res["cfg"] = {k: repr(v) for k, v in job["cfg"].items()}
    except BaseException as e:  # noqa
        res = {"status": "error", "notes": [f"{type(e).__name__}: {e}"[:600], traceback.format_exc()[-2500:]],
               "cfg": {k: repr(v) for k, v in job["cfg"].items()}}
    try:
        conn.send(res)
    except Exception as e:
        conn.send({"status": "error", "notes": [f"result not sendable: {e}"]})
    conn.close()
    os._exit(0)


def run_pool(jobs, seed, total, stop_on_violation=True):
    ctx = mp.get_context("fork")
    t0 = time.time()
    order = sorted(range(len(jobs)), key=lambda i: -jobs[i].get("cost", 1))
    results = [None] * len(jobs)
    live = {}
    stop = False
    total_mem = 26 << 30
    while order or live:
        while order and len(live) < CORES and not stop:
            i = order.pop(0)
            left = total - (time.time() - t0)
            if left < 5:
                results[i] = {"status": "inconclusive", "notes": ["no time left"], "cfg": {}}
                continue
            b = min(jobs[i].get("budget", 300), left)
            a, c = ctx.Pipe(False)
            p = ctx.Process(target=worker, args=(c, jobs[i], seed, b, total_mem // CORES))
            p.start()
            c.close()
            live[i] = (p, a, time.time() + b + 30)
        if stop:
            for i in order:
                results[i] = {"status": "not_run", "notes": [], "cfg": {}}
            order = []
        done = []
        for i, (p, a, dl) in live.items():
            if a.poll(0):
                try:
                    results[i] = a.recv()
                except EOFError:
                    results[i] = {"status": "error", "notes": ["worker died"], "cfg": {}}
                done.append(i)
            elif not p.is_alive():
                if a.poll(0.1):
                    continue
                results[i] = {"status": "error", "notes": [f"worker died ({p.exitcode})"], "cfg": {}}
                done.append(i)
            elif time.time() > dl:
                results[i] = {"status": "inconclusive", "notes": ["killed: over its time budget"], "cfg": {}}
                done.append(i)
        for i in done:
            p, a, _ = live.pop(i)
            if p.is_alive():
                p.join(2)
            if p.is_alive():
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    p.kill()
                p.join()
            a.close()
            if results[i]["status"] == "violation" and stop_on_violation and not jobs[i].get("known"):
                stop = True
        if stop and live:
            # a violation is already established; drop what is still running
            for i, (p, a, _) in live.items():
                p.kill()
                p.join()
                results[i] = {"status": "not_run", "notes": [], "cfg": {}}
            live.clear()
        if not done:
            time.sleep(0.02)
    return results


def known_findings(prop):
    try:
        with open(os.path.join(HERE, "known_findings.json")) as f:
            return [k for k in json.load(f)["known"] if k["property"] == prop]
    except FileNotFoundError:
        return []


def selftest():
    """setup_cmd: the engine loads and decides a tiny job."""
    mod = load("C01")
    from engine.harness import run_job

    j = mod.jobs("quick")[0]
    r = run_job(j["fn"], j["cfg"], seed=1, budget=120, opts=j.get("opts"))
    print("selftest", j["name"], r["status"])
    return 0


def main():
    if sys.argv[1] == "--selftest":
        return selftest()
    prop = sys.argv[1].upper()
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    mod = load(prop)
    jobs = [j for j in mod.jobs(tier)]
    only = os.environ.get("VERIF_ONLY")
    if only:
        jobs = [j for j in jobs if re.search(only, j["name"])]
    known = known_findings(prop)
    for j in jobs:
        j["known"] = any(re.fullmatch(k["job"], j["name"]) for k in known)
    total = float(os.environ.get("VERIF_TOTAL_S", 780 if tier == "quick" else 6 * 3600))
    results = run_pool(jobs, seed, total - (time.time() - t0), not os.environ.get("VERIF_KEEPGOING"))

    rdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    violations, knowns, undecided, broken = [], [], [], []
    for j, r in zip(jobs, results):
        r["name"] = j["name"]
        if os.environ.get("VERIF_VERBOSE") and r["status"] != "not_run" or r["status"] not in ("ok", "not_run"):
            s = r.get("stats", {})
            print(f"  [{r['status']}] {j['name']} paths={s.get('paths')} q={s.get('queries')} "
                  f"solver={s.get('solver_s', 0):.1f}s wall={r.get('wall', 0):.1f}s {r.get('what', '')} "
                  f"{r.get('replay', '')} {' | '.join(r['notes'])[:int(os.environ.get('VERIF_NOTES', 300))]}")
        if r["status"] == "violation":
            k = next((k for k in known if re.fullmatch(k["job"], j["name"]) and re.search(k["what"], r["replay"])), None)
            if k:
                knowns.append((k, r))
            else:
                violations.append((j, r))
        elif r["status"] in ("error", "unreproduced", "mismatch", "vacuous"):
            broken.append(r)
        elif r["status"] in ("inconclusive", "unsupported"):
            undecided.append(r)
    for k, r in knowns:
        print(f"KNOWN-FINDING: property={prop} {k['description']}")
    for n, (j, r) in enumerate(violations):
        path = os.path.join(rdir, f"{prop}_{n}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "tier": tier, "job": j["name"], "what": r["what"], "observed": r["replay"],
                       "seed": seed, "model": r["model"], "cfg": r["cfg"]}, f, indent=1)
        print(f"  {j['name']}: {r['what']}")
        print(f"  replayed on the real code: {r['replay']}")
        print(f"VIOLATION property={prop} replay={path}")

    agg = {}
    fns, aten = set(), set()
    for r in results:
        for k, v in r.get("stats", {}).items():
            if isinstance(v, list):
                aten.update(v) if k == "aten" else None
            elif k == "max_terms":
                agg[k] = max(agg.get(k, 0), v)
            else:
                agg[k] = agg.get(k, 0) + v
        fns.update(r.get("functions", []))
    decided = [r for r in results if r["status"] in ("ok", "violation")]
    cov = {
        "states": int(agg.get("paths", 0)),
        "transitions": int(agg.get("decisions", 0)),
        "traces_validated_against_impl": int(sum(r.get("replays", 0) for r in results)),
        "samples": [{"job": r["name"], "cfg": r["cfg"], "paths": r["stats"]["paths"], "queries": r["stats"]["queries"]}
                    for r in decided if "stats" in r][:12],
        "jobs": len(jobs),
        "jobs_decided": len(decided),
        "jobs_undecided": [{"job": r["name"], "status": r["status"], "notes": r["notes"][:2]} for r in undecided + broken],
        "functions_encoded": sorted(fns),
        "aten_operators_encoded": sorted(aten),
        "solver_queries": int(agg.get("queries", 0)),
        "queries_unsat": int(agg.get("unsat", 0)),
        "queries_sat": int(agg.get("sat", 0)),
        "queries_unknown": int(agg.get("unknown", 0)),
        "nonlinear_queries": int(agg.get("nlqueries", 0)),
        "rational_identities": int(agg.get("identities", 0)),
        "solver_s": round(agg.get("solver_s", 0.0), 3),
        "obligations": int(agg.get("assertions", 0)),
        "obligations_discharged": int(agg.get("discharged", 0)),
        "outputs_validated_against_native": int(agg.get("validated", 0)),
        "bounds": getattr(mod, "BOUNDS", ""),
        "outside_bounds": getattr(mod, "OUTSIDE", ""),
        "meaning": "states = complete symbolic paths of the real code; transitions = symbolic decisions on them; "
                   "traces_validated = runs of the unmodified code at solver-found witnesses.",
    }
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + [
            "Arithmetic is over the reals (float constants are taken exactly); results are compared to a stated tolerance, "
            "and every path witness is also run natively in float32.",
        ],
        "wall_s": round(time.time() - t0, 2), "violations": len(violations),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    ok = sum(r["status"] == "ok" for r in results)
    print(f"{prop} {tier}: {len(jobs)} jobs, {ok} hold, {len(violations)} violated, {len(knowns)} known, "
          f"{len(undecided) + len(broken)} undecided; {cov['states']} paths, {cov['solver_queries']} queries, "
          f"{cov['solver_s']} s solver, {ev['wall_s']} s wall")
    if violations:
        return 1
    # a job without a verdict is reported as not covered; too many and there is no answer
    if len(undecided) + len(broken) > max(1, len(jobs) // 2) or ok == 0:
        print(f"NO-VERDICT property={prop}")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
