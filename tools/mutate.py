#!/usr/bin/env python3
"""Development helper: systematic small changes of the package, to find gaps.

mutate.py list                      -> every mutant with its number
mutate.py run OUT.jsonl SHARD/NSHARDS [first:last] -> run tests, then the checks whose
                                       evidence names the changed function
Mutants: arithmetic, comparison, constants, dropped keyword arguments, negated
conditions, swapped positional arguments, deleted statements."""
import ast
import glob
import json
import os
import random
import shutil
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MUT_REPO", "/repo")
PKG = "high_order_layers_torch"


def seg(src, lines, n):
    a = sum(len(l) for l in lines[: n.lineno - 1]) + len(lines[n.lineno - 1].encode()[: n.col_offset].decode())
    b = sum(len(l) for l in lines[: n.end_lineno - 1]) + len(lines[n.end_lineno - 1].encode()[: n.end_col_offset].decode())
    return a, b


def mutants_of(path):
    src = open(path).read()
    lines = src.splitlines(keepends=True)
    tree = ast.parse(src)
    out = []
    stack = []

    def add(n, new, kind):
        a, b = seg(src, lines, n)
        if src[a:b] == new:
            return
        out.append(dict(file=path, a=a, b=b, old=src[a:b], new=new, kind=kind, line=n.lineno, fn=".".join(stack)))

    def visit(n):
        isdef = isinstance(n, (ast.FunctionDef, ast.ClassDef))
        if isdef:
            stack.append(n.name)
        if isinstance(n, ast.BinOp):
            m = {ast.Add: ast.Sub(), ast.Sub: ast.Add(), ast.Mult: ast.Div(), ast.Div: ast.Mult(), ast.FloorDiv: ast.Div(), ast.Mod: ast.FloorDiv(), ast.Pow: ast.Mult()}.get(type(n.op))
            if m is not None and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                add(n, ast.unparse(ast.BinOp(n.left, m, n.right)), "binop")
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            m = {ast.Lt: ast.LtE(), ast.LtE: ast.Lt(), ast.Gt: ast.GtE(), ast.GtE: ast.Gt(), ast.Eq: ast.NotEq(), ast.NotEq: ast.Eq(), ast.Is: ast.IsNot(), ast.IsNot: ast.Is(), ast.In: ast.NotIn(), ast.NotIn: ast.In()}.get(type(n.ops[0]))
            if m is not None:
                add(n, ast.unparse(ast.Compare(n.left, [m], n.comparators)), "compare")
        if isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes)) and n.value is not None and n.value is not Ellipsis:
            v = n.value
            if isinstance(v, bool):
                add(n, repr(not v), "const")
            elif isinstance(v, int):
                add(n, repr(v + 1), "const")
                if v > 0:
                    add(n, repr(v - 1), "const")
            elif isinstance(v, float):
                add(n, repr(v * 2 if v else 1.0), "const")
        if isinstance(n, ast.Call):
            for i, k in enumerate(n.keywords):
                if k.arg:
                    c = ast.Call(n.func, n.args, n.keywords[:i] + n.keywords[i + 1:])
                    add(n, ast.unparse(c), f"dropkw:{k.arg}")
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                for i in range(len(n.args) - 1):
                    ar = list(n.args)
                    ar[i], ar[i + 1] = ar[i + 1], ar[i]
                    add(n, ast.unparse(ast.Call(n.func, ar, n.keywords)), "swapargs")
        if isinstance(n, (ast.If, ast.IfExp)):
            add(n.test, "not (" + ast.unparse(n.test) + ")", "negate")
        if isinstance(n, ast.BoolOp):
            add(n, ast.unparse(ast.BoolOp(ast.Or() if isinstance(n.op, ast.And) else ast.And(), n.values)), "boolop")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            add(n, ast.unparse(n.operand), "unary")
        if isinstance(n, (ast.Assign, ast.AugAssign)) and len(stack) > 1:
            add(n, "pass", "delete")
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and stack:
            add(n, "pass", "delete")
        # annotations and docstrings are not visited
        for f, v in ast.iter_fields(n):
            if f in ("annotation", "returns"):
                continue
            for c in v if isinstance(v, list) else [v]:
                if isinstance(c, ast.AST):
                    visit(c)
        if isdef:
            stack.pop()

    visit(tree)
    return out


def all_mutants():
    ms = []
    for p in sorted(glob.glob(f"{REPO}/{PKG}/**/*.py", recursive=True)):
        ms += mutants_of(p)
    for i, m in enumerate(ms):
        m["i"] = i
    return ms


def checks_for():
    fnmap, cost = {}, {}
    for p in sorted(glob.glob(f"{ROOT}/evidence/C*.json")):
        e = json.load(open(p))
        c = os.path.basename(p)[:-5]
        txt = json.dumps(e)
        cost[c] = e.get("wall_s", 10)
        fnmap[c] = txt
    return fnmap, cost


def sh(cmd, cwd, env=None, timeout=900):
    try:
        r = subprocess.run(cmd, shell=True, cwd=cwd, env=dict(os.environ, **(env or {})), capture_output=True, text=True, timeout=timeout)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 99, "timeout"


def main():
    ms = [m for m in all_mutants() if "device" not in m["kind"] and m["kind"] != "dropkw:dtype"]
    if sys.argv[1] == "list":
        for m in ms:
            print(m["i"], os.path.relpath(m["file"], REPO), m["line"], m["fn"], m["kind"], repr(m["old"][:60]), "->", repr(m["new"][:60]))
        return
    out, sh_ = sys.argv[2], sys.argv[3]
    k, n = map(int, sh_.split("/"))
    done = set()
    if os.path.exists(out):
        done = {json.loads(l)["i"] for l in open(out)}
    random.Random(5).shuffle(ms)
    files = os.environ.get("MUT_FILES")
    if files:
        ms = [m for m in ms if any(f in m["file"] for f in files.split(","))]
    fnmap, cost = checks_for()
    d = f"/tmp/mut/w{os.path.basename(out)}_{k}"
    v = d + "_verif"
    for x, s in ((d, REPO), (v, ROOT)):
        shutil.rmtree(x, ignore_errors=True)
        shutil.copytree(s, x, symlinks=True, ignore=shutil.ignore_patterns(".git", "seeded", "__pycache__"))
    for m in ms[k::n]:
        if m["i"] in done:
            continue
        rel = os.path.relpath(m["file"], REPO)
        src = open(m["file"]).read()
        new = src[: m["a"]] + m["new"] + src[m["b"]:]
        try:
            compile(new, rel, "exec")
        except SyntaxError:
            continue
        open(os.path.join(d, rel), "w").write(new)
        rec = {x: m[x] for x in ("i", "line", "fn", "kind", "old", "new")} | {"file": rel}
        t0 = time.time()
        rc, o = sh("/opt/venv/bin/python -m pytest -q -x -p no:cacheprovider -p vp_seed --timeout=120 --ignore=tests/test_examples.py tests -n0", d,
                   {"PYTHONPATH": d + ":/opt/vp/plugins", "PYTHONHASHSEED": "0", "CUDA_VISIBLE_DEVICES": "", "MPLBACKEND": "Agg", "PYTHONDONTWRITEBYTECODE": "1", "OMP_NUM_THREADS": "2"}, 400)
        rec["tests"] = rc
        if rc == 0:
            name = m["fn"].split(".")
            hits = [c for c in fnmap if f"{rel}:{m['fn']}" in fnmap[c]]
            if not hits:
                hits = [c for c in fnmap if name and f"{rel}:{name[0]}" in fnmap[c]]
            hits.sort(key=lambda c: cost[c])
            rec["hits"] = hits
            rec["res"] = {}
            rec["killed"] = None
            for c in hits:
                rc, o = sh(f"{v}/run_check.py {c} quick", v, {"VERIF_REPO": d, "VERIF_CORES": os.environ.get("MUT_CORES", "3")})
                rec["res"][c] = rc
                if rc == 1:
                    rec["killed"] = c
                    break
                if rc not in (0, 1):
                    rec["res"][c] = [rc, o[-400:]]
        rec["t"] = round(time.time() - t0)
        open(os.path.join(d, rel), "w").write(src)
        open(out, "a").write(json.dumps(rec) + "\n")
    shutil.rmtree(d, ignore_errors=True)
    shutil.rmtree(v, ignore_errors=True)


main()
