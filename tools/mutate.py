"""Development aid: mutate /repo/src, keep mutants that pass the tests, see which check catches them.

usage: python tools/mutate.py OUT.jsonl [--files a.py,b.py] [--sample N] [--seed S] [--checks C01,..]
Nothing in /repo is touched: every worker has its own copy under /tmp.
"""
import argparse
import ast
import collections
import copy
import json
import multiprocessing as mp
import os
import random
import shutil
import subprocess
import sys

REPO = "/repo"
PY = "/opt/venv/bin/python"
SWAP = {"start": "end", "end": "start", "starts": "ends", "ends": "starts", "first": "last", "last": "first",
        "prev": "fol", "fol": "prev", "min": "max", "max": "min", "xmin": "xmax", "xmax": "xmin",
        "superset_class": "subset_class", "subset_class": "superset_class", "sub_starts": "sub_ends", "sub_ends": "sub_starts"}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
       ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}


def variants(node):
    """Replacements for one node (new node or list of statements)."""
    if isinstance(node, ast.Compare) and len(node.ops) == 1:
        n = copy.deepcopy(node)
        n.ops = [CMP[type(node.ops[0])]()]
        yield "cmp", n
        if type(node.ops[0]) in (ast.Lt, ast.LtE, ast.Gt, ast.GtE):
            n = copy.deepcopy(node)
            n.ops = [{ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE}[type(node.ops[0])]()]
            yield "cmp-flip", n
    if isinstance(node, ast.BoolOp):
        n = copy.deepcopy(node)
        n.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
        yield "bool", n
        for i in range(len(node.values)):
            yield f"bool-only{i}", copy.deepcopy(node.values[i])
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
        yield "not", copy.deepcopy(node.operand)
    if isinstance(node, (ast.If, ast.IfExp)):
        for v in (True, False):
            n = copy.deepcopy(node)
            n.test = ast.Constant(v)
            yield f"if-{v}", n
    if isinstance(node, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise)) and not (
            isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant)):
        yield "del", ast.Pass()
    if isinstance(node, (ast.Continue, ast.Break)):
        yield "del", ast.Pass()
    if isinstance(node, ast.Return) and node.value is not None and not (isinstance(node.value, ast.Constant) and node.value.value is None):
        yield "ret-none", ast.Return(ast.Constant(None))
    if isinstance(node, ast.Return) and node.value is None:
        yield "del-ret", ast.Pass()
    if isinstance(node, ast.Constant):
        if isinstance(node.value, bool):
            yield "const", ast.Constant(not node.value)
        elif isinstance(node.value, int):
            yield "const+1", ast.Constant(node.value + 1)
            yield "const-1", ast.Constant(node.value - 1)
        elif node.value == "":
            yield "const", ast.Constant("x")
    if isinstance(node, ast.BinOp) and isinstance(node.op, (ast.Add, ast.Sub)):
        n = copy.deepcopy(node)
        n.op = ast.Sub() if isinstance(node.op, ast.Add) else ast.Add()
        yield "arith", n
        yield "arith-left", copy.deepcopy(node.left)
    if isinstance(node, ast.Attribute) and node.attr in SWAP:
        n = copy.deepcopy(node)
        n.attr = SWAP[node.attr]
        yield "attr", n
    if isinstance(node, ast.Call):
        if node.keywords:
            for i in range(len(node.keywords)):
                n = copy.deepcopy(node)
                del n.keywords[i]
                yield f"kw{i}", n
        if len(node.args) == 2 and not node.keywords:
            n = copy.deepcopy(node)
            n.args = n.args[::-1]
            yield "swap-args", n
    if isinstance(node, ast.Slice):
        for f in ("lower", "upper"):
            if getattr(node, f) is not None:
                n = copy.deepcopy(node)
                setattr(n, f, None)
                yield f"slice-{f}", n
    if isinstance(node, ast.comprehension) and node.ifs:
        n = copy.deepcopy(node)
        n.ifs = []
        yield "comp-if", n
    if isinstance(node, ast.For):
        n = copy.deepcopy(node)
        n.iter = ast.Call(ast.Name("list", ast.Load()), [copy.deepcopy(node.iter)], [])
        n.iter = ast.Subscript(n.iter, ast.Slice(ast.Constant(1), None, None), ast.Load())
        yield "for-skip-first", n
        n = copy.deepcopy(node)
        n.iter = ast.Subscript(ast.Call(ast.Name("list", ast.Load()), [copy.deepcopy(node.iter)], []),
                               ast.Slice(None, ast.UnaryOp(ast.USub(), ast.Constant(1)), None), ast.Load())
        yield "for-skip-last", n


def mutants(path):
    src = open(path).read()
    tree = ast.parse(src)
    spots = []

    def walk(node, func):
        for field, val in ast.iter_fields(node):
            items = val if isinstance(val, list) else [val]
            for i, ch in enumerate(items):
                if not isinstance(ch, ast.AST):
                    continue
                if field in ("returns", "annotation", "decorator_list"):
                    continue
                f = ch.name if isinstance(ch, (ast.FunctionDef, ast.ClassDef)) else func
                if isinstance(ch, ast.FunctionDef) and ch.name in ("__repr__", "show_structure"):
                    continue
                if isinstance(ch, ast.If) and isinstance(ch.test, ast.Attribute) and ch.test.attr == "version_info":
                    continue
                if func or isinstance(ch, (ast.FunctionDef, ast.ClassDef)):
                    for kind, new in variants(ch):
                        spots.append((node, field, i if isinstance(val, list) else None, ch, new, kind, f))
                walk(ch, f)
    walk(tree, "")
    seen = {ast.unparse(tree)}
    for node, field, i, old, new, kind, f in spots:
        if i is None:
            setattr(node, field, new)
        else:
            getattr(node, field)[i] = new
        try:
            out = ast.unparse(ast.fix_missing_locations(tree))
        except Exception:
            out = None
        if i is None:
            setattr(node, field, old)
        else:
            getattr(node, field)[i] = old
        if out is None or out in seen:
            continue
        seen.add(out)
        try:
            was, now = ast.unparse(old), ast.unparse(new)
        except Exception:
            was = now = "?"
        if isinstance(old, (ast.If, ast.For)):
            was, now = was.split("\n")[0], now.split("\n")[0]
        yield {"kind": kind, "func": f, "line": getattr(old, "lineno", 0), "was": was[:200], "now": now[:200], "text": out}


def job(args):
    rel, m, checks, scale = args
    d = f"/tmp/mut/{os.getpid()}"
    if not os.path.isdir(d):
        os.makedirs(d)
        shutil.copytree(REPO + "/src", d + "/src", ignore=shutil.ignore_patterns("__pycache__"))
        shutil.copytree(REPO + "/tests", d + "/tests", ignore=shutil.ignore_patterns("__pycache__"))
        shutil.copy(REPO + "/pyproject.toml", d)
    tgt = os.path.join(d, "src", rel)
    orig = open(os.path.join(REPO, "src", rel)).read()
    open(tgt, "w").write(m["text"])
    env = dict(os.environ, PYTHONPATH=d + "/src", PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX=d + "/nocache",
               ATGMON_SRC=d + "/src", ATGMON_WORKERS="1", ATGMON_SCALE=str(scale), ATGMON_EVID=d + "/ev",
               POLARS_MAX_THREADS="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", VERIF_TIER="quick")
    res = {"file": rel, **{k: v for k, v in m.items() if k != "text"}}
    try:
        p = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=d, env=env, capture_output=True, text=True, timeout=90)
        if p.returncode != 0:
            res["by"] = "tests"
            return res
        for c in checks:
            try:
                p = subprocess.run(["bash", "/verif/run.sh", c], env=env, capture_output=True, text=True, timeout=500)
            except subprocess.TimeoutExpired:
                res["by"], res["how"] = c, "timeout"
                return res
            if p.returncode == 1:
                res["by"] = c
                res["how"] = p.stdout.split("\n")[1].strip()[:200]
                return res
            if p.returncode != 0:
                res.setdefault("odd", []).append((c, p.stdout[-200:] + p.stderr[-300:]))
        res["by"] = None
        return res
    except subprocess.TimeoutExpired:
        res["by"] = "tests"
        return res
    finally:
        open(tgt, "w").write(orig)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--files", default="")
    ap.add_argument("--sample", type=int, default=0)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--scale", type=float, default=0.25)
    ap.add_argument("--checks", default="")
    ap.add_argument("--again", default="")
    ap.add_argument("-j", type=int, default=8)
    a = ap.parse_args()
    files = []
    for r, _, fs in os.walk(REPO + "/src"):
        files += [os.path.relpath(os.path.join(r, f), REPO + "/src") for f in fs if f.endswith(".py") and f != "__init__.py"]
    if a.files:
        files = [f for f in files if any(f.endswith(x) for x in a.files.split(","))]
    checks = a.checks.split(",") if a.checks else ["C04", "C11", "C08", "C12", "C06", "C01", "C02", "C20", "C05", "C09", "C07", "C13", "C22",
                                                   "C03", "C10", "C14", "C15", "C16", "C17", "C19", "C21", "C23", "C18"]
    first = {"to_dataframe.py": "C17", "polar_classes.py": "C19", "polar_grid.py": "C19", "custom_classes.py": "C22", "sequence_list.py": "C03",
             "points.py": "C16", "within.py": "C14", "sequences.py": "C01"}
    jobs = []
    keep = None
    if a.again:
        keep = {(r["file"], r["func"], r["kind"], r["was"], r["now"]) for r in map(json.loads, open(a.again)) if r["by"] is None}
    for f in sorted(files):
        pre = first.get(os.path.basename(f))
        cs = ([pre] if pre in checks else []) + [c for c in checks if c != pre]
        for m in mutants(os.path.join(REPO, "src", f)):
            if keep is None or (f, m["func"], m["kind"], m["was"], m["now"]) in keep:
                jobs.append((f, m, cs, a.scale))
    random.Random(a.seed).shuffle(jobs)
    if a.sample:
        jobs = jobs[:a.sample]
    print(len(jobs), "mutants", flush=True)
    tally = collections.Counter()
    with mp.Pool(a.j) as pool, open(a.out, "w") as out:
        for i, r in enumerate(pool.imap_unordered(job, jobs)):
            tally[str(r["by"])] += 1
            out.write(json.dumps(r) + "\n")
            out.flush()
            if i % 50 == 0:
                print(i, dict(tally), flush=True)
    print(dict(tally))
    subprocess.run(["rm", "-rf", "/tmp/mut"])


main()
