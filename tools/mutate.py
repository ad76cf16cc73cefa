"""Mutation campaign: which small changes of the code do the checks not see?

  mutate.py list [file...]            number of mutants per file
  mutate.py run OUT.jsonl [file...]   run the checks (reduced counts) on each mutant
  mutate.py tests OUT.jsonl TESTED.jsonl   run the stable tests on surviving mutants
Works on scratch copies below /tmp/mutants; never touches /repo.
"""
import ast
import copy
import json
import os
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
PKG = "fv3gfs/util"
SCRATCH = "/tmp/mutants"
PY = "/opt/venv/bin/python"
CHECKS = {
    "communicator.py": "C10 C09 C03 C01 C04 C02 C05 C30",
    "boundary.py": "C08 C07 C01",
    "_boundary_utils.py": "C08 C11 C12",
    "rotate.py": "C01 C02 C03 C08 C25",
    "partitioner.py": "C06 C07 C09 C14 C15 C01 C25",
    "quantity.py": "C13 C11 C12 C09 C03 C29 C30",
    "buffer.py": "C22 C09 C04",
    "utils.py": "C22 C23 C09 C06 C10",
    "zarr_monitor.py": "C15 C16 C30",
    "_legacy_restart.py": "C18",
    "_properties.py": "C18",
    "io.py": "C17 C24 C18",
    "filesystem.py": "C17 C18",
    "_xarray.py": "C17 C13 C18",
    "nudging.py": "C19",
    "_timing.py": "C20 C22",
    "_capture_stream.py": "C21",
    "_corners.py": "C14",
    "time.py": "C24 C18",
    "types.py": "", "units.py": "C19 C25 C26", "constants.py": "C06 C07 C01 C18",
    "initialization/sizer.py": "C23", "initialization/allocator.py": "C23",
    "_exceptions.py": "", "_optional_imports.py": "",
}


class Mutator:
    """enumerates mutants of a module: (description, line, source)"""

    def __init__(self, source):
        self.source = source
        self.tree = ast.parse(source)

    def mutants(self):
        n = 0
        while True:
            tree = copy.deepcopy(self.tree)
            m = self.apply(tree, n)
            if m is None:
                return
            n += 1
            if m == "skip":
                continue
            what, line = m
            try:
                yield what, line, ast.unparse(ast.fix_missing_locations(tree))
            except Exception:
                continue

    def apply(self, tree, n):
        k = 0
        for node, fields in self.sites(tree):
            for what, do in fields:
                if k == n:
                    line = getattr(node, "lineno", 0)
                    do()
                    return what, line
                k += 1
        return None

    def sites(self, tree):
        docs = set()
        for node in ast.walk(tree):
            if isinstance(node, (ast.Module, ast.FunctionDef, ast.ClassDef)):
                b = node.body
                for s in b:
                    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) and \
                            isinstance(s.value.value, str):
                        docs.add(id(s))
                        docs.add(id(s.value))
        anns = set()
        for node in ast.walk(tree):
            for f in ("annotation", "returns"):
                a = getattr(node, f, None)
                if a is not None:
                    for x in ast.walk(a):
                        anns.add(id(x))
            if isinstance(node, ast.Call) and ast.unparse(node.func).startswith(
                    ("logger", "warnings")):
                for x in ast.walk(node):
                    anns.add(id(x))
            if isinstance(node, ast.Raise):
                if isinstance(node.exc, ast.Call):
                    for a in node.exc.args:
                        for x in ast.walk(a):
                            anns.add(id(x))
        for node in ast.walk(tree):
            if id(node) in anns or id(node) in docs:
                continue
            out = []

            def setf(o, f, v):
                return lambda: setattr(o, f, v)

            if isinstance(node, ast.Compare) and len(node.ops) == 1:
                swap = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt],
                        ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
                        ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot],
                        ast.IsNot: [ast.Is]}
                for o in swap.get(type(node.ops[0]), []):
                    out.append((f"{ast.unparse(node)} -> {o.__name__}",
                                setf(node, "ops", [o()])))
            if isinstance(node, ast.BinOp):
                swap = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.FloorDiv],
                        ast.Div: [ast.Mult], ast.FloorDiv: [ast.Mult], ast.Mod: [ast.FloorDiv]}
                for o in swap.get(type(node.op), []):
                    out.append((f"{ast.unparse(node)} -> {o.__name__}", setf(node, "op", o())))
                if isinstance(node.op, (ast.Add, ast.Sub, ast.Mod)):
                    out.append((f"{ast.unparse(node)} -> left",
                                lambda node=node: node.__dict__.update(
                                    op=ast.Mult(), right=ast.Constant(1))))
            if isinstance(node, ast.BoolOp):
                o = ast.Or if isinstance(node.op, ast.And) else ast.And
                out.append((f"{ast.unparse(node)} -> {o.__name__}", setf(node, "op", o())))
                for i in range(len(node.values)):
                    out.append((f"{ast.unparse(node)} drop {i}",
                                lambda node=node, i=i: node.values.pop(i) if len(
                                    node.values) > 2 else node.__dict__.update(
                                        values=[node.values[1 - i]] * 2)))
            if isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.USub, ast.Not)):
                new = ast.UAdd() if isinstance(node.op, ast.USub) else None
                if new:
                    out.append((f"{ast.unparse(node)} -> +", setf(node, "op", new)))
            if isinstance(node, ast.Constant):
                v = node.value
                if isinstance(v, bool):
                    out.append((f"{v} -> {not v}", setf(node, "value", not v)))
                elif isinstance(v, int):
                    for w in {v + 1, v - 1}:
                        out.append((f"{v} -> {w}", setf(node, "value", w)))
                elif isinstance(v, str) and v and len(v) < 40:
                    out.append((f"{v!r} -> other", setf(node, "value", v + "_x")))
                elif v is None and False:
                    pass
            if isinstance(node, (ast.If, ast.IfExp, ast.While)):
                t = ast.unparse(node.test)
                if not isinstance(node, ast.While):
                    out.append((f"if {t} -> True", setf(node, "test", ast.Constant(True))))
                out.append((f"if {t} -> False", setf(node, "test", ast.Constant(False))))
            if isinstance(node, ast.Return) and node.value is not None:
                out.append((f"return {ast.unparse(node.value)[:40]} -> None",
                            setf(node, "value", ast.Constant(None))))
            if isinstance(node, ast.Call):
                for i in range(len(node.keywords)):
                    out.append((f"{ast.unparse(node)[:60]} drop kw {node.keywords[i].arg}",
                                lambda node=node, i=i: node.keywords.pop(i)))
                if len(node.args) == 2 and not any(isinstance(a, ast.Starred)
                                                   for a in node.args):
                    out.append((f"{ast.unparse(node)[:60]} swap args",
                                lambda node=node: node.args.reverse()))
            if isinstance(node, ast.Tuple) and len(node.elts) == 2 and isinstance(
                    node.ctx, ast.Load):
                out.append((f"{ast.unparse(node)[:60]} swap",
                            lambda node=node: node.elts.reverse()))
            if isinstance(node, ast.Slice):
                for f in ("lower", "upper"):
                    if getattr(node, f) is not None:
                        out.append((f"{ast.unparse(node)} drop {f}", setf(node, f, None)))
            if isinstance(node, ast.Attribute) and node.attr in (
                    "lower", "strip", "copy", "origin", "extent", "dims", "dtype"):
                pass
            if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and \
                    node.func.attr in ("copy", "strip", "transpose"):
                out.append((f"{ast.unparse(node)[:60]} -> no {node.func.attr}",
                            lambda node=node: node.__dict__.update(
                                func=ast.Name("_same", ast.Load()),
                                args=[node.func.value], keywords=[])))
            if hasattr(node, "body") and isinstance(node.body, list):
                for f in ("body", "orelse", "finalbody"):
                    lst = getattr(node, f, None) or []
                    for i, s in enumerate(lst):
                        if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise,
                                          ast.Delete, ast.For, ast.Continue, ast.Break)) and \
                                id(s) not in docs and not isinstance(node, ast.Module):
                            out.append((f"delete {ast.unparse(s)[:70]}",
                                        lambda lst=lst, i=i: lst.__setitem__(i, ast.Pass())))
                            out[-1] = (out[-1][0] + f" @{s.lineno}", out[-1][1])
            if out:
                yield node, out


def targets(names):
    return names or [f for f in CHECKS if CHECKS[f]]


def run_one(job):
    file, what, line, source, slot = job
    w = slot.pop()
    try:
        root = f"{SCRATCH}/w{w}"
        path = f"{root}/{PKG}/{file}"
        shutil.copy(f"{REPO}/{PKG}/{file}", path + ".orig")
        with open(path, "w") as f:
            f.write("def _same(x):\n    return x\n\n\n" * ("_same(" in source) + source)
        env = dict(os.environ, VERIF_REPO=root, VERIF_WORKERS="1", VERIF_SEED="1",
                   PYTHONHASHSEED="0", OMP_NUM_THREADS="1")
        t = time.time()
        try:
            r = subprocess.run([PY, f"{HERE}/tools/mutrun.py"] + CHECKS[file].split(), env=env,
                               cwd=HERE, capture_output=True, text=True, timeout=900)
            out = r.stdout.strip().splitlines()
            verdict = out[-1] if out else "crash: " + r.stderr.strip()[-200:]
        except subprocess.TimeoutExpired:
            verdict = "timeout"
        shutil.move(path + ".orig", path)
        return dict(file=file, what=what, line=line, verdict=verdict,
                    wall=round(time.time() - t, 1))
    finally:
        slot.append(w)


def all_mutants(files):
    for f in files:
        with open(f"{REPO}/{PKG}/{f}") as h:
            src = h.read()
        for what, line, new in Mutator(src).mutants():
            yield f, what, line, new


def copies(n, whole=False):
    shutil.rmtree(SCRATCH, ignore_errors=True)
    for w in range(n):
        os.makedirs(f"{SCRATCH}/w{w}")
        if whole:
            subprocess.run(["cp", "-a", REPO, f"{SCRATCH}/w{w}/repo"], check=True)
        else:
            shutil.copytree(f"{REPO}/fv3gfs", f"{SCRATCH}/w{w}/fv3gfs",
                            ignore=shutil.ignore_patterns("__pycache__"))


def main():
    cmd = sys.argv[1]
    if cmd == "list":
        for f in targets(sys.argv[2:]):
            print(f, sum(1 for _ in all_mutants([f])))
    elif cmd == "run":
        n = 8
        copies(n)
        slot = list(range(n))
        jobs = [m + (slot,) for m in all_mutants(targets(sys.argv[3:]))]
        with open(sys.argv[2], "a") as out, ThreadPoolExecutor(n) as pool:
            for r in pool.map(run_one, jobs):
                out.write(json.dumps(r) + "\n")
                out.flush()
        shutil.rmtree(SCRATCH)
    elif cmd == "show":
        for l in open(sys.argv[2]):
            r = json.loads(l)
            if not r["verdict"].startswith("killed"):
                print(f"{r['file']}:{r['line']} {r['what']}  [{r['verdict']}]")


if __name__ == "__main__":
    main()
