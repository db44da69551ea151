#!/usr/bin/env python3
"""mutate.py OUT.jsonl N SEED [--files f1,f2] [--scale F]: random small changes
of glum's Python sources that the stable tests do not notice, and what the
checks say about them. Works on a scratch copy (/tmp/p/mut), never in /repo."""
import argparse
import ast
import json
import os
import random
import shutil
import subprocess
import sys
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
WORK = Path(os.environ.get("MUT_DIR", "/tmp/p/mut"))
FILES = ["_distribution.py", "_formula.py", "_glm.py", "_glm_cv.py", "_linalg.py", "_link.py", "_solvers.py", "_utils.py", "_validation.py"]
ORDER = {
    "_distribution.py": "C14 C16 C15 C01 C19 C27 C02 C18",
    "_formula.py": "C24 C05 C22",
    "_glm_cv.py": "C13 C29 C12 C11 C25 C07 C26",
    "_linalg.py": "C06 C09 C10 C16 C30 C02",
    "_link.py": "C17 C16 C27 C01",
    "_solvers.py": "C01 C28 C02 C03 C04 C05 C11 C18",
    "_utils.py": "C30 C08 C22 C23 C20 C26 C29",
    "_validation.py": "C26 C07 C06",
    "_glm.py": "C26 C25 C21 C19 C20 C22 C24 C11 C12 C30 C07",
}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}


def mutants(src):
    """(line, description, start offset, end offset, replacement)"""
    tree = ast.parse(src)
    lines = [0]
    for l in src.encode().splitlines(keepends=True):
        lines.append(lines[-1] + len(l))
    b = src.encode()
    pos = lambda n: (lines[n.lineno - 1] + n.col_offset, lines[n.end_lineno - 1] + n.end_col_offset)
    seg = lambda n: b[slice(*pos(n))].decode()
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Raise) or (isinstance(n, ast.Call) and "warn" in ast.unparse(n.func)):
            skip |= {id(m) for m in ast.walk(n)}
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            for d in n.decorator_list:
                skip |= {id(m) for m in ast.walk(d)}
            if isinstance(n, ast.FunctionDef):
                for a in [*n.args.args, *n.args.kwonlyargs]:
                    if a.annotation is not None:
                        skip |= {id(m) for m in ast.walk(a.annotation)}
                if n.returns is not None:
                    skip |= {id(m) for m in ast.walk(n.returns)}
                if n.name in ("__repr__", "__str__", "_more_tags", "__sklearn_tags__"):
                    skip |= {id(m) for m in ast.walk(n)}
    out = []

    def add(n, kind, new):
        if seg(n) != new and "verbose" not in seg(n):
            out.append((n.lineno, f"{kind}: {' '.join(seg(n).split())[:90]} -> {' '.join(new.split())[:90]}", *pos(n), new))

    for n in ast.walk(tree):
        if id(n) in skip and not isinstance(n, ast.Raise):
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            add(n, "cmp", f"({seg(n.left)} {CMP[type(n.ops[0])]} {seg(n.comparators[0])})")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, (ast.Constant, ast.JoinedStr)):
            add(n, "bin", f"({seg(n.left)} {BIN[type(n.op)]} {seg(n.right)})")
            add(n, "left", f"({seg(n.left)})")
        elif isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            add(n, "bool", "(" + op.join(f"({seg(v)})" for v in n.values) + ")")
            for v in n.values:
                rest = [w for w in n.values if w is not v]
                o = " and " if isinstance(n.op, ast.And) else " or "
                add(n, "drop", "(" + o.join(f"({seg(w)})" for w in rest) + ")")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            add(n, "unary", f"({seg(n.operand)})")
        elif isinstance(n, ast.Call) and "warn" not in ast.unparse(n.func):
            for k in n.keywords:
                m = ast.Call(n.func, n.args, [j for j in n.keywords if j is not k])
                add(n, f"kw {k.arg}", ast.unparse(m))
            f = n.func
            if isinstance(f, ast.Attribute) and f.attr in ("copy", "astype", "ravel", "sum", "sort"):
                add(n, "call", seg(f.value))
            if len(n.args) == 2 and not n.keywords and ast.unparse(f) not in ("isinstance", "hasattr", "getattr", "cast"):
                add(n, "swap", f"{seg(f)}({seg(n.args[1])}, {seg(n.args[0])})")
        elif isinstance(n, ast.If):
            add(n.test, "if true", "True")
            add(n.test, "if false", "False")
        elif isinstance(n, ast.IfExp):
            add(n, "then", f"({seg(n.body)})")
            add(n, "else", f"({seg(n.orelse)})")
        elif isinstance(n, ast.Constant) and type(n.value) in (int, float):
            add(n, "const", repr(n.value + 1) if type(n.value) is int else repr(n.value * 2 + 0.5 * (n.value == 0)))
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Raise)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
            add(n, "delete", "pass")
        elif isinstance(n, ast.Attribute) and n.attr in ("min", "max"):
            add(n, "minmax", seg(n.value) + (".max" if n.attr == "min" else ".min"))
    return out


PLUG = '''
import json, os
S = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def pytest_collection_modifyitems(config, items):
    def ok(i):
        p, _, r = i.nodeid.partition("::")
        return (p[:-3].replace("/", ".") if p.endswith(".py") else p) + "::" + r in S
    items[:] = [i for i in items if ok(i)]
'''


def tests(repo):
    (WORK / "plug").mkdir(exist_ok=True)
    (WORK / "plug/stableplug.py").write_text(PLUG)
    env = dict(os.environ, PYTHONPATH=f"{repo}/src:{repo}:{WORK}/plug", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg")
    try:
        r = subprocess.run(
            "/opt/venv/bin/python -m pytest -q -x -n 8 -p no:cacheprovider -p stableplug --timeout=60 tests/glm glum_benchmarks/tests",
            shell=True, cwd=repo, env=env, capture_output=True, text=True, timeout=300)
    except subprocess.TimeoutExpired:
        return False, "timeout"
    return r.returncode == 0, (r.stdout.strip().splitlines() or ["?"])[-1]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("n", type=int)
    ap.add_argument("seed", type=int)
    ap.add_argument("--files", default=",".join(FILES))
    ap.add_argument("--scale", default="0.3")
    ap.add_argument("--checks", default="")
    ap.add_argument("--skip", type=int, default=0)
    a = ap.parse_args()
    repo = WORK / "repo"
    WORK.mkdir(parents=True, exist_ok=True)
    if not repo.exists():
        shutil.copytree("/tmp/p/cleanrepo", repo, symlinks=True)
    orig = {f: Path("/tmp/p/cleanrepo/src/glum", f).read_bytes() for f in a.files.split(",")}
    pool = [(f, m) for f in orig for m in mutants(orig[f].decode())]
    random.Random(a.seed).shuffle(pool)
    print(len(pool), "mutants", flush=True)
    allchecks = [f"C{i:02d}" for i in range(1, 35)]
    for f, (line, desc, s, e, new) in pool[a.skip : a.n]:
        t = repo / "src/glum" / f
        code = orig[f][:s] + new.encode() + orig[f][e:]
        try:
            compile(code, f, "exec")
        except SyntaxError:
            continue
        t.write_bytes(code)
        rec = dict(file=f, line=line, desc=desc)
        ok, msg = tests(repo)
        if ok:
            order = a.checks.split(",") if a.checks else ORDER[f].split() + [c for c in allchecks if c not in ORDER[f].split()]
            rec["caught"] = None
            for c in order:
                try:
                    r = subprocess.run([str(VERIF / "run.py"), c, "--scale", a.scale], env=dict(os.environ, VERIF_REPO=str(repo), VERIF_SEED="1"), capture_output=True, text=True, timeout=900)
                except subprocess.TimeoutExpired:
                    rec["caught"] = [c, "timeout"]
                    break
                if r.returncode:
                    rec["caught"] = [c, r.returncode, (r.stdout + r.stderr)[-300:]]
                    break
        else:
            rec["tests"] = msg[-100:]
        t.write_bytes(orig[f])
        with open(a.out, "a") as h:
            h.write(json.dumps(rec) + "\n")
        if ok:
            print(f, line, desc, "|", (rec["caught"] or ["SURVIVED"])[:2], flush=True)


main()
