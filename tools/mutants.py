#!/usr/bin/env python3
"""Mechanical mutants of /repo/geec against the checks (not a registered check).

usage: tools/mutants.py OUT.jsonl [--jobs N] [--list] [FILE ...]

Small edits of the syntax tree (operators, comparisons, constants, conditions, statements left
out), one at a time in a scratch copy.  Those that pass the stable tests are tried with the
checks of the file until one reports a violation; OUT gets one line per mutant.  Survivors are
to be read: either they do the same, or a check is missing something.
"""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor, as_completed

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
SCALE = os.environ.get("VERIF_SCALE", "0.3")
ORDER = {
    "polyhedron.py": "C01 C02 C12 C09 C10 C07 C11 C27 C08 C04 C03 C06 C05",
    "station.py": "C06 C10 C11 C07 C21",
    "utils.py": "C01 C02 C11",
    "crs.py": "C13 C14 C15 C16 C17 C19 C22 C25",
    "dataset.py": "C16 C13 C20 C17 C15 C22 C21 C25",
    "mass.py": "C16 C21 C22 C13 C14 C17",
    "observer.py": "C21 C22 C16 C13",
    "config.py": "C18 C28 C24 C25",
    "api.py": "C23 C28 C25 C21",
    "cli.py": "C21 C22 C24 C25 C26 C23 C28",
    "__main__.py": "C21 C25",
}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==",
       ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*", ast.Mod: "*"}
SKIP = ("__rich_repr__", "__repr__")


def mutants(src):
    """(line, text, new source)"""
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    start = [0]
    for x in lines:
        start.append(start[-1] + len(x.encode()))
    raw = src.encode()
    out = []

    def span(n):
        return (start[n.lineno - 1] + n.col_offset, start[n.end_lineno - 1] + n.end_col_offset)

    def text(n):
        a, b = span(n)
        return raw[a:b].decode()

    def put(n, new, what=None):
        a, b = span(n)
        out.append((n.lineno, what or "%s -> %s" % (text(n)[:60], new[:60]),
                    (raw[:a] + new.encode() + raw[b:]).decode()))

    def is_log(n):
        return isinstance(n, ast.Call) and text(n).startswith("logger.")

    def visit(n, fn=None):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name in SKIP:
            return
        if isinstance(n, ast.If) and "__name__" in text(n.test):
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.Expr) and is_log(n.value) and "{" not in text(n):
            return
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            op = CMP[type(n.ops[0])]
            put(n, "%s %s %s" % (text(n.left), op, text(n.comparators[0])))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not (
                isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            put(n, "(%s %s %s)" % (text(n.left), BIN[type(n.op)], text(n.right)))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            put(n, "(%s)" % text(n.operand))
        elif isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            put(n, "(%s)" % op.join(text(v) for v in n.values))
            for v in n.values:
                put(n, "(%s)" % text(v))
        elif isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                put(n, repr(not v))
            elif isinstance(v, int):
                put(n, str(v + 1))
                if v:
                    put(n, "(%d)" % (v - 1))
            elif isinstance(v, float):
                put(n, repr(v * 1.001))
            elif isinstance(v, str) and v and " " not in v and text(n)[:1] in "\"'" \
                    and fn is not None:
                put(n, repr(v + "x"))
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            put(n.test, "True", "if %s -> True" % text(n.test)[:60])
            put(n.test, "False", "if %s -> False" % text(n.test)[:60])
        elif isinstance(n, ast.Break):
            put(n, "continue")
        elif isinstance(n, ast.keyword) and n.arg and fn is not None:
            pass
        elif isinstance(n, ast.Call) and len(n.args) >= 2 and not is_log(n):
            a, b = n.args[0], n.args[1]
            (a0, a1), (b0, b1) = span(a), span(b)
            if text(a) != text(b) and not isinstance(a, ast.Starred):
                out.append((n.lineno, "arguments exchanged: %s" % text(n)[:60],
                            (raw[:a0] + raw[b0:b1] + raw[a1:b0] + raw[a0:a1] + raw[b1:]).decode()))
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Return)) \
                and fn is not None:
            put(n, "pass", "left out: %s" % text(n)[:70])
        if isinstance(n, ast.Call) and n.keywords and not is_log(n) and fn is not None:
            for k in n.keywords:
                if k.arg is None:
                    continue
                args = [text(a) for a in n.args] + [
                    "%s=%s" % (q.arg, text(q.value)) if q.arg else "**" + text(q.value)
                    for q in n.keywords if q is not k]
                put(n, "%s(%s)" % (text(n.func), ", ".join(args)),
                    "%s without %s" % (text(n.func), k.arg))
        for c in ast.iter_child_nodes(n):
            if isinstance(n, (ast.FunctionDef, ast.AnnAssign)) and c in (
                    getattr(n, "returns", None), getattr(n, "annotation", None)):
                continue
            if isinstance(c, ast.arg):
                continue
            visit(c, n if isinstance(n, ast.FunctionDef) else fn)

    visit(tree)
    good, seen = [], set()
    for ln, what, new in out:
        if new in seen or new == src:
            continue
        seen.add(new)
        try:
            ast.parse(new)
        except SyntaxError:
            continue
        good.append((ln, what, new))
    return good


def sh(cmd, cwd, env=None, timeout=900):
    try:
        return subprocess.run(cmd, cwd=cwd, env={**os.environ, **(env or {})}, text=True,
                              capture_output=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None


def one(job):
    fn, ln, what, new = job
    top = tempfile.mkdtemp(prefix="geec-mut-")
    w = os.path.join(top, "repo")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", w], check=True)
        with open(os.path.join(w, "geec", fn), "w") as f:
            f.write(new)
        res = {"file": fn, "line": ln, "what": what}
        r = sh([PY, "-m", "pytest", "tests", "-q", "-x", "-p", "no:cacheprovider",
                "--ignore=tests/test_crs.py", "--ignore=tests/test_geec.py"], w,
               {"PYTHONPATH": w}, 120)
        if r is None or "11 passed" not in r.stdout:
            return dict(res, by="tests")
        for p in ORDER[fn].split():
            r = sh([PY, "run.py", p], HERE, {"VERIF_REPO": w, "VERIF_OUT": top,
                                             "VERIF_SEED": "1", "VERIF_TIER": "quick",
                                             "VERIF_SCALE": SCALE})
            if r is None:
                return dict(res, by=p + " timeout")
            if r.returncode == 1 and "VIOLATION" in r.stdout:
                return dict(res, by=p)
            if r.returncode:
                return dict(res, by="%s error %d" % (p, r.returncode), err=r.stderr[-400:])
        return dict(res, by=None)
    finally:
        shutil.rmtree(top, ignore_errors=True)


def main():
    a = sys.argv[1:]
    jobs = 3
    if "--jobs" in a:
        i = a.index("--jobs")
        jobs = int(a[i + 1])
        del a[i:i + 2]
    only = "--list" in a
    a = [x for x in a if x != "--list"]
    out, files = a[0], a[1:] or list(ORDER)
    todo = []
    for fn in files:
        src = open("/repo/geec/" + fn).read()
        todo += [(fn, *m) for m in mutants(src)]
    done = set()
    if os.path.exists(out):
        for x in open(out):
            d = json.loads(x)
            done.add((d["file"], d["line"], d["what"]))
    todo = [t for t in todo if t[:3] not in done]
    random.Random(1).shuffle(todo)
    print(len(todo), "mutants")
    if only:
        for t in todo:
            print(*t[:3])
        return
    with ThreadPoolExecutor(jobs) as ex, open(out, "a") as f:
        for r in as_completed([ex.submit(one, t) for t in todo]):
            f.write(json.dumps(r.result()) + "\n")
            f.flush()


if __name__ == "__main__":
    main()
