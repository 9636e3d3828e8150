"""Mutation campaign: random small changes to gdspy's Python code, kept if the
repository's own tests pass with them, then shown to the checks.

  mutate.py OUT.jsonl N SEED [--files a,b] [--checks C01,..] [--secs S] [--jobs J]

Works on copies under /tmp only; needs VERIF_BUILT unset.  A developer's tool:
no check uses it.
"""
import ast
import concurrent.futures as cf
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
FILES = ["library.py", "gdsiiformat.py", "label.py", "path.py", "polygon.py", "operation.py", "curve.py", "hobby.py", "viewer.py"]
ORDER = {"library.py": "C11 C02 C12 C07 C01 C13 C14 C03 C04 C08 C09 C06 C05 C16 C15 C10", "gdsiiformat.py": "C02 C05 C06 C03 C04 C14 C01 C09 C07 C08 C11 C12 C13",
         "viewer.py": "C16 C09", "path.py": "C10 C02 C11 C07 C08 C09 C01 C13 C15", "operation.py": "C15 C09 C07", "label.py": "C11 C02 C07 C01 C09 C16"}


class Offsets(object):
    def __init__(self, text):
        self.starts = [0]
        for l in text.encode().split(b"\n"):
            self.starts.append(self.starts[-1] + len(l) + 1)

    def span(self, n):
        return self.starts[n.lineno - 1] + n.col_offset, self.starts[n.end_lineno - 1] + n.end_col_offset


def candidates(text):
    """(start, end, replacement, kind) of every mutation, in bytes."""
    tree = ast.parse(text)
    raw = text.encode()
    off = Offsets(text)
    out = []

    def src(n):
        a, b = off.span(n)
        return raw[a:b].decode()

    def put(n, new, kind):
        a, b = off.span(n)
        if raw[a:b].decode() != new:
            out.append((a, b, new, kind, n.lineno))
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(n.body[0])
    swap = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
    arith = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.BitAnd: "|", ast.BitOr: "&", ast.Mod: "//", ast.FloorDiv: "/"}
    for n in ast.walk(tree):
        if n in docs:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in swap:
            put(n, "(%s %s %s)" % (src(n.left), swap[type(n.ops[0])], src(n.comparators[0])), "compare")
        elif isinstance(n, ast.BinOp) and type(n.op) in arith and not isinstance(n.left, ast.Constant):
            put(n, "(%s %s %s)" % (src(n.left), arith[type(n.op)], src(n.right)), "arith")
        elif isinstance(n, ast.BoolOp):
            put(n, "(" + (" or " if isinstance(n.op, ast.And) else " and ").join("(%s)" % src(v) for v in n.values) + ")", "boolop")
            for k in range(len(n.values)):
                rest = [v for i, v in enumerate(n.values) if i != k]
                put(n, "(" + (" and " if isinstance(n.op, ast.And) else " or ").join("(%s)" % src(v) for v in rest) + ")", "dropcond")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            put(n, "(%s)" % src(n.operand), "unary")
        elif isinstance(n, ast.Constant) and not isinstance(n.value, str) and not isinstance(n.value, bytes):
            v = n.value
            if v is True or v is False:
                put(n, str(not v), "bool")
            elif isinstance(v, (int, float)):
                put(n, repr(v + 1), "const")
                if v:
                    put(n, "0", "const")
        elif isinstance(n, (ast.If, ast.While)) and isinstance(n, ast.If):
            put(n.test, "True", "iftrue")
            put(n.test, "False", "iffalse")
        elif isinstance(n, ast.IfExp):
            put(n, "(%s)" % src(n.body), "ifexp")
            put(n, "(%s)" % src(n.orelse), "ifexp")
        elif isinstance(n, ast.Call):
            f = src(n.func)
            if f in ("numpy.array", "list", "dict", "tuple", "sorted", "set", "numpy.round", "abs", "numpy.abs", "int", "float", "max", "min", "reversed", "libcopy.deepcopy",
                     "libcopy.copy") and n.args:
                put(n, "(%s)" % src(n.args[0]), "unwrap")
            if f == "sorted":
                put(n, "list(%s)" % src(n.args[0]), "unsort")
            if f == "max":
                put(n, "min" + src(n)[3:], "minmax")
            if f == "min":
                put(n, "max" + src(n)[3:], "minmax")
            for k in n.keywords:
                if k.arg:
                    parts = [src(a) for a in n.args] + ["%s=%s" % (q.arg, src(q.value)) if q.arg else "**" + src(q.value) for q in n.keywords if q is not k]
                    if not any(isinstance(a, ast.GeneratorExp) for a in n.args):
                        put(n, "%s(%s)" % (f, ", ".join(parts)), "dropkw")
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Delete, ast.Continue, ast.Break)):
            put(n, "pass", "delete")
        if isinstance(n, ast.Return) and n.value is not None:
            put(n, "return None", "return")
        if isinstance(n, ast.Try) and n.finalbody:
            for s in n.finalbody:
                put(s, "pass", "finally")
        for name in ("body", "orelse"):
            b = getattr(n, name, None)
            if isinstance(b, list):
                for x, y in zip(b, b[1:]):
                    simple = (ast.Expr, ast.Assign, ast.AugAssign)
                    if isinstance(x, simple) and isinstance(y, simple) and x not in docs and x.end_lineno < y.lineno:
                        a0, a1 = off.span(x)
                        b0, b1 = off.span(y)
                        out.append((a0, b1, raw[b0:b1].decode() + raw[a1:b0].decode() + raw[a0:a1].decode(), "swap", x.lineno))
    return out


def run(cmd, cwd, env, t):
    import signal
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=t)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return -9, "timeout"


def one(job):
    base, built, f, cand, checks, secs, stop = job
    w = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    try:
        shutil.copytree(base, w + "/repo", symlinks=True)
        p = w + "/repo/gdspy/" + f
        raw = open(p, "rb").read()
        a, b, new, kind, line = cand
        m = raw[:a] + new.encode() + raw[b:]
        rec = {"file": f, "line": line, "kind": kind, "old": raw[a:b].decode(), "new": new}
        try:
            compile(m, f, "exec")
        except SyntaxError:
            return dict(rec, result="syntax")
        open(p, "wb").write(m)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONPATH=w + "/repo")
        env.pop("VERIF_BUILT", None)
        rc, o = (0, "") if NOTEST else run([PY, "-W", "ignore", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-x", "--timeout=45", "--basetemp", w + "/t", "tests"], w + "/repo", env, 150)
        if rc != 0:
            return dict(rec, result="tests")
        shutil.copytree(built, w + "/built", symlinks=True)
        open(w + "/built/gdspy/" + f, "wb").write(m)
        env = dict(os.environ, VERIF_BUILT=w + "/built", TMPDIR=w, VERIF_JOBS="1")
        found = {}
        for c in checks:
            rc, o = run([HERE + "/run.sh", "survey", c, "--n", "100000", "--first", "1", "--w", "120", "--secs", str(secs), "--seed", "7"], HERE, env, secs * 3 + 60)
            bad = [l for l in o.splitlines() if " e.g. seed" in l]
            if bad:
                found[c] = bad[0].strip()[:160]
                if stop:
                    break
            elif "runs" not in o:
                found[c] = "?? " + o[-200:]
                if stop:
                    break
        return dict(rec, result="caught" if found else "SURVIVED", found=found)
    finally:
        shutil.rmtree(w, ignore_errors=True)


NOTEST = False


def main():
    global NOTEST
    NOTEST = "--redo" in sys.argv
    out, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    opt = dict(zip(sys.argv[4::2], sys.argv[5::2]))
    files = opt.get("--files", ",".join(FILES)).split(",")
    secs = int(opt.get("--secs", 10))
    jobs = int(opt.get("--jobs", 7))
    base = tempfile.mkdtemp(prefix="mutbase-", dir="/tmp")
    shutil.rmtree(base)
    subprocess.run(["git", "-C", "/repo", "worktree", "prune"])
    shutil.copytree("/repo", base, symlinks=True, ignore=shutil.ignore_patterns(".git", "docs", "build"))
    built = subprocess.run([PY, HERE + "/sim/build.py", tempfile.mkdtemp(prefix="mutbuilt-", dir="/tmp")], stdout=subprocess.PIPE, text=True, cwd=HERE).stdout.strip().splitlines()[-1]
    rng = random.Random(seed)
    lo, hi = (int(x) for x in opt.get("--lines", "0-100000").split("-"))
    allc = []
    for f in files:
        allc += [(f, c) for c in candidates(open("/repo/gdspy/" + f).read()) if lo <= c[4] <= hi and ("--kinds" not in opt or c[3] in opt["--kinds"].split(","))]
    rng.shuffle(allc)
    # no more than one per line
    seen, pick = set(), []
    for f, c in allc:
        if (f, c[4]) not in seen or "--all" in opt:
            seen.add((f, c[4]))
            pick.append((f, c))
    pick = pick[:n]
    if "--redo" in opt:
        # survivors of an earlier campaign, shown to the checks for longer
        old = [json.loads(l) for l in open(opt["--redo"])]
        old = set((r["file"], r["line"], r["old"], r["new"]) for r in old if r["result"] == "SURVIVED")
        pick = []
        for f in FILES:
            raw = open("/repo/gdspy/" + f, "rb").read()
            pick += [(f, c) for c in candidates(raw.decode()) if (f, c[4], raw[c[0]:c[1]].decode(), c[2]) in old]
    try:
        with cf.ThreadPoolExecutor(jobs) as ex, open(out, "a") as o:
            fs = []
            for f, c in pick:
                checks = opt["--checks"].split(",") if "--checks" in opt and f != "viewer.py" else ["C16"] if "--checks" in opt else ORDER.get(f, "C11 C10 C02 C07 C09 C13").split()
                fs.append(ex.submit(one, (base, built, f, c, checks, secs, "--full" not in opt)))
            for x in cf.as_completed(fs):
                r = x.result()
                o.write(json.dumps(r) + "\n")
                o.flush()
    finally:
        shutil.rmtree(base, ignore_errors=True)
        shutil.rmtree(built, ignore_errors=True)


if __name__ == "__main__":
    main()
