"""Systematic small changes of the package that pass its tests, run against the checks.

usage: mutate.py OUT.jsonl [--files SUBSTRING] [--sample N] [--seed N] [--jobs N]
Not a check: it measures the checks. Works on scratch copies only.
"""
import argparse
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = "/opt/venv/bin/python"
ORDER = "C22 C17 C13 C05 C07 C12 C11 C14 C03 C10 C09 C02 C04 C01 C08 C06 C18 C21 C19 C20 C30 C26 C29 C27 C28 C25 C23 C32 C15 C16 C24 C31".split()
FIRST = {
    "transport.py": "C23 C25 C32 C28 C24",
    "parameters/": "C17 C19 C20 C30 C18",
    "security.py": "C09 C10 C26",
    "frames.py": "C02 C03",
    "integration.py": "C20",
    "application.py": "C05 C07 C08 C30",
    "exceptions.py": "C14",
    "state.py": "C13",
    "parser.py": "C18 C30",
    "client.py": "C22 C21",
    "connection.py": "C13 C12 C14 C11 C04 C27",
}

CMP = {ast.Lt: [ast.LtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq, ast.GtE],
       ast.NotEq: [ast.Eq, ast.Gt], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Add], ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitAnd],
       ast.LShift: [ast.RShift], ast.RShift: [ast.LShift], ast.Mod: [ast.FloorDiv], ast.BitXor: [ast.BitOr], ast.Div: [ast.Mult]}


ONLY = []  # checks to ask besides those named in FIRST; empty: all


def is_log(node):
    return isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and isinstance(node.func.value, ast.Name) and node.func.value.id == "LOG"


def mutants(source):
    """Yields (description, line, function(tree) applied to a copy)."""
    tree = ast.parse(source)
    nodes = list(ast.walk(tree))
    skip = set()
    for n in nodes:
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            skip.update(map(id, ast.walk(n)))
        if is_log(n):
            skip.update(map(id, ast.walk(n)))
        if isinstance(n, (ast.AnnAssign, ast.arg)) and n.annotation is not None:
            skip.update(map(id, ast.walk(n.annotation)))
        if isinstance(n, ast.FunctionDef) and n.returns is not None:
            skip.update(map(id, ast.walk(n.returns)))
        if isinstance(n, ast.JoinedStr):
            skip.update(map(id, ast.walk(n)))
        if isinstance(n, ast.Raise) and n.exc is not None:
            skip.update(map(id, ast.walk(n.exc)))

    def change(i, fn):
        def go():
            t = copy.deepcopy(tree)
            fn(list(ast.walk(t))[i])
            return ast.unparse(ast.fix_missing_locations(t))
        return go

    for i, n in enumerate(nodes):
        if id(n) in skip:
            continue
        line = getattr(n, "lineno", 0)
        if isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                yield f"{v} -> {not v}", line, change(i, lambda m, v=v: setattr(m, "value", not v))
            elif isinstance(v, int):
                for w in {v + 1, v - 1, 0} - {v}:
                    if w < 0 and v >= 0:
                        continue
                    yield f"{v} -> {w}", line, change(i, lambda m, w=w: setattr(m, "value", w))
            elif isinstance(v, bytes) and v:
                for w in {bytes(v[:-1]) + bytes((v[-1] ^ 1,)), b""}:
                    yield f"{v} -> {w}", line, change(i, lambda m, w=w: setattr(m, "value", w))
            elif v in ("little", "big"):
                w = "big" if v == "little" else "little"
                yield f"{v} -> {w}", line, change(i, lambda m, w=w: setattr(m, "value", w))
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            for op in CMP.get(type(n.ops[0]), ()):
                yield f"{type(n.ops[0]).__name__} -> {op.__name__}", line, change(i, lambda m, op=op: m.ops.__setitem__(0, op()))
        elif isinstance(n, ast.BinOp):
            for op in BIN.get(type(n.op), ()):
                yield f"{type(n.op).__name__} -> {op.__name__}", line, change(i, lambda m, op=op: setattr(m, "op", op()))
        elif isinstance(n, ast.BoolOp):
            op = ast.Or if isinstance(n.op, ast.And) else ast.And
            yield f"-> {op.__name__}", line, change(i, lambda m, op=op: setattr(m, "op", op()))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            yield "not removed", line, change(i, lambda m: setattr(m, "op", ast.UAdd()) if False else (setattr(m, "op", ast.Not()), setattr(m, "operand", ast.UnaryOp(ast.Not(), m.operand))))
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            for v in (True, False):
                if isinstance(n, ast.While) and v:
                    continue
                yield f"condition -> {v}", line, change(i, lambda m, v=v: setattr(m, "test", ast.Constant(v)))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and not n.keywords and len(n.args) <= 2 and isinstance(n.func.value, (ast.Call, ast.Name, ast.Subscript, ast.Attribute)) and n.func.attr in ("lstrip", "rstrip", "strip", "replace", "isoformat", "lower", "upper"):
            def fn(m):
                inner = m.func.value
                m.func, m.args = ast.Name("_same", ast.Load()), [inner]
            def go(i=i, fn=fn):
                return "_same = lambda x: x\n" + change(i, fn)() if False else change(i, fn)() + "\n_same = lambda x: x\n"
            yield f".{n.func.attr}() removed", line, go
        elif isinstance(n, ast.Call) and len(n.keywords) >= 2:
            ks = [k for k in n.keywords if k.arg]
            for a in range(len(ks) - 1):
                def fn(m, a=a):
                    k = [k for k in m.keywords if k.arg]
                    k[a].value, k[a + 1].value = k[a + 1].value, k[a].value
                yield f"arguments {ks[a].arg}/{ks[a + 1].arg} swapped", line, change(i, fn)
        if isinstance(n, ast.stmt) and not isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.If, ast.While, ast.For, ast.Try, ast.With, ast.AnnAssign, ast.Pass)):
            if isinstance(n, ast.Expr) and is_log(n.value):
                continue
            if isinstance(n, ast.Return):
                if n.value is None or isinstance(n.value, ast.Constant):
                    continue
                yield "return None", line, change(i, lambda m: setattr(m, "value", ast.Constant(None)))
                continue
            def drop(m):
                # keeps the node's place: turn into an expression that does nothing
                m.__class__ = ast.Expr
                for f in list(m._fields) + ["targets", "exc", "cause", "op", "target", "type_comment"]:
                    if hasattr(m, f):
                        try:
                            delattr(m, f)
                        except AttributeError:
                            pass
                m.value = ast.Constant(0)
            yield f"{type(n).__name__} dropped", line, change(i, drop)


# Changes of what a function does over time, appended to its module. {k} is one of the kinds below.
WRAPPER = '''

import functools as _dyn_functools
import threading as _dyn_threading
import time as _dyn_time


def _dyn(f, kind):
    st = {"n": 0, "have": False, "last": None, "failed": False, "memo": {}, "at": None, "thread": None, "keys": []}

    def plain(x):
        if isinstance(x, (bytearray, memoryview)):
            return bytes(x)
        if isinstance(x, (list, set)):
            return repr(x)
        if isinstance(x, dict):
            return repr(x)
        return x

    def key(a, k):
        try:
            r = tuple(plain(x) for x in a) + tuple(sorted((n, plain(v)) for n, v in k.items()))
            hash(r)
            return r
        except TypeError:
            return repr((a, k))

    def coarse(a, k):
        out = []
        for x in list(a) + [v for _, v in sorted(k.items())]:
            if isinstance(x, (bytes, bytearray, memoryview, str)):
                x = x if isinstance(x, str) else bytes(x)
                x = (len(x), x[:8]) if kind == "memo-head" else (len(x), x[-8:])
            else:
                x = repr(x)
            out.append(x)
        return tuple(out)

    def size(a, k):
        return max([len(x) for x in list(a) + list(k.values()) if isinstance(x, (bytes, bytearray, memoryview, str, list, tuple))] or [0])

    def stale(a, k):
        return st["last"] if st["have"] else f(*a, **k)

    def done(r):
        st["last"], st["have"] = r, True
        return r

    @_dyn_functools.wraps(f)
    def g(*a, **k):
        st["n"] += 1
        if kind in ("memo", "memo-head", "memo-tail"):
            q = key(a, k) if kind == "memo" else coarse(a, k)
            if q not in st["memo"]:
                if len(st["memo"]) > 200:
                    st["memo"].clear()
                st["memo"][q] = f(*a, **k)
            return st["memo"][q]
        if kind == "same-as-last":
            q = key(a, k)
            if st["have"] and st["keys"] == q:
                return st["last"]
            r = f(*a, **k)
            st["keys"] = q
            return done(r)
        if kind == "third-repeat-refused":
            q = key(a, k)
            if st["keys"] and st["keys"][0] == q:
                st["keys"].append(q)
            else:
                st["keys"] = [q]
            if len(st["keys"]) >= 4:
                st["keys"] = []
                raise ValueError("said before")
            return f(*a, **k)
        if kind.startswith("stale-"):
            if st["n"] % int(kind[6:]) == 0:
                return stale(a, k)
            return done(f(*a, **k))
        if kind == "after-failure":
            if st["failed"]:
                st["failed"] = False
                return stale(a, k)
            try:
                return done(f(*a, **k))
            except Exception:
                st["failed"] = True
                raise
        if kind == "after-failure-refuses":
            if st["failed"]:
                st["failed"] = False
                raise ValueError("failed before")
            try:
                return f(*a, **k)
            except Exception:
                st["failed"] = True
                raise
        if kind == "failure-stale":
            try:
                return done(f(*a, **k))
            except Exception:
                if st["have"] and st["n"] % 3 == 0:
                    return st["last"]
                raise
        if kind.startswith("long-"):
            if size(a, k) > int(kind[5:]):
                return stale(a, k)
            return done(f(*a, **k))
        if kind.startswith("cut-"):
            r = f(*a, **k)
            n = int(kind[4:])
            if isinstance(r, (bytes, bytearray, str, list)) and len(r) > n:
                return r[:n]
            return r
        if kind == "thread":
            if _dyn_threading.current_thread() is not _dyn_threading.main_thread():
                return stale(a, k)
            return done(f(*a, **k))
        if kind == "late":
            now = _dyn_time.time()
            late = st["at"] is not None and now - st["at"] > 300
            st["at"] = now
            if late:
                return stale(a, k)
            return done(f(*a, **k))
        if kind == "soon":
            now = _dyn_time.time()
            q = key(a, k)
            if st["at"] is not None and 0 <= now - st["at"] < 0.0002 and q == st["keys"]:
                return st["last"]
            r = done(f(*a, **k))
            st["at"] = now
            st["keys"] = q
            return r
        if kind == "keeps":
            st["memo"][st["n"]] = (a, k)
            return f(*a, **k)
        if kind == "tells":
            try:
                return f(*a, **k)
            except Exception as e:
                raise type(e)(*e.args, repr([getattr(x, "__dict__", x) for x in a]))
        raise AssertionError(kind)

    return g


{target}
'''

KINDS = "memo memo-head memo-tail same-as-last third-repeat-refused stale-3 stale-70 stale-900 after-failure after-failure-refuses failure-stale long-60 long-700 long-9000 long-40000 cut-300 cut-5000 thread late soon keeps tells".split()


def dynamic(source):
    """Yields (description, line, function) like mutants(): functions that behave differently over time or by size."""
    tree = ast.parse(source)
    for n in tree.body:
        todo = []
        if isinstance(n, ast.FunctionDef):
            todo.append((n.name, n, "%s = _dyn(%s, {k!r})" % (n.name, n.name)))
        elif isinstance(n, ast.ClassDef):
            for m in n.body:
                if not isinstance(m, ast.FunctionDef) or m.name.startswith("__") or any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(m)):
                    continue
                full = n.name + "." + m.name
                marks = [ast.unparse(d) for d in m.decorator_list]
                if "classmethod" in marks or "staticmethod" in marks:
                    kind = "classmethod" if "classmethod" in marks else "staticmethod"
                    line = "%s = %s(_dyn(%s.__dict__[%r].__func__, {k!r}))" % (full, kind, n.name, m.name)
                elif "property" in marks:
                    line = "%s = property(_dyn(%s.__dict__[%r].fget, {k!r}))" % (full, n.name, m.name)
                elif marks:
                    continue
                else:
                    line = "%s = _dyn(%s, {k!r})" % (full, full)
                todo.append((full, m, line))
        for name, node, line in todo:
            for k in KINDS:
                yield f"{name}: {k}", node.lineno, (lambda k=k, line=line: source + WRAPPER.replace("{target}", line.format(k=k)))


def probe():
    """In the scratch copy named by ELGAS_SRC: first check that notices, or none."""
    sys.path.insert(0, VERIF)
    import importlib

    from vlib import engine

    rel = sys.argv[2]
    cap = float(sys.argv[3])
    engine.CPU_LIMIT = 6.0
    engine.WALL_LIMIT = 20.0
    out = os.fdopen(os.dup(1), "w")
    engine.load_target()
    engine.child_setup()
    order = []
    for k, v in FIRST.items():
        if k in rel:
            order += v.split()
    order += [c for c in ORDER if c not in order]
    dic = engine.make_dictionary()
    if len(sys.argv) > 4:
        order = [c for c in order if c in sys.argv[4].split(",") or any(k in rel and c in v.split() for k, v in FIRST.items())]
    for c in order:
        try:
            mod = importlib.import_module("props." + c.lower())
        except BaseException as e:
            print(json.dumps({"by": "import", "what": repr(e)}), file=out, flush=True)
            return
        listed = frozenset(engine.known_findings(c))
        n = max(20, mod.QUICK // 8) * (3 if len(sys.argv) > 4 else 1)
        if c in ("C31",):
            n = 20
        try:
            got = engine.worker(mod, 0, n, 7, dic, listed, engine.monotonic() + cap)
        except BaseException as e:
            print(json.dumps({"by": c, "what": "harness: " + repr(e)[:200]}), file=out, flush=True)
            return
        if got["failure"]:
            print(json.dumps({"by": c, "what": got["failure"]["message"][:200]}), file=out, flush=True)
            return
    print(json.dumps({"by": None}), file=out, flush=True)


def try_one(job):
    rel, what, line, make, cap = job
    d = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    try:
        text = make()
        w = os.path.join(d, "repo")
        shutil.copytree("/repo", w, ignore=shutil.ignore_patterns(".git", "__pycache__"))
        with open(os.path.join(w, "elgas", rel), "w") as f:
            f.write(text)
        env = dict(os.environ, PYTHONPATH=w, PYTHONDONTWRITEBYTECODE="1", TZ="UTC")
        try:
            t = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=w, env=env, capture_output=True, text=True, timeout=60)
        except subprocess.TimeoutExpired:
            return {"file": rel, "line": line, "what": what, "result": "tests hang"}
        if "43 passed" not in t.stdout:
            return {"file": rel, "line": line, "what": what, "result": "tests fail"}
        env = dict(os.environ, ELGAS_SRC=w, PYTHONDONTWRITEBYTECODE="1")
        try:
            p = subprocess.run([PY, "-B", __file__, "--probe", rel, str(cap)] + ONLY, cwd=VERIF, env=env, capture_output=True, text=True, timeout=900)
            got = json.loads(p.stdout.strip().splitlines()[-1])
        except Exception as e:
            got = {"by": "error", "what": repr(e)[:300]}
        return {"file": rel, "line": line, "what": what, "result": "caught" if got["by"] else "SURVIVED", **{"by": got["by"], "how": got.get("what")}}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    p = argparse.ArgumentParser()
    p.add_argument("out")
    p.add_argument("--files", default="")
    p.add_argument("--sample", type=int, default=0)
    p.add_argument("--seed", type=int, default=1)
    p.add_argument("--jobs", type=int, default=8)
    p.add_argument("--cap", type=float, default=6)
    p.add_argument("--kinds", default="")
    p.add_argument("--only", default="")
    p.add_argument("--dynamic", action="store_true")
    p.add_argument("--count", action="store_true")
    a = p.parse_args()
    ONLY.extend([a.only] if a.only else [])
    jobs = []
    root = "/repo/elgas"
    for folder, dirs, files in os.walk(root):
        for name in sorted(files):
            rel = os.path.relpath(os.path.join(folder, name), root)
            if not name.endswith(".py") or not any(x in rel for x in a.files.split(",")):
                continue
            text = open(os.path.join(root, rel)).read()
            for what, line, make in (dynamic if a.dynamic else mutants)(text):
                if not a.kinds or what.rsplit(": ", 1)[-1] in a.kinds.split(","):
                    jobs.append((rel, what, line, make, a.cap))
    print(len(jobs), "changes")
    if a.count:
        return
    random.Random(a.seed).shuffle(jobs)
    if a.sample:
        jobs = jobs[: a.sample]
    with open(a.out, "w") as f, ThreadPoolExecutor(a.jobs) as pool:
        for got in pool.map(try_one, jobs):
            f.write(json.dumps(got) + "\n")
            f.flush()


if __name__ == "__main__":
    if len(sys.argv) > 1 and sys.argv[1] == "--probe":
        probe()
    else:
        main()
