"""Turns the definitions of tools/bugdefs.py into /verif/seeded/<id>/ after confirming each one.

usage: plant.py [id ...]     (all that are not planted yet, or the given ones)
       plant.py --check [id ...]   run the check of each planted bug's property against it
"""
import importlib.util, json, os, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SEEDED = os.path.join(VERIF, "seeded")
PY = "/opt/venv/bin/python"
BASE = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.strip()


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def scratch():
    d = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    w = os.path.join(d, "repo")
    shutil.copytree("/repo", w, symlinks=True)
    return d, w


def original_lines(rel):
    out = sh(["git", "-C", "/repo", "blame", "-s", "-l", "--root", "HEAD", "--", rel]).stdout
    return {i + 1: l.split()[0].lstrip("^") .startswith(BASE[:30]) for i, l in enumerate(out.splitlines())}


def plant(bug):
    d, w = scratch()
    try:
        for rel, old, new in bug["edits"]:
            p = os.path.join(w, rel)
            t = open(p).read()
            n = t.count(old)
            if n != 1:
                return f"text found {n} times in {rel}: {old[:60]!r}"
            open(p, "w").write(t.replace(old, new))
        diff = sh(["git", "-C", w, "diff", "--no-color"]).stdout
        if not diff:
            return "no difference"
        # touches original lines?
        touched = orig = 0
        rel = None
        for line in sh(["git", "-C", w, "diff", "-U0", "--no-color"]).stdout.splitlines():
            if line.startswith("--- a/"):
                rel = line[6:]
                blame = original_lines(rel)
            elif line.startswith("@@"):
                part = line.split()[1][1:].split(",")
                start, cnt = int(part[0]), int(part[1]) if len(part) > 1 else 1
                for i in range(start, start + cnt):
                    touched += 1
                    orig += blame.get(i, False)
        note = "" if touched == orig else f" ({orig} of {touched} removed lines are original)"
        if touched and not orig:
            return f"touches no original line"
        folder = os.path.join(SEEDED, bug["id"])
        os.makedirs(folder, exist_ok=True)
        open(os.path.join(folder, "patch.diff"), "w").write(diff)
        open(os.path.join(folder, "demo.py"), "w").write(bug["demo"].lstrip("\n"))
        open(os.path.join(folder, "demo.sh"), "w").write(
            '#!/bin/sh\nPYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'
        )
        os.chmod(os.path.join(folder, "demo.sh"), 0o755)
        json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["what"]},
                  open(os.path.join(folder, "meta.json"), "w"), indent=1)
        demo = os.path.join(folder, "demo.sh")
        a = sh(["sh", demo], cwd="/repo", timeout=280)
        if a.returncode:
            return "demo fails on the unchanged tree:\n" + a.stdout[-800:] + a.stderr[-1500:]
        b = sh(["sh", demo], cwd=w, timeout=280)
        if b.returncode == 0:
            return "demo passes with the bug:\n" + b.stdout[-800:]
        t = sh([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=w, env=dict(os.environ, PYTHONPATH=w, PYTHONDONTWRITEBYTECODE="1"))
        if "43 passed" not in t.stdout:
            return "tests: " + t.stdout[-600:]
        return "planted" + note + "  demo: " + (b.stderr.strip().splitlines() or ["?"])[-1][:100]
    finally:
        shutil.rmtree(d)


def check(bid, extra=()):
    folder = os.path.join(SEEDED, bid)
    meta = json.load(open(os.path.join(folder, "meta.json")))
    d, w = scratch()
    try:
        a = sh(["git", "-C", w, "apply", os.path.join(folder, "patch.diff")])
        if a.returncode:
            return "does not apply: " + a.stderr
        r = sh([PY, "-B", "run.py", meta["property"], *extra], cwd=VERIF, env=dict(os.environ, ELGAS_SRC=w))
        caught = r.returncode == 1 and f"VIOLATION property={meta['property']}" in r.stdout
        lines = r.stdout.strip().splitlines()
        return ("CAUGHT " if caught else f"MISSED rc={r.returncode} ") + meta["property"] + ": " + (lines[0][:130] if lines else r.stderr[-300:]) + "  | " + (lines[-1][-60:] if lines else "")
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    args = sys.argv[1:]
    if args and args[0] == "--check":
        ids = args[1:] or sorted(os.listdir(SEEDED))
        for bid in ids:
            print(bid, check(bid), flush=True)
    else:
        bugs = []
        for name in sorted(os.listdir(HERE)):
            if name.startswith("bugdefs") and name.endswith(".py"):
                spec = importlib.util.spec_from_file_location(name[:-3], os.path.join(HERE, name))
                m = importlib.util.module_from_spec(spec)
                spec.loader.exec_module(m)
                bugs += m.BUGS
        ids = [b["id"] for b in bugs]
        assert len(set(ids)) == len(ids), [i for i in ids if ids.count(i) > 1]
        for b in bugs:
            if args and b["id"] not in args:
                continue
            if not args and os.path.exists(os.path.join(SEEDED, b["id"], "patch.diff")):
                continue
            res = plant(b)
            if not res.startswith("planted"):
                shutil.rmtree(os.path.join(SEEDED, b["id"]), ignore_errors=True)
            print(b["id"], res, flush=True)
