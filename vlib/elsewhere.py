"""Processes in which the package runs under other circumstances: another zone, clock, locale, ...

    python [flags] elsewhere.py OPTIONS     (OPTIONS: JSON object)

reads cases (module, choices) and answers with None or what failed, one after the other, until
the end of its input. `ENVIRONMENTS` lists the circumstances, `Elsewhere` runs such a process.
"""

import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# name: (interpreter flags, environment variables, options)
ENVIRONMENTS = {
    "optimised, far east": (["-O"], {"TZ": "XYZ-14", "PYTHONHASHSEED": "0", "LC_ALL": "C"}, {}),
    "year 2000, New York": (
        [],
        {"TZ": "EST5EDT,M3.2.0,M11.1.0", "PYTHONHASHSEED": "1"},
        {"clock": 946684799, "flies": True, "cwd": "/"},
    ),
    "year 2069, no source files": ([], {"PYTHONHASHSEED": "2"}, {"clock": 3155759998, "zip": True}),
    "logging everything in a thread, Prague": (
        [],
        {"TZ": "CET-1CEST,M3.5.0,M10.5.0/3", "PYTHONHASHSEED": "3"},
        {"log": True, "thread": True},
    ),
    "traced, without docstrings, end of 2099": (
        ["-OO"],
        {"TZ": "ABC12", "PYTHONHASHSEED": "4", "PYTHONUTF8": "1"},
        {"clock": 4102444799, "trace": True},
    ),
    "developer mode, leap day": (
        ["-X", "dev"],
        {"TZ": "NPT-5:45", "PYTHONHASHSEED": "5", "LANG": "tr_TR.UTF-8"},
        {"clock": 1709208000, "encoding": "cp1254"},
    ),
}


def shift_clock(now, flies):
    """Let the process believe that it is another time (before anything imports datetime).

    When it flies, every look at it is more than an hour after the one before.
    """
    import datetime
    import time

    real, real_ns = time.time, time.time_ns
    off = now - int(real())

    def ahead():
        nonlocal off
        off += 4001 if flies else 0
        return off

    originals = {n: getattr(time, n) for n in ("localtime", "gmtime", "ctime")}
    time.time = lambda: real() + ahead()
    time.time_ns = lambda: real_ns() + ahead() * 10**9
    for name, fn in originals.items():
        setattr(time, name, lambda t=None, fn=fn: fn(time.time() if t is None else t))
    strftime = time.strftime
    time.strftime = lambda f, t=None: strftime(f, time.localtime() if t is None else t)

    base, base_date = datetime.datetime, datetime.date

    class Meta(type):
        def __instancecheck__(cls, x):
            return isinstance(x, base)

        def __subclasscheck__(cls, c):
            return issubclass(c, base)

    def now_(cls, tz=None):
        return base.fromtimestamp(time.time(), tz)

    def utcnow(cls):
        return base.fromtimestamp(time.time(), datetime.timezone.utc).replace(tzinfo=None)

    def today(cls):
        return base.fromtimestamp(time.time())

    # values are plain ones: only the ways to ask for the present time differ
    shifted = Meta(
        "datetime",
        (base,),
        {
            "__new__": lambda cls, *a, **k: base(*a, **k),
            "now": classmethod(now_),
            "utcnow": classmethod(utcnow),
            "today": classmethod(today),
        },
    )
    for name in ("strptime", "combine", "fromtimestamp", "utcfromtimestamp", "fromisoformat", "fromordinal"):
        setattr(shifted, name, staticmethod(getattr(base, name)))
    datetime.datetime = shifted

    class MetaDate(type):
        def __instancecheck__(cls, x):
            return isinstance(x, base_date)

        def __subclasscheck__(cls, c):
            return issubclass(c, base_date)

    datetime.date = MetaDate(
        "date",
        (base_date,),
        {
            "__new__": lambda cls, *a, **k: base_date(*a, **k),
            "today": classmethod(lambda cls: base_date.fromtimestamp(time.time())),
        },
    )


def change_encoding(name):
    """Let the process believe that texts are encoded like this here (this sandbox has no such locale)."""
    import locale

    locale.getpreferredencoding = lambda do_setlocale=True: name
    locale.getencoding = lambda: name
    locale.getlocale = lambda category=None: ("tr_TR", name)
    sys.getfilesystemencoding = lambda: name


def import_from_zip():
    """Import the package from an archive that is gone afterwards."""
    import pkgutil
    import tempfile
    import zipfile

    from vlib import engine

    root = engine.REPO
    fd, path = tempfile.mkstemp(suffix=".zip")
    os.close(fd)
    try:
        with zipfile.ZipFile(path, "w") as z:
            for folder, _, files in os.walk(os.path.join(root, "elgas")):
                for f in files:
                    if f.endswith(".py"):
                        p = os.path.join(folder, f)
                        z.write(p, os.path.relpath(p, root))
        sys.path.insert(0, path)
        import elgas

        for m in pkgutil.walk_packages(elgas.__path__, "elgas."):
            __import__(m.name)
        if not elgas.__file__.startswith(path):
            raise RuntimeError("not imported from the archive")
    finally:
        os.unlink(path)
        sys.path.remove(path)


def judge(text):
    """Run one case; None, or what failed."""
    import importlib

    from vlib import engine
    from vlib.source import Source, decode_choices

    name, choices = json.loads(text)
    mod = importlib.import_module("props." + name.lower())
    rec = engine.Rec(frozenset(engine.known_findings(mod.ID)))
    outcome = engine.execute(mod, Source(decode_choices(choices), None), rec, alarm=False)
    return outcome.message if isinstance(outcome, engine.Fail) else None


def serve(options):
    import signal
    import threading

    if "clock" in options:
        shift_clock(options["clock"], options.get("flies", False))
    if "encoding" in options:
        change_encoding(options["encoding"])
    sys.path.insert(0, HERE)
    sys.dont_write_bytecode = True
    from vlib import engine

    if options.get("zip"):
        import_from_zip()
    engine.load_target(check=not options.get("zip"))
    if options.get("log"):
        import structlog

        structlog.reset_defaults()
        structlog.configure(logger_factory=structlog.PrintLoggerFactory(open(os.devnull, "w")))
    if "cwd" in options:
        os.chdir(options["cwd"])
    out = os.fdopen(os.dup(1), "w")
    sys.stdout = open(os.devnull, "w")
    for line in sys.stdin:
        signal.alarm(50)
        answer = []

        def run():
            try:
                if options.get("trace"):
                    sys.settrace(lambda *a: None)
                    sys.setprofile(lambda *a: None)
                answer.append(judge(line))
            except BaseException as e:
                answer.append(f"cannot be run here: {type(e).__name__}: {e}")
            finally:
                sys.settrace(None)
                sys.setprofile(None)

        if options.get("thread"):
            t = threading.Thread(target=run)
            t.start()
            t.join()
        else:
            run()
        signal.alarm(0)
        out.write(json.dumps(answer[0]) + "\n")
        out.flush()


class Elsewhere:
    """A process of its own under the circumstances `name`."""

    def __init__(self, name):
        import subprocess

        flags, env, options = ENVIRONMENTS[name]
        base = {k: v for k, v in os.environ.items() if k in ("PATH", "ELGAS_SRC", "TMPDIR")}
        self.process = subprocess.Popen(
            [sys.executable, "-B", *flags, os.path.abspath(__file__), json.dumps(options)],
            stdin=subprocess.PIPE,
            stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL,
            env={**base, **env},
            text=True,
        )

    def judge(self, module, choices):
        from vlib.source import encode_choices

        self.process.stdin.write(json.dumps([module, encode_choices(choices)]) + "\n")
        self.process.stdin.flush()
        line = self.process.stdout.readline()
        if not line:
            return "the process ended", True
        return json.loads(line), False

    def end(self):
        self.process.kill()
        self.process.wait()


if __name__ == "__main__":
    serve(json.loads(sys.argv[1]))
