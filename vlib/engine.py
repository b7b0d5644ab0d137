"""Property-based testing engine: generated cases, coverage-kept corpus, shrinking, replay.

A property module offers
    ID, RULE, FACETS = [(weight, name, function(source, rec))], QUICK, THOROUGH (case counts)
Each function generates one case from the source, runs the code under test through
`call`/`must` and reports through rec (check, label, nontrivial, sample, known).
"""

import ast
import hashlib
import json
import os
import pickle
import random
import resource
import select
import signal
import sys
import time
import traceback
from collections import Counter

from vlib import clock
from vlib.source import Dictionary, Discard, Source, decode_choices, encode_choices

clock.install()
monotonic = clock.REAL["monotonic"]

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ELGAS_SRC", "/repo")
CPU_LIMIT = 20.0
WALL_LIMIT = 60.0
WORKERS = 8


class Fail(BaseException):
    """The property does not hold for this case."""

    def __init__(self, message, detail=None):
        super().__init__(message)
        self.message = message
        self.detail = detail or {}


class Hang(BaseException):
    """The code under test did not come back."""


class HarnessError(Exception):
    """The machinery itself is broken."""


class Out:
    """Outcome of a call into the code under test."""

    __slots__ = ("value", "error")

    def __init__(self, value=None, error=None):
        self.value = value
        self.error = error

    @property
    def ok(self):
        return self.error is None

    def __repr__(self):
        if self.error is None:
            return f"returned {show(self.value)}"
        return f"raised {type(self.error).__name__}({show(str(self.error), 120)})"


def call(fn, *args, **kwargs):
    """Run code under test; every exception it raises becomes the outcome."""
    try:
        return Out(value=fn(*args, **kwargs))
    except Exception as e:  # noqa - the outcome is judged by the oracle
        return Out(error=e)


def must(rec, what, fn, *args, **kwargs):
    """Run code under test that has to succeed."""
    try:
        return fn(*args, **kwargs)
    except Exception as e:
        raise Fail(
            f"{what}: unexpected {type(e).__name__}: {e}",
            {"args": show(args, 600), "kwargs": show(kwargs, 600)},
        )


def member(cls, value):
    """The member of an enumeration of the package, which has to have one for the value."""
    try:
        return cls(value)
    except ValueError as e:
        raise Fail(f"{cls.__name__} knows no {value}: {e}")


def show(x, limit=400):
    try:
        if isinstance(x, (bytes, bytearray)):
            s = f"{type(x).__name__}[{len(x)}]:{bytes(x).hex()}"
        else:
            s = repr(x)
    except Exception as e:  # repr of an object under test may be broken
        s = f"<unprintable {type(x).__name__}: {type(e).__name__}>"
    if len(s) > limit:
        s = s[: limit - 3] + "..."
    return s


class Rec:
    """What one case reports."""

    __slots__ = ("labels", "key", "sample_data", "known_hits", "listed", "want_sample")

    def __init__(self, listed=()):
        self.labels = []
        self.key = None
        self.sample_data = None
        self.known_hits = []
        self.listed = listed

    def label(self, name):
        self.labels.append(name)

    def nontrivial(self, *key):
        self.key = key

    def sample(self, /, **data):
        self.sample_data = data

    def fail(self, message, /, **detail):
        raise Fail(message, {k: show(v, 1200) for k, v in detail.items()})

    def check(self, cond, message, /, **detail):
        if not cond:
            raise Fail(message, {k: show(v, 1200) for k, v in detail.items()})

    def equal(self, got, want, message, /, **detail):
        if got != want or type(got) != type(want) and not _compatible(got, want):
            detail["got"] = got
            detail["want"] = want
            raise Fail(message, {k: show(v, 1200) for k, v in detail.items()})

    def known(self, fid, message, /, **detail):
        """A failure that is a recorded finding if the committed file lists it."""
        if fid in self.listed:
            self.known_hits.append(fid)
        else:
            raise Fail(message, {k: show(v, 1200) for k, v in detail.items()})


def _compatible(a, b):
    groups = ((bytes, bytearray, memoryview), (bool, int), (int, float), (str,), (list, tuple))
    for g in groups:
        if isinstance(a, g) and isinstance(b, g):
            return True
    return isinstance(a, type(b)) or isinstance(b, type(a))


# -- the code under test ---------------------------------------------------------------


def load_target(check=True):
    """Import elgas from the working tree, never from stale byte code."""
    sys.dont_write_bytecode = True
    sys.pycache_prefix = "/nonexistent-pycache"
    sys.path.insert(0, REPO)
    import logging

    logging.disable(logging.CRITICAL)
    import structlog

    structlog.configure(
        wrapper_class=structlog.make_filtering_bound_logger(50),
        logger_factory=structlog.ReturnLoggerFactory(),
        cache_logger_on_first_use=False,
    )
    import elgas.utils

    where = os.path.realpath(elgas.utils.__file__)
    if check and not where.startswith(os.path.realpath(REPO) + os.sep):
        raise HarnessError(f"elgas was imported from {where}, not from {REPO}")


def collect_constants():
    """{file: Counter of its int / bytes constants}, docstrings left out."""
    found = {}
    root = os.path.join(REPO, "elgas")
    for folder, dirs, files in os.walk(root):
        dirs.sort()
        for name in sorted(files):
            if not name.endswith(".py"):
                continue
            path = os.path.join(folder, name)
            with open(path, "rb") as f:
                try:
                    tree = ast.parse(f.read())
                except SyntaxError:
                    continue
            count = found[os.path.relpath(path, root)] = Counter()
            docs = set()
            for node in ast.walk(tree):
                if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant):
                    docs.add(id(node.value))
            for node in ast.walk(tree):
                if not isinstance(node, ast.Constant) or id(node) in docs:
                    continue
                v = node.value
                if isinstance(v, bool):
                    continue
                if isinstance(v, int):
                    count[v] += 1
                elif isinstance(v, float) and abs(v) < 1 << 63 and v == int(v):
                    count[int(v)] += 1
                elif isinstance(v, bytes) and 0 < len(v) <= 40:
                    count[v] += 1
                elif isinstance(v, str) and 0 < len(v) <= 40:
                    try:
                        count[v.encode("latin-1")] += 1
                    except UnicodeEncodeError:
                        pass
    return found


def make_dictionary():
    """Constants of the tree; those the committed tree does not have count as novel."""
    found = collect_constants()
    path = os.path.join(VERIF, "vlib", "baseline_constants.json")
    base = {}
    if os.path.exists(path):
        with open(path) as f:
            for name, pairs in json.load(f).items():
                base[name] = Counter(
                    {bytes.fromhex(k["b"]) if isinstance(k, dict) else k: n for k, n in pairs}
                )
    everything, novel = set(), set()
    for name, count in found.items():
        everything.update(count)
        if base:
            novel.update(count - base.get(name, Counter()))
    return Dictionary(
        [v for v in everything if isinstance(v, int)],
        [v for v in everything if isinstance(v, bytes) and len(v) <= 12],
        [v for v in novel if isinstance(v, int)],
        [v for v in novel if isinstance(v, bytes) and len(v) <= 24],
    )


# -- coverage (guidance only) ----------------------------------------------------------


class Coverage:
    """Counts newly reached lines of the code under test."""

    def __init__(self):
        self.new = 0
        self.total = 0
        self.prefix = os.path.join(REPO, "elgas") + os.sep
        mon = getattr(sys, "monitoring", None)
        self.mon = mon
        if mon is None:
            return
        self.tool = 3
        try:
            mon.use_tool_id(self.tool, "verif-cov")
        except ValueError:
            self.mon = None
            return
        mon.register_callback(self.tool, mon.events.LINE, self._line)
        mon.set_events(self.tool, mon.events.LINE)

    def _line(self, code, line):
        if code.co_filename.startswith(self.prefix):
            self.new += 1
            self.total += 1
        return self.mon.DISABLE

    def take(self):
        n, self.new = self.new, 0
        return n


# -- running one case ------------------------------------------------------------------


def _on_alarm(signum, frame):
    raise Hang(
        f"no result after {CPU_LIMIT:g} s of processor time or {WALL_LIMIT:g} s of waiting"
    )


def arm(times=1):
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT * times)
    signal.setitimer(signal.ITIMER_REAL, WALL_LIMIT * times)


def extend(times):
    """More time for a case, where its time is limited at all."""
    if signal.getitimer(signal.ITIMER_VIRTUAL)[0]:
        arm(times)


def disarm():
    signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    signal.setitimer(signal.ITIMER_REAL, 0)


def child_setup():
    signal.signal(signal.SIGVTALRM, _on_alarm)
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    lim = 3 << 30
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    sys.setrecursionlimit(1000)


def from_target(e):
    tb = e.__traceback__
    prefix = os.path.join(REPO, "elgas") + os.sep
    while tb is not None:
        name = tb.tb_frame.f_code.co_filename
        if name.startswith((prefix, "<attrs generated methods elgas.")):
            return True
        tb = tb.tb_next
    return False


# time zones the process is in (the simplest: that of the machine)
ZONES = [
    (20, None),
    (1, "XYZ-14"),
    (1, "EST5EDT,M3.2.0,M11.1.0"),
    (1, "CET-1CEST,M3.5.0,M10.5.0/3"),
    (1, "NPT-5:45"),
]
own_zone = os.environ.get("TZ")


def set_zone(zone):
    zone = zone or own_zone
    if zone is None:
        os.environ.pop("TZ", None)
    else:
        os.environ["TZ"] = zone
    time.tzset()


def execute(mod, source, rec, alarm=True, only=None):
    """Returns None (held), 'discard', or a Fail. only: draw from these facets (by index)."""
    zone = None
    if alarm:
        arm()
    try:
        facets = mod.FACETS
        if len(facets) > 1:
            pairs = [(w, f) for w, _, f in facets]
            if only is not None:
                pairs = [(w if i in only else 0, f) for i, (w, f) in enumerate(pairs)]
            fn = source.weighted(pairs)
        else:
            fn = facets[0][2]
        random.seed(source.raw_int(0xFFFFFFFF))
        if alarm:
            zone = source.weighted(ZONES)
            if zone:
                set_zone(zone)
        fn(source, rec)
        return None
    except Discard:
        return "discard"
    except Fail as e:
        return e
    except Hang as e:
        return Fail(f"does not terminate: {e}", {"hang": True})
    except Exception as e:
        if from_target(e):
            return Fail(
                f"unexpected {type(e).__name__}: {e}",
                {"traceback": traceback.format_exc()[-2500:]},
            )
        raise
    finally:
        if alarm:
            disarm()
            if zone:
                set_zone(None)


def _write_all(fd, data):
    view = memoryview(data)
    while view:
        n = os.write(fd, view)
        view = view[n:]


def _fork(fn):
    """Run fn in a forked child; returns (pid, read fd)."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid:
        os.close(w)
        return pid, r
    code = 0
    try:
        os.close(r)
        child_setup()
        try:
            result = fn()
        except BaseException:
            result = {"harness_error": traceback.format_exc()}
        _write_all(w, pickle.dumps(result))
        os.close(w)
    except BaseException:
        code = 3
    finally:
        os._exit(code)


def _collect(jobs, timeout):
    """jobs: {fd: (pid, tag)} -> {tag: result or None}"""
    buffers = {fd: b"" for fd in jobs}
    results = {}
    end = monotonic() + timeout
    live = dict(jobs)
    while live:
        left = end - monotonic()
        if left <= 0:
            break
        ready, _, _ = select.select(list(live), [], [], min(left, 1.0))
        for fd in ready:
            chunk = os.read(fd, 1 << 20)
            if chunk:
                buffers[fd] += chunk
                continue
            os.close(fd)
            pid, tag = live.pop(fd)
            os.waitpid(pid, 0)
            try:
                results[tag] = pickle.loads(buffers[fd])
            except Exception:
                results[tag] = None
    for fd, (pid, tag) in live.items():
        os.close(fd)
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(pid, 0)
        results[tag] = None
    return results


def describe(e):
    return {"message": e.message, "detail": e.detail}


def worker(mod, idx, count, seed, dic, listed, stop_at, upto=None):
    """Generate `count` cases. upto: stop after that case and report its outcome."""
    rng = random.Random(f"{seed}/{mod.ID}/{idx}")
    coverage = Coverage()
    corpus = []
    labels = Counter()
    keys = set()
    known = Counter()
    samples = []
    evaluations = discards = 0
    start = monotonic()
    failure = None
    truncated = False
    sample_at = {0, 3, 17, 101, 977, 5000}
    novel_corpus = 0
    # facets of costly cases are not mutated again and again
    weights = [w for w, _, _ in mod.FACETS]
    rare = {i for i, w in enumerate(weights) if w * 100 < sum(weights)} if len(weights) > 1 else ()
    for i in range(count):
        if monotonic() > stop_at:
            truncated = True
            break
        if corpus and rng.random() < 0.15:
            prefix = mutate(rng, rng.choice(corpus))
        else:
            prefix = ()
        source = Source(prefix, rng, dic)
        rec = Rec(listed)
        outcome = execute(mod, source, rec)
        if outcome == "discard":
            discards += 1
            continue
        evaluations += 1
        fresh = coverage.take()
        if fresh:
            novel_corpus += 1
            if len(corpus) < 300 and len(source.out) < 400 and source.out[0] not in rare:
                corpus.append(list(source.out))
        for l in rec.labels:
            labels[l] += 1
        for k in rec.known_hits:
            known[k] += 1
        if rec.key is not None:
            keys.add(hashlib.blake2b(repr(rec.key).encode(), digest_size=8).digest())
            if rec.sample_data is not None and (evaluations in sample_at or len(samples) < 2):
                if len(samples) < 6:
                    samples.append({k: show(v, 200) for k, v in rec.sample_data.items()})
        if isinstance(outcome, Fail):
            failure = {"choices": list(source.out), "index": i, **describe(outcome)}
            break
        if upto is not None and i >= upto:
            break
    return {
        "evaluations": evaluations,
        "discards": discards,
        "labels": labels,
        "keys": keys,
        "known": known,
        "samples": samples,
        "failure": failure,
        "truncated": truncated,
        "lines": coverage.total,
        "corpus": novel_corpus,
        "wall": monotonic() - start,
    }


def mutate(rng, choices):
    out = list(choices)
    for _ in range(rng.randint(1, 4)):
        if not out:
            break
        i = rng.randrange(len(out))
        p = rng.random()
        if p < 0.25:
            del out[i:]
            break
        c = out[i]
        if isinstance(c, int):
            if p < 0.5:
                out[i] = max(0, c + rng.choice((-1, 1, 2, -2, 16, 256)))
            else:
                out[i] = rng.getrandbits(rng.choice((1, 3, 8, 16, 32)))
        else:
            b = bytearray(c)
            if b and p < 0.7:
                b[rng.randrange(len(b))] = rng.randint(0, 255)
            elif p < 0.85:
                b = bytearray(rng.randbytes(rng.randint(0, 40)))
            else:
                b = b + b
            out[i] = bytes(b)
    return out


# -- shrinking -------------------------------------------------------------------------


def probe(mod, choices, listed):
    """Run one recorded case in a fresh process; None if it holds."""

    def go():
        source = Source(choices, None)
        rec = Rec(listed)
        outcome = execute(mod, source, rec)
        if isinstance(outcome, Fail):
            return {"fail": True, "choices": list(source.out), **describe(outcome)}
        return {"fail": False}

    pid, fd = _fork(go)
    got = _collect({fd: (pid, 0)}, 2 * WALL_LIMIT)[0]
    if got is None:
        return None
    if got.get("harness_error"):
        return None
    return got if got["fail"] else None


def size_key(choices):
    total = 0
    for c in choices:
        total += 1 if isinstance(c, int) else 1 + len(c)
    return (
        total,
        [(c.bit_length(), c) if isinstance(c, int) else (sum(1 for b in c if b), len(c)) for c in choices],
    )


def _cost(choices):
    n = big = 0
    for c in choices:
        if isinstance(c, int):
            n += 1
            big += c.bit_length() + (c > 0)
        else:
            n += 1 + len(c)
            big += sum(1 + (b > 1) for b in c if b)
    return (n, big, [c if isinstance(c, int) else int.from_bytes(c, "big") for c in choices])


def shrink(mod, failure, listed, max_probes=500, max_seconds=45.0):
    best = failure
    probes = 0
    end = monotonic() + max_seconds
    seen = set()

    def attempt(candidate):
        nonlocal best, probes
        if probes >= max_probes or monotonic() > end:
            return False
        key = repr(candidate)
        if key in seen:
            return False
        seen.add(key)
        probes += 1
        got = probe(mod, candidate, listed)
        if got is not None and _cost(got["choices"]) < _cost(best["choices"]):
            best = {**best, **got}
            return True
        return False

    improved = True
    while improved and probes < max_probes and monotonic() < end:
        improved = False
        # drop chunks
        k = 32
        while k:
            i = len(best["choices"]) - k
            while i >= 1:
                c = best["choices"]
                if attempt(c[:i] + c[i + k :]):
                    improved = True
                i -= k if k > 1 else 1
                i = min(i, len(best["choices"]) - k)
            k //= 2
        # simplify single choices
        i = len(best["choices"]) - 1
        while i >= 1:
            if i >= len(best["choices"]):
                i = len(best["choices"]) - 1
                continue
            c = best["choices"]
            v = c[i]
            if isinstance(v, int):
                if v:
                    if attempt(c[:i] + [0] + c[i + 1 :]):
                        improved = True
                    else:
                        lo, hi = 0, v
                        while hi - lo > 1 and i < len(best["choices"]):
                            mid = (lo + hi) // 2
                            c = best["choices"]
                            if attempt(c[:i] + [mid] + c[i + 1 :]):
                                improved = True
                                hi = mid
                            else:
                                lo = mid
            elif v:
                if attempt(c[:i] + [b""] + c[i + 1 :]):
                    improved = True
                elif attempt(c[:i] + [bytes(len(v))] + c[i + 1 :]):
                    improved = True
                else:
                    step = max(1, len(v) // 2)
                    while step:
                        j = 0
                        while i < len(best["choices"]):
                            v = best["choices"][i]
                            if not isinstance(v, bytes) or j >= len(v):
                                break
                            c = best["choices"]
                            if attempt(c[:i] + [v[:j] + v[j + step :]] + c[i + 1 :]):
                                improved = True
                            elif any(v[j : j + step]) and attempt(
                                c[:i]
                                + [v[:j] + bytes(len(v[j : j + step])) + v[j + step :]]
                                + c[i + 1 :]
                            ):
                                improved = True
                                j += step
                            else:
                                j += step
                        step //= 2
            i -= 1
    best["probes"] = probes
    return best


# -- findings, evidence, verdict -------------------------------------------------------


def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return {}
    with open(path) as f:
        data = json.load(f)
    return {k["id"]: k for k in data["findings"] if k["property"] == prop}


def write_replay(prop, data):
    folder = os.path.join(VERIF, "replays")
    os.makedirs(folder, exist_ok=True)
    text = json.dumps(data, indent=1)
    name = f"{prop}-{hashlib.blake2b(text.encode(), digest_size=5).hexdigest()}.json"
    path = os.path.join(folder, name)
    with open(path, "w") as f:
        f.write(text)
    return os.path.relpath(path, VERIF)


def failures_of(results):
    """Those of all workers, the shortest first."""
    found = [
        dict(r["failure"], worker=i)
        for i, r in sorted(results.items())
        if r is not None and r.get("failure") is not None
    ]
    return sorted(found, key=lambda f: len(f["choices"]))


def confirm(mod, failures, listed):
    """The first that fails again in a process of its own, or None."""
    for f in failures:
        for _ in range(1 if f["detail"].get("hang") else 3):
            got = probe(mod, f["choices"], listed)
            if got is not None:
                return {**f, **got}
    return None


def run_check(mod, tier, seed, cases=None, workers=WORKERS, cap=None):
    """Returns the exit status."""
    start = monotonic()
    findings = known_findings(mod.ID)
    listed = frozenset(findings)
    dic = make_dictionary()
    total = cases or (mod.QUICK if tier == "quick" else mod.THOROUGH)
    cap = cap or (getattr(mod, "QUICK_CAP", 120) if tier == "quick" else 700)
    per = [total // workers + (1 if i < total % workers else 0) for i in range(workers)]

    def campaign():
        stop_at = monotonic() + cap
        jobs = {}
        for i in range(workers):
            if per[i]:
                pid, fd = _fork(
                    lambda i=i: worker(mod, i, per[i], seed, dic, listed, stop_at)
                )
                jobs[fd] = (pid, i)
        return _collect(jobs, cap + 2 * WALL_LIMIT + 20)

    results = campaign()
    failures = failures_of(results)
    best, once = confirm(mod, failures, listed), None
    if failures and best is None:
        # it depends on earlier cases of the same process, and comes back when all is done again,
        # or on something that has nothing to do with the package
        once = failures[0]
        again = campaign()
        failures = failures_of(again)
        if failures:
            best, results, once = confirm(mod, failures, listed), again, None
    evaluations = discards = 0
    labels, known = Counter(), Counter()
    keys = set()
    samples = []
    errors = []
    lines = 0
    corpus = 0
    truncated = False
    for i in sorted(results):
        r = results[i]
        if r is None:
            errors.append(f"worker {i} ended without a result")
            continue
        if "harness_error" in r:
            errors.append(r["harness_error"])
            continue
        evaluations += r["evaluations"]
        discards += r["discards"]
        labels.update(r["labels"])
        known.update(r["known"])
        keys |= r["keys"]
        samples.extend(r["samples"])
        lines = max(lines, r["lines"])
        corpus += r["corpus"]
        truncated |= r["truncated"]
    replay = None
    if failures:
        failure = failures[0]
        if best is not None:
            size = len(best["choices"])
            if not best["detail"].get("hang"):
                best = shrink(mod, best, listed)
            replay = {
                "property": mod.ID,
                "choices": encode_choices(best["choices"]),
                "message": best["message"],
                "detail": best["detail"],
                "seed": seed,
                "shrunk_from": size,
                "run": f"/opt/venv/bin/python -B run.py {mod.ID} --replay <this file>",
            }
        else:
            # replay the whole campaign
            replay = {
                "property": mod.ID,
                "campaign": {
                    "seed": seed,
                    "worker": failure["worker"],
                    "index": failure["index"],
                },
                "message": failure["message"],
                "detail": failure["detail"],
                "run": f"/opt/venv/bin/python -B run.py {mod.ID} --replay <this file>",
            }
    wall = monotonic() - start
    coverage = {
        "evaluations": evaluations,
        "distinct_nontrivial": len(keys),
        "rule": mod.RULE,
        "samples": samples[:12],
        "labels": dict(sorted(labels.items())),
        "discarded": discards,
        "lines_of_elgas_reached": lines,
        "corpus_entries_kept_for_new_lines": corpus,
        "stopped_by_time_cap": truncated,
        "known_findings_reproduced": dict(known),
    }
    if once is not None:
        coverage["not_reproduced"] = {"message": once["message"], "detail": once["detail"]}
        print(f"note: one case failed once, and neither it nor the whole campaign did again: {once['message']}")
    extra = getattr(mod, "EXTRA", None)
    violations = 1 if replay is not None else 0
    status = 0
    if extra is not None and replay is None and not errors:
        # an exhaustive or coverage-guided part, in a process of its own
        pid, fd = _fork(lambda: extra(tier, seed, listed))
        got = _collect({fd: (pid, 0)}, 600)[0] or {"error": "the extra part gave no result"}
        if "harness_error" in got:
            got["error"] = got["harness_error"]
        coverage.update(got.get("coverage", {}))
        if got.get("error"):
            errors.append(got["error"])
        if got.get("replay"):
            replay = got["replay"]
            violations = 1
    wall = monotonic() - start
    evidence = {
        "property": mod.ID,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": coverage,
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 3),
        "violations": violations,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{mod.ID}.json"), "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")
    for fid in sorted(known):
        print(f"KNOWN-FINDING: property={mod.ID} {fid}: {findings[fid]['what']}")
    if replay is not None:
        path = write_replay(mod.ID, replay)
        print(f"property {mod.ID} is broken: {replay['message']}")
        for k, v in replay["detail"].items():
            print(f"  {k}: {v}")
        print(f"VIOLATION property={mod.ID} replay={path}")
        status = 1
    elif errors:
        for e in sorted(set(errors))[:3]:
            print(f"harness error: {e}", file=sys.stderr)
        status = 2
    elif evaluations == 0 or len(keys) == 0:
        print("harness error: no non-trivial case was generated", file=sys.stderr)
        status = 2
    if status != 2:
        print(
            f"{mod.ID} {tier} seed={seed}: {evaluations} cases, {len(keys)} distinct"
            f" non-trivial, {wall:.1f} s, {'VIOLATED' if status else 'held'}"
        )
    return status


def run_replay(mod, path):
    with open(path) as f:
        data = json.load(f)
    listed = frozenset(known_findings(mod.ID))
    if "campaign" in data:
        c = data["campaign"]
        dic = make_dictionary()
        pid, fd = _fork(
            lambda: worker(
                mod, c["worker"], c["index"] + 1, c["seed"], dic, listed, monotonic() + 3600
            )
        )
        got = _collect({fd: (pid, 0)}, 3700)[0]
        got = got and got.get("failure")
    elif "choices" in data:
        got = probe(mod, decode_choices(data["choices"]), listed)
    else:
        pid, fd = _fork(lambda: mod.REPLAY(data))
        got = _collect({fd: (pid, 0)}, 600)[0]
        if not got or "harness_error" in got:
            got = None
    if got is None:
        print(f"property {mod.ID} holds for {path}")
        return 0
    print(f"property {mod.ID} is broken: {got['message']}")
    for k, v in got["detail"].items():
        print(f"  {k}: {v}")
    print(f"VIOLATION property={mod.ID} replay={path}")
    return 1
