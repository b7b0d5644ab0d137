import importlib

from vlib import alone, engine, ref
from vlib.elsewhere import ENVIRONMENTS, Elsewhere
from vlib.engine import Discard, Rec
from vlib.world import gen_payload, gen_response

ID = "C33"
RULE = (
    "cases of the other checks (framing, requests, responses, times, encryption, connections, parameter"
    " objects and blocks, schemas, configurations, client sessions, transports over real lines, the log, representations, settings) that"
    " pass"
    " here, judged again in processes with other time zones, dates, locales, hash seeds, -O and -OO, with"
    " all logging on, in a thread, traced, without source files; also each part of the package in a process that imports only this part;"
    " non-trivial: non-trivial there"
)
MODULES = (
    "C01 C02 C03 C04 C05 C06 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23"
    " C25 C26 C27 C29 C30 C32"
).split()
# rare and costly kinds of cases, and threads with a schedule of their own, stay at home
SKIP = {("C15", "threads"), ("C15", "crowd")}

running = {}


class Part:
    """A module as the engine wants it, with the kinds of cases that are cheap."""

    def __init__(self, name):
        self.mod = importlib.import_module("props." + name.lower())
        self.ID = name
        total = sum(w for w, _, _ in self.mod.FACETS)
        self.usable = [
            i
            for i, (w, facet, _) in enumerate(self.mod.FACETS)
            if w * 100 >= total and (name, facet) not in SKIP
        ]


parts = {}


def part(name):
    if name not in parts:
        parts[name] = Part(name)
    return parts[name]


def elsewhere(s, r):
    where = s.choice(sorted(ENVIRONMENTS))
    p = part(s.choice(MODULES))
    mod = p.mod
    start = len(s.out)
    rec = Rec(frozenset(engine.known_findings(mod.ID)))
    here = engine.execute(mod, s, rec, alarm=False, only=p.usable)
    choices = s.out[start:]
    if here is not None:
        # broken here already (or nothing to judge): the matter of that check
        raise Discard("not judged")
    process = running.get(where)
    if process is None:
        process = running[where] = Elsewhere(where)
    got, ended = process.judge(p.ID, choices)
    if ended:
        running.pop(where).end()
        # once more, in case the machine was out of memory
        process = running[where] = Elsewhere(where)
        got, ended = process.judge(p.ID, choices)
        if ended:
            running.pop(where).end()
    r.check(
        got is None,
        f"holds here, but not elsewhere ({where}): {got}",
        case=rec.sample_data,
        check=p.ID,
    )
    r.label(where)
    r.label(p.ID)
    if rec.key is not None:
        r.nontrivial(where, p.ID, tuple(choices))
        r.sample(where=where, check=p.ID, case=rec.sample_data)


def gen_input(s, task):
    if task == "factory":
        return ref.gen_object(s).block()
    if task == "parser":
        return b"".join(ref.gen_object(s).block() for _ in range(s.int(1, 4)))
    service = s.choice(ref.ANSWERED)
    payload = gen_response(s, service).payload
    a = (s.u16(), s.u8(), s.u16(), s.u8())
    if task == "application":
        return payload
    if task == "frames":
        return ref.build_frame(s.choice((ref.RESPONSE, ref.ENC_RESPONSE)), service, *a, payload)
    if task in ("client", "connection"):
        return ref.stuff(ref.build_frame(ref.RESPONSE, service, *a, payload))[:-1]
    return s.bytes(8) + gen_payload(s, False)


def alone_(s, r):
    """One part of the package, in a process that has imported nothing else of it."""
    task = s.choice(sorted(alone.TASKS))
    inputs = [gen_input(s, task) for _ in range(s.int(1, 16))]
    here = alone.results(task, inputs)
    there = alone.there(engine.REPO, task, inputs)
    if isinstance(there, str):
        r.fail(f"{task} cannot be used alone: {there}")
    # as JSON has it
    for data, a, b in zip(inputs, here, there):
        r.check(a == b, f"{task} alone gives something else", input=data, alone=b, otherwise=a)
    r.label("alone: " + task)
    r.nontrivial("alone", task, tuple(inputs))


FACETS = [(250, "elsewhere", elsewhere), (1, "alone", alone_)]
QUICK = 24000
THOROUGH = 700000
