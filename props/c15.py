import attr

from elgas import constants
from props.c23 import together
from vlib import clock, ref
from vlib.device import Line
from vlib.engine import Fail, call, must
from vlib.threads import Threads, gen_plan
from vlib.world import (
    NEED,
    RESPONSE_CLASS,
    damage,
    error_for,
    gen_long,
    gen_noise,
    gen_request,
    gen_response,
    gen_setup,
    poll,
)

ID = "C15"
RULE = (
    "2-4 connections (or clients) of different configuration, each with its own script of sends,"
    " received pieces (split, damaged, errors, left-overs) and polls; run alone and merged in a"
    " generated order, or run in threads that are switched at lines of the package by a generated"
    " plan, or rarely 35-560 connections at once; every step must give the same outcome; non-trivial: at least two connections that both"
    " receive data, merged with switches (distinct merges and plans)"
)


def plain(x):
    """Comparable form of a result."""
    if attr.has(type(x)):
        return (
            type(x).__name__,
            tuple((a.name, plain(getattr(x, a.name))) for a in attr.fields(type(x))),
        )
    if isinstance(x, (bytes, bytearray)):
        return bytes(x)
    if isinstance(x, (list, tuple)):
        return tuple(plain(y) for y in x)
    return x


def sent_form(setup, wire):
    """What a device reads from sent bytes, without the random parts."""
    try:
        fields, payload = setup.read_request(wire)
    except Fail as e:
        return ("unreadable", e.message)
    fields = dict(fields, payload=payload[:6] + payload[10:])
    return tuple(sorted(fields.items()))


def gen_script(s, setup):
    """List of operations that make sense one after the other."""
    ops = []
    for _ in range(s.int(1, 3)):
        req = gen_request(s, setup.password)
        ops.append(("send", req))
        end = s.weighted([(6, "response"), (2, "error"), (2, "noise"), (1, "partial"), (1, "wrong"), (2, "undecodable")])
        resp = gen_response(s, req.service)
        if end == "error":
            stream = setup.wire(s, req.service, bytes((s.int(1, 255),)))
        elif end == "undecodable":
            stream = setup.wire(s, req.service, resp.payload[: s.int(0, 24)] + s.bytes(0, 3))
        elif end == "wrong":
            other = s.choice(ref.ANSWERED)
            stream = setup.wire(s, other, gen_response(s, other).payload)
        else:
            stream = setup.wire(s, req.service, resp.payload)
        if end == "noise":
            stream = damage(s, stream) + stream
        if end == "partial":
            stream = stream[: s.int(1, len(stream) - 1)]
        for piece in s.split(stream, 3):
            ops.append(("feed", piece))
            if s.chance(0.3):
                ops.append(("poll", None))
        ops.append(("poll", None))
    return ops


def step(setup, conn, op):
    kind, arg = op
    if kind == "send":
        got = call(conn.send, arg.make())
        return ("sent", sent_form(setup, got.value)) if got.ok else ("raised", type(got.error))
    if kind == "feed":
        got = call(conn.receive_data, arg)
        return ("fed", None) if got.ok else ("raised", type(got.error))
    got = call(conn.next_event)
    if not got.ok:
        return ("raised", type(got.error))
    return ("need", None) if got.value is NEED else ("event", plain(got.value))


def merge(s, scripts):
    """Order of the steps: list of script numbers."""
    left = [len(x) for x in scripts]
    order = []
    while any(left):
        live = [i for i, n in enumerate(left) if n]
        i = s.choice(live)
        run = min(left[i], s.choice((1, 1, 2, 3)))
        order += [i] * run
        left[i] -= run
    return order


def connections(s, r):
    n = s.int(2, 4)
    setups = [gen_setup(s) for _ in range(n)]
    if s.chance(0.3):
        setups[1] = setups[0]  # the same configuration twice
    scripts = [gen_script(s, x) for x in setups]
    alone = []
    for setup, script in zip(setups, scripts):
        conn = setup.connection()
        alone.append([step(setup, conn, op) for op in script])
    order = merge(s, scripts)
    late = s.bool()
    conns = {} if late else {i: setups[i].connection() for i in range(n)}
    at = [0] * n
    for i in order:
        if i not in conns:
            conns[i] = setups[i].connection()
        op = scripts[i][at[i]]
        clock.pause(s, r, 0.02)
        got = step(setups[i], conns[i], op)
        want = alone[i][at[i]]
        r.check(
            got == want,
            f"step {at[i]} ({op[0]}) of connection {i} differs from its run alone",
            got=got,
            want=want,
            order=order,
        )
        at[i] += 1
    switches = sum(a != b for a, b in zip(order, order[1:]))
    r.label("created when first used" if late else "created first")
    r.label("key shared" if setups[1] is setups[0] else "all different")
    for steps in alone:
        for kind, what in steps:
            r.label(kind if kind != "raised" else f"raised {what.__name__}")
    if switches >= 2:
        r.nontrivial(tuple(order), tuple(op[1] for x in scripts for op in x if op[0] == "feed"))
        r.sample(order=order, connections=n)


def clients(s, r):
    """Whole operations of several clients in a generated order."""
    n = s.int(2, 3)
    made = []
    for _ in range(n):
        setup = gen_setup(s)
        script = []
        for _ in range(s.int(1, 4)):
            req = gen_request(s, setup.password)
            resp = gen_response(s, req.service)
            if req.service in (ref.READ_PARAMS, ref.READ_TIME):
                req = gen_request(s, setup.password, ref.READ_VALUES)
                resp = gen_response(s, req.service)
            status = s.int(1, 255) if s.chance(0.2) else 0
            script.append((req, resp, status))
        made.append((setup, script))
    lines = []
    for setup, script in made:
        line = Line(None)
        lines.append((line, setup.client(line)))
    for line, c in lines:
        c.connect()
    for i in merge(s, [x[1] for x in made]):
        setup, script = made[i]
        line, c = lines[i]
        req, resp, status = script.pop(0)
        clock.pause(s, r)

        def answer(wire):
            setup.check_request(r, wire, req, (0, 0, 0, 0))
            payload = bytes((status,)) if status else resp.payload
            return s.split(setup.wire(s, req.service, payload))

        line.answer = answer
        kw = dict(req.kwargs)
        if req.service == ref.READ_VALUES:
            got = call(c.read_instantaneous_values)
        elif req.service == ref.WRITE_TIME:
            got = call(c.write_time, kw["device_time"], req.cryout)
        elif req.service == ref.READ_ARCHIVE:
            got = call(c.read_archive, **kw)
        else:
            got = call(c.read_archive_by_time, **kw)
        if status:
            r.check(type(got.error) is error_for(status), "device error", outcome=got)
        else:
            r.check(got.ok, f"operation of client {i}", outcome=got)
            if req.service != ref.WRITE_TIME:
                bad = resp.mismatch(got.value)
                r.check(bad is None, f"client {i}: {bad}")
    r.label("clients")
    r.nontrivial(tuple(x[0].password for x in made))


def threads(s, r):
    """Each connection in a thread of its own, switched between at lines of the package."""
    n = s.weighted([(3, 2), (1, 3)])
    setups = [gen_setup(s) for _ in range(n)]
    scripts = [gen_script(s, x) for x in setups]
    alone = []
    for setup, script in zip(setups, scripts):
        conn = setup.connection()
        alone.append([step(setup, conn, op) for op in script])
    conns = [x.connection() for x in setups] if s.bool() else [None] * n

    def body(i):
        def run():
            conn = conns[i] or setups[i].connection()
            return [step(setups[i], conn, op) for op in scripts[i]]

        return run

    together = Threads([body(i) for i in range(n)], gen_plan(s))
    for i, (ok, got) in enumerate(together.run()):
        r.check(ok, f"thread of connection {i} ended with {got!r}")
        for k, (a, b) in enumerate(zip(got, alone[i])):
            r.check(
                a == b,
                f"step {k} ({scripts[i][k][0]}) of connection {i} in a thread differs from its run alone",
                got=a,
                want=b,
                plan=together.plan,
            )
    r.label("threads")
    if together.switches >= 2:
        r.nontrivial(tuple(together.plan), tuple(x.password for x in setups))
        r.sample(plan=together.plan, switches=together.switches)


def crowd(s, r):
    """Hundreds of connections, each with a request outstanding before the first answer comes."""
    n = gen_long(s) // 2
    setups = [gen_setup(s) for _ in range(s.int(2, 6))]
    order = s.bytes(1, 12)
    members = []
    for i in range(n):
        base = setups[order[i % len(order)] % len(setups)]
        # alike, but with a key, address and password of its own
        key = bytes((b + i) & 0xFF for b in base.key) if base.key is not None else None
        setup = attr.evolve(base, key=key, src=(i, base.src[1]), password=f"{i:06d}")
        req = gen_request(s, setup.password) if i < 12 else members[i % 12][2]
        members.append((setup, setup.connection(), req))
    wires = []
    for i, (setup, conn, req) in enumerate(members):
        if i >= 12:
            req = attr.evolve(req, password=setup.password)
        sent = must(r, f"request of connection {i}", conn.send, req.make())
        fields, _ = setup.check_request(r, sent, req)
        r.equal((fields["src1"], fields["src2"]), setup.src, f"address of connection {i}")
    answers = {}
    for i, (setup, conn, req) in enumerate(members):
        if i % 12 not in answers:
            answers[i % 12] = gen_response(s, req.service)
        resp = answers[i % 12]
        pad = bytes(ref.padding_needed(len(resp.payload)))
        payload = ref.encrypt(resp.payload, setup.key, setup.key_id, pad) if setup.encrypted else resp.payload
        kind = ref.ENC_RESPONSE if setup.encrypted else ref.RESPONSE
        wire = ref.stuff(ref.build_frame(kind, req.service, 1, 2, 3, 4, payload))
        wires.append(wire)
        conn.receive_data(wire[: i % len(wire)])
    for i, (setup, conn, req) in enumerate(members):
        conn.receive_data(wires[i][i % len(wires[i]) :])
    for i, (setup, conn, req) in enumerate(members):
        got = call(conn.next_event)
        r.check(got.ok, f"answer to connection {i} of {n}", outcome=got)
        bad = answers[i % 12].mismatch(got.value)
        r.check(bad is None, f"answer to connection {i} of {n}: {bad}")
    r.label("crowd")
    r.nontrivial("crowd", n, order, wires[0])


FACETS = [
    (3000, "connections", connections),
    (600, "clients", clients),
    (600, "threads", threads),
    (4, "crowd", crowd),
    (30, "transports together", together),
]
QUICK = 24000
THOROUGH = 1000000
