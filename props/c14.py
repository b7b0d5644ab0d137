import attr

from vlib import clock, ref
from vlib.engine import call, must
from vlib.world import (
    NEED,
    error_for,
    gen_exchanges,
    gen_long,
    gen_request,
    gen_response,
    gen_setup,
)

ID = "C14"
RULE = (
    "a status byte 1-255 as the answer to any request, plain or encrypted (or plain in an encrypted session), alone or after normal"
    " exchanges, possibly with more bytes behind it, in any chunking; then normal exchanges or"
    " further errors; non-trivial: every (status, service, encryption, left-over kind) combination"
)


def gen_form(s, setup):
    """The device's form of the next answer: it may leave out the encryption."""
    return attr.evolve(setup, key=None) if setup.encrypted and s.chance(0.25) else setup


def gen_left_over(s, setup, service):
    what = s.weighted(
        [(4, ""), (2, "stray"), (2, "partial"), (1, "response"), (1, "garbage"), (1, "error")]
    )
    if what == "stray":
        return what, b"\x0d"
    if what == "garbage":
        return what, s.bytes(1, 30)
    if what == "error":
        return what, setup.wire(s, service, bytes((s.int(1, 255),)))
    if what in ("partial", "response"):
        other = s.choice(ref.ANSWERED)
        wire = setup.wire(s, other, gen_response(s, other).payload)
        if what == "partial":
            wire = wire[: s.int(1, len(wire) - 1)]
        return what, wire
    return what, b""


def errors(s, r):
    setup = gen_setup(s)
    conn = setup.connection()
    key = []
    for _ in range(s.int(1, 5)):
        req = gen_request(s, setup.password)
        sent = must(r, "request after earlier exchanges", conn.send, req.make())
        setup.check_request(r, sent, req)
        if s.chance(0.35):
            resp = gen_response(s, req.service)
            conn.receive_data(gen_form(s, setup).wire(s, req.service, resp.payload))
            bad = resp.mismatch(must(r, "response after earlier errors", conn.next_event))
            r.check(bad is None, bad or "", history=key)
            continue
        clock.pause(s, r)
        status = s.int(1, 255)
        what, extra = gen_left_over(s, setup, req.service)
        form = gen_form(s, setup)
        wire = form.wire(s, req.service, bytes((status,)))
        pieces = s.split(wire)
        pieces[-1] += extra
        for piece in pieces:
            conn.receive_data(piece)
            if piece is not pieces[-1] and s.chance(0.3):
                got = call(conn.next_event)
                r.check(got.ok and got.value is NEED, "poll before the last byte", outcome=got)
        got = call(conn.next_event)
        r.check(
            not got.ok, "device error treated as success", status=status, outcome=got, wire=wire
        )
        want = error_for(status)
        r.check(
            type(got.error) is want,
            f"status {status:#04x} raises {type(got.error).__name__}, not {want.__name__}",
            wire=wire,
        )
        key.append((status, req.service, setup.encrypted, form.encrypted, what))
        if form is not setup:
            r.label("plain error in an encrypted session")
        r.label(f"lowest bit {(status & -status).bit_length() - 1}")
        r.label("left over: " + (what or "nothing"))
        if s.bool():
            got = call(conn.next_event)
            r.check(
                got.ok and got.value is NEED,
                f"left-over bytes ({what}) after a device error",
                outcome=got,
            )
    clock.pause(s, r)
    req = gen_request(s, setup.password)
    sent = must(r, "request after a device error", conn.send, req.make())
    setup.check_request(r, sent, req)
    got = call(conn.next_event)
    r.check(got.ok and got.value is NEED, "data before the response", outcome=got, history=key)
    resp = gen_response(s, req.service)
    conn.receive_data(setup.wire(s, req.service, resp.payload))
    bad = resp.mismatch(must(r, "response after a device error", conn.next_event))
    r.check(bad is None, f"response after a device error: {bad}", history=key)
    r.label("encrypted" if setup.encrypted else "plain")
    if key:
        r.nontrivial(tuple(key))
        r.sample(errors=key)


def long(s, r):
    """Hundreds of errors on one connection."""
    setup = gen_setup(s)
    conn = setup.connection()
    exchanges = gen_exchanges(s, setup, errors=0.8)
    n = gen_long(s)
    order = s.bytes(1, 12)
    for i in range(n):
        req, resp, status, wire = exchanges[order[i % len(order)] % len(exchanges)]
        got = call(conn.send, req.make())
        r.check(got.ok, f"request {i}", outcome=got)
        conn.receive_data(wire)
        got = call(conn.next_event)
        if status:
            r.check(
                type(got.error) is error_for(status),
                f"status {status:#04x} in answer {i}: {got!r}",
                wire=wire,
            )
        else:
            r.check(got.ok, f"answer {i}", outcome=got)
            bad = resp.mismatch(got.value)
            r.check(bad is None, f"answer {i}: {bad}", wire=wire)
    r.label("long history")
    r.nontrivial("long", n, order, tuple(x[3] for x in exchanges))


FACETS = [(1500, "errors", errors), (1, "long", long)]
QUICK = 75000
THOROUGH = 2000000
