from elgas import exceptions
from vlib import clock, ref
from vlib.engine import Discard, call, must
from vlib.world import NEED, gen_long, gen_noise, gen_request, gen_response, gen_setup

ID = "C12"
RULE = (
    "while a response is awaited (or beginning before the request), 1-4 pieces of noise ending in the end byte (damaged and crafted"
    " frames, runts, requests, foreign ciphertext, random bytes, up to 2500 end bytes; judged by the"
    " reference to hold no response) arrive in any chunking, followed by the intact response;"
    " rarely 70-1100 noises in a row or one of up to 200 kB; non-trivial: noise that is not only end bytes (distinct streams)"
)
ASSUMPTIONS = ["noise that happens to contain a response valid for the session is left out"]


def judge(r, got, may_deliver, stream):
    """'need', 'error' or the delivered value."""
    if got.ok:
        if got.value is NEED:
            return "need"
        r.check(may_deliver, "delivered before the intact response arrived", got=got, stream=stream)
        return got.value
    r.check(
        isinstance(got.error, exceptions.ElgasError),
        f"poll raises {type(got.error).__name__} from outside the package",
        outcome=got,
        stream=stream,
    )
    return "error"


def noise(s, r):
    setup = gen_setup(s)
    conn = setup.connection()
    rounds = s.int(1, 2)
    key = []
    seen = []
    for _ in range(rounds):
        req = gen_request(s, setup.password)
        resp = gen_response(s, req.service)
        early = rest = b""
        if s.chance(0.25):
            # it begins before the request is sent
            out = gen_noise(s, setup, req.service, resp, seen)
            if out is None:
                raise Discard("noise holds a response")
            early = out if s.bool() else out[: s.int(0, len(out))]
            rest = out[len(early) :]
            conn.receive_data(early)
            if s.bool():
                judge(r, call(conn.next_event), False, early)
            r.label("noise before the request")
        must(r, "sending a request", conn.send, req.make())
        parts = [rest] if rest else []
        for _ in range(s.int(1, 4)):
            out = gen_noise(s, setup, req.service, resp, seen)
            if out is None:
                raise Discard("noise holds a response")
            parts.append(out)
        bad_bytes = b"".join(parts)
        seen.append(setup.wire(s, req.service, resp.payload))
        stream = bad_bytes + seen[-1]
        how = s.weighted([(4, "together"), (4, "separate"), (3, "cut")])
        if how == "together":
            pieces = [stream]
        elif how == "separate":
            pieces = parts + [stream[len(bad_bytes) :]]
        else:
            pieces = s.split(stream)
        if s.chance(0.3):
            other = gen_request(s, setup.password)
        else:
            other = None
        for piece in pieces[:-1]:
            conn.receive_data(piece)
            clock.pause(s, r)
            for _ in range(s.int(0, 2)):
                judge(r, call(conn.next_event), False, stream)
                if other is not None:
                    got = call(conn.send, other.make())
                    r.check(
                        isinstance(got.error, exceptions.LocalElgasProtocolError),
                        "noise changed the outstanding request",
                        outcome=got,
                        stream=stream,
                    )
        conn.receive_data(pieces[-1])
        errors = 0
        while True:
            value = judge(r, call(conn.next_event), True, stream)
            r.check(value != "need", "intact response after noise is not delivered", stream=stream)
            if value != "error":
                break
            errors += 1
            r.check(errors < 20, "errors instead of the intact response", stream=stream)
        bad = resp.mismatch(value)
        r.check(bad is None, f"response after noise: {bad}", stream=stream)
        got = call(conn.next_event)
        r.check(got.ok and got.value is NEED, "left-overs after the response", outcome=got)
        r.label(how)
        key.append((early, stream))
        if bad_bytes.strip(b"\x0d"):
            r.nontrivial(tuple(key))
            r.sample(noise=bad_bytes, pieces=len(pieces), encrypted=setup.encrypted)
    r.label("encrypted" if setup.encrypted else "plain")


def much(s, r):
    """Hundreds of damaged frames before the response."""
    setup = gen_setup(s)
    conn = setup.connection()
    req = gen_request(s, setup.password)
    resp = gen_response(s, req.service)
    must(r, "sending a request", conn.send, req.make())
    parts = []
    for _ in range(s.int(1, 3)):
        out = gen_noise(s, setup, req.service, resp)
        if out is None:
            raise Discard("noise holds a response")
        if len(out) > 3000:
            out = b"\x02\xfe\x86\x0d"
        parts.append(out)
    n = gen_long(s)
    order = s.bytes(1, 12)
    parts = [parts[order[i % len(order)] % len(parts)] for i in range(n)]
    wire = setup.wire(s, req.service, resp.payload)
    if s.bool():
        conn.receive_data(b"".join(parts) + wire)
    else:
        for part in parts:
            conn.receive_data(part)
            judge(r, call(conn.next_event), False, part)
        conn.receive_data(wire)
    while True:
        value = judge(r, call(conn.next_event), True, parts[0] + wire)
        r.check(value != "need", f"response after {n} times noise is not delivered", noise=parts[0])
        if value != "error":
            break
    bad = resp.mismatch(value)
    r.check(bad is None, f"response after {n} times noise: {bad}", noise=parts[0])
    r.label("much noise")
    r.nontrivial("much", n, order, tuple(parts[:3]))


def huge(s, r):
    """More noise before its end byte than the longest frame has."""
    setup = gen_setup(s)
    conn = setup.connection()
    req = gen_request(s, setup.password)
    resp = gen_response(s, req.service)
    must(r, "sending a request", conn.send, req.make())
    unit = s.bytes(1, 64).replace(b"\x0d", b"\x0e")
    n = s.choice((60_000, 66_000, 132_000, 140_000, 200_000))
    noise = unit * (n // len(unit)) + b"\x0d"
    stream = noise + setup.wire(s, req.service, resp.payload)
    how = s.choice(("together", "separate", "cut"))
    if how == "together":
        pieces = [stream]
    elif how == "separate":
        pieces = [noise, stream[len(noise) :]]
    else:
        pieces = s.split(stream)
    for piece in pieces[:-1]:
        conn.receive_data(piece)
        judge(r, call(conn.next_event), False, (unit, n, [len(x) for x in pieces]))
    conn.receive_data(pieces[-1])
    for _ in range(4):
        value = judge(r, call(conn.next_event), True, (unit, n))
        r.check(
            value != "need", f"response after {len(noise)} bytes of noise is not delivered", unit=unit
        )
        if value != "error":
            break
    else:
        r.fail("errors instead of the intact response", unit=unit, size=n)
    bad = resp.mismatch(value)
    r.check(bad is None, f"response after {len(noise)} bytes of noise: {bad}", unit=unit)
    r.label("huge noise")
    r.nontrivial("huge", n, unit, how)


FACETS = [(3000, "noise", noise), (2, "much", much), (1, "huge", huge)]
QUICK = 80000
THOROUGH = 1600000
