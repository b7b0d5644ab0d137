from vlib import clock, ref
from vlib.engine import call, must
from vlib.world import NEED, Resp, gen_exchanges, gen_long, gen_request, gen_response, gen_setup

ID = "C11"
RULE = (
    "1-4 exchanges on one connection; every response is fed in generated pieces (one, up to 7, or"
    " byte by byte) with polls, empty reads and stray end bytes in between and must equal the"
    " response delivered when fed in one piece; non-trivial: split in two or more pieces with a"
    " poll before the last one; rarely one response of up to 65520 bytes of payload, or"
    " hundreds of responses in pieces on one connection"
)


def poll_need(r, conn, when, wire):
    got = call(conn.next_event)
    r.check(got.ok and got.value is NEED, f"poll {when}", outcome=got, wire=wire)


def feed(s, conn, piece):
    if s.chance(0.8):
        conn.receive_data(piece)
        return
    # a buffer that the caller goes on using
    buf = bytearray(piece)
    conn.receive_data(buf)
    if s.bool():
        buf[:] = s.bytes(len(buf))
    elif s.bool():
        buf.clear()
    else:
        buf += s.bytes(1, 8)


def exchanges(s, r):
    setup = gen_setup(s)
    conn = must(r, "creating a connection", setup.connection)
    polled = 0
    split = 0
    shape = []
    n = s.int(1, 4)
    for i in range(n):
        req = gen_request(s, setup.password)
        resp = gen_response(s, req.service, big=True)
        must(r, "sending a request", conn.send, req.make())
        wire = setup.wire(s, req.service, resp.payload)
        alone = setup.connection()
        alone.send(req.make())
        alone.receive_data(wire)
        whole = must(r, "one-piece delivery", alone.next_event)
        bad = resp.mismatch(whole)
        r.check(bad is None, f"one-piece delivery: {bad}", wire=wire)
        # before: nothing, an empty read, a stray end byte of its own or joined to the response
        before = s.weighted([(5, ""), (1, "empty"), (2, "stray"), (2, "joined")])
        stream = wire
        if before == "empty":
            conn.receive_data(b"")
        elif before == "stray":
            conn.receive_data(b"\x0d")
            if s.bool():
                poll_need(r, conn, "after a stray end byte", wire)
        elif before == "joined":
            stream = b"\x0d" + wire
        after = s.weighted([(5, ""), (1, "joined")])
        pieces = s.split(stream)
        split = max(split, len(pieces))
        shape.append(tuple(map(len, pieces)))
        for j, piece in enumerate(pieces):
            last = j == len(pieces) - 1
            if last and after:
                piece = piece + b"\x0d"
            feed(s, conn, piece)
            clock.pause(s, r)
            if not last:
                if s.chance(0.4):
                    polled += 1
                    poll_need(r, conn, "before the last byte arrived", wire)
                if s.chance(0.1):
                    conn.receive_data(b"")
        got = call(conn.next_event)
        r.check(got.ok, "poll after the last byte", outcome=got, wire=wire, pieces=pieces)
        bad = resp.mismatch(got.value)
        r.check(bad is None, bad or "", wire=wire, pieces=pieces)
        r.check(got.value == whole, "differs from one-piece delivery", got=got, want=whole)
        for _ in range(s.int(1, 2)):
            poll_need(r, conn, "after delivery", wire)
        clock.pause(s, r)
        tail = s.weighted([(5, ""), (1, "empty"), (2, "stray")])
        if tail:
            conn.receive_data(b"" if tail == "empty" else b"\x0d")
            if s.bool():
                poll_need(r, conn, f"after {tail} between responses", wire)
        r.label(f"{before or 'nothing'} before")
    r.label("encrypted" if setup.encrypted else "plain")
    r.label("bytewise" if split > 7 else f"{split} pieces")
    if split > 1 and polled:
        r.nontrivial(setup.encrypted, wire, tuple(shape), n)
        r.sample(exchanges=n, pieces=shape, last_wire=wire)


def huge(s, r):
    """A response of up to the largest size, which replaced bytes make longer still."""
    setup = gen_setup(s)
    conn = must(r, "creating a connection", setup.connection)
    req = gen_request(s, setup.password, s.choice((ref.READ_PARAMS, ref.READ_ARCHIVE)))
    resp = gen_response(s, req.service)
    head = {ref.READ_PARAMS: 5, ref.READ_ARCHIVE: 5}[req.service]
    room = ref.MAX_PAYLOAD - head - (40 if setup.encrypted else 0)
    n = s.choice((9000, 20000, 33000, 40000, room - 1, room))
    unit = s.bytes(1, 60)
    data = (unit * (n // len(unit) + 1))[:n]
    resp = Resp(req.service, resp.payload[:head] + data, dict(resp.expected, data=data))
    must(r, "sending a request", conn.send, req.make())
    wire = setup.wire(s, req.service, resp.payload)
    pieces = []
    at = 0
    step = s.choice((999, 1024, 4096, 70000, 200000))
    while at < len(wire):
        pieces.append(wire[at : at + step])
        at += step
    for piece in pieces:
        poll_need(r, conn, "before the last byte arrived", b"")
        conn.receive_data(piece)
    got = call(conn.next_event)
    r.check(got.ok, "poll after the last byte", outcome=got, bytes=len(wire), piece=step)
    bad = resp.mismatch(got.value)
    r.check(bad is None, bad or "", bytes=len(wire), piece=step)
    poll_need(r, conn, "after delivery", b"")
    r.label("huge")
    if len(pieces) > 1:
        r.nontrivial("huge", n, unit, step)


def long(s, r):
    """Hundreds of responses on one connection, most of them in two pieces."""
    setup = gen_setup(s)
    conn = setup.connection()
    steps = gen_exchanges(s, setup, errors=0)
    n = gen_long(s)
    order = s.bytes(1, 12)
    cut = s.int(1, 12)
    for i in range(n):
        x = order[i % len(order)]
        req, resp, _, wire = steps[x % len(steps)]
        must(r, f"sending request {i}", conn.send, req.make())
        at = cut * (1 + i % 3) % len(wire)
        for piece in (wire[:at], wire[at:-1]):
            if x & 0x40:
                poll_need(r, conn, f"within response {i}", wire)
            conn.receive_data(piece)
        poll_need(r, conn, f"before the end of response {i}", wire)
        conn.receive_data(wire[-1:])
        value = must(r, f"response {i} in pieces", conn.next_event)
        bad = resp.mismatch(value)
        r.check(bad is None, f"response {i}: {bad}", wire=wire, cut=at)
    r.label("many responses")
    r.nontrivial("long", n, order, cut, tuple(x[3] for x in steps))


FACETS = [(900, "exchanges", exchanges), (2, "huge", huge), (1, "long", long)]
QUICK = 60000
THOROUGH = 1600000
