import threading

from elgas import exceptions
from props.c22 import SERVICES, operation, parameters, perform
from vlib import clock, ref
from vlib.device import Line
from vlib.engine import Out, call, must
from vlib.peers import peer
from vlib.world import (
    damage,
    gen_exchanges,
    gen_long,
    gen_noise,
    gen_request,
    gen_response,
    gen_setup,
)

ID = "C28"
RULE = (
    "1-3 rounds: an operation that fails (connect, send, receive after any number of bytes, timeout"
    " inside a message, answer to another service, device error with left-overs, undecodable answer,"
    " interruption), disconnect that may fail, connect, then 1-3 operations that must work;"
    " non-trivial: the failure came after the request was sent (distinct request, answer and cut)"
)


class Interrupted(BaseException):
    """Stands for KeyboardInterrupt."""


def attempt(fn, *args):
    try:
        got = call(fn, *args)
        return got.value if got.ok and isinstance(got.value, Out) else got
    except Interrupted as e:
        return call(lambda: (_ for _ in ()).throw(RuntimeError(repr(e))))


class Trouble:
    """Raises at a chosen operation of the transport."""

    def __init__(self, where, count, error):
        self.where, self.count, self.error = where, count, error
        self.hit = False

    def __call__(self, operation):
        if operation != self.where or self.hit:
            return
        if self.count == 0:
            self.hit = True
            raise self.error
        self.count -= 1


def gen_error(s):
    return s.weighted(
        [
            (6, exceptions.CommunicationError("line")),
            (1, exceptions.CommunicationError()),
            (1, OSError("line")),
            (1, Interrupted()),
        ]
    )


def failing_stream(s, setup, service, resp):
    """What the device sends in a failing exchange: bytes, and what may be wrong with them."""
    mode = s.weighted(
        [
            (4, "good"),
            (2, "cut"),
            (2, "other service"),
            (2, "device error"),
            (1, "two responses"),
            (1, "damaged"),
            (1, "undecodable"),
            (1, "other services after"),
        ]
    )
    good = setup.wire(s, service, resp.payload)
    other = s.choice([x for x in ref.ANSWERED if x != service])
    if mode == "cut":
        return mode, good[: s.int(0, len(good) - 1)]
    if mode == "other service":
        return mode, setup.wire(s, other, gen_response(s, other).payload)
    if mode == "device error":
        out = setup.wire(s, service, bytes((s.int(1, 255),)))
        if s.bool():
            out += good[: s.int(0, len(good))]
        return mode, out
    if mode == "two responses":
        return mode, good + setup.wire(s, other, gen_response(s, other).payload)
    if mode == "damaged":
        return mode, damage(s, good)
    if mode == "undecodable":
        return mode, setup.wire(s, service, s.bytes(0, 6))
    if mode == "other services after":
        return mode, good + setup.wire(s, service, gen_response(s, service).payload)[:-1]
    return mode, good


def failing(s, r, setup, line, c):
    """An operation that goes wrong, or at least leaves something behind."""
    where = s.weighted([(6, "recv"), (1, "send"), (2, "sent"), (2, "runs dry")])
    service = s.choice(SERVICES + (ref.READ_PARAMS,))
    req = gen_request(s, setup.password, service)
    resp = gen_response(s, service)
    what, stream = failing_stream(s, setup, service, resp)
    noise = gen_noise(s, setup, service, resp) if s.chance(0.15) else None
    if noise:
        stream = noise + stream
    pieces = s.split(stream, 5)
    asked = []

    def answer(wire):
        asked.append(wire)
        return list(pieces) if len(asked) == 1 else []

    line.answer = answer
    error = gen_error(s)

    def dry(operation):
        if operation == "recv" and not line.pieces:
            raise error

    trouble = Trouble(where, s.int(0, len(pieces)) if where == "recv" else 0, error)

    def fail_on(operation):
        trouble(operation)
        dry(operation)

    line.fail_on = fail_on
    if service == ref.READ_PARAMS:
        got = attempt(c.read_parameters, s.int(0, 100))
    else:
        got = attempt(perform, c, req, s.bool())
    line.fail_on = None
    if trouble.hit:
        r.check(not got.ok, f"an operation whose line failed ({where}) {got!r}", answer=stream)
    if got.ok:
        # some answers only leave bytes behind (in the line or in the client)
        r.label("failing: went well")
    elif isinstance(got.error, RuntimeError):
        r.label("failing: interrupted")
    else:
        r.label(f"failing: {got.error.__class__.__name__}")
    r.label(f"{what} / {where}")
    return (req.tail, stream, where, trouble.hit) if asked else None


def reported(r, line, got, what):
    """A failure of the line reaches the caller."""
    if line.fail_on is not None and line.fail_on.hit:
        r.check(not got.ok, f"{what} on a line that failed {got!r}")
    line.fail_on = None


def reconnect(s, r, line, c):
    if s.chance(0.2):
        line.fail_on = Trouble("disconnect", 0, exceptions.CommunicationError("closing"))
        r.label("disconnect fails")
    got = attempt(c.disconnect)
    reported(r, line, got, "disconnect")
    if s.chance(0.1):
        attempt(c.disconnect)
    for _ in range(s.weighted([(8, 0), (1, 1), (1, 2)])):
        line.fail_on = Trouble("connect", 0, gen_error(s))
        reported(r, line, attempt(c.connect), "connect")
        r.label("connect fails")
        if s.bool():
            attempt(c.disconnect)
    clock.pause(s, r, 0.1)
    must(r, "connect after a failure", c.connect)
    clock.pause(s, r)


def rounds(s, r):
    setup = gen_setup(s)
    line = Line(None)
    c = setup.client(line)
    addresses = (0, 0, 0, 0)
    if s.chance(0.1):
        line.fail_on = Trouble("connect", 0, gen_error(s))
        reported(r, line, attempt(c.connect), "connect")
        r.label("first connect fails")
    must(r, "connect", c.connect)
    key = []
    for _ in range(s.weighted([(5, 1), (2, 2), (1, 3)])):
        if s.chance(0.3):
            operation(s, r, setup, addresses, line, c)
        for _ in range(s.weighted([(6, 1), (1, 2)])):
            key.append(failing(s, r, setup, line, c))
        reconnect(s, r, line, c)
        for _ in range(s.int(1, 3)):
            (parameters if s.chance(0.15) else operation)(s, r, setup, addresses, line, c)
    if any(key):
        r.nontrivial(tuple(key))
        r.sample(failures=key)


class Device(threading.Thread):
    """A device at the other end of a real line: plays the given exchanges.

    An exchange is (bytes to answer a request with, pieces and end of connection).
    """

    def __init__(self, p, answer, then_close):
        super().__init__(daemon=True)
        self.p, self.answer, self.then_close = p, answer, then_close
        self.request = b""
        self.start()

    def run(self):
        try:
            while not self.request.endswith(b"\x0d"):
                more = self.p.read(1)
                if not more:
                    return
                self.request += more
            if self.answer:
                self.p.write(self.answer)
            if self.then_close:
                self.p.close()
        except OSError:
            pass


def judge(s, r, setup, req, resp, wire, got, left_over):
    """The operation has to have asked for the right thing and returned what was answered."""
    setup.check_request(r, wire, req, (0, 0, 0, 0))
    r.check(got.ok, f"operation in a new session: {got!r}", left_over=left_over, payload=resp.payload)
    if req.service == ref.READ_TIME:
        r.equal(got.value, resp.expected["time"], "device time", payload=resp.payload)
    elif req.service != ref.WRITE_TIME:
        bad = resp.mismatch(got.value)
        r.check(bad is None, bad or "", left_over=left_over, payload=resp.payload)


def lines(kind):
    """Sessions over a real transport, the first of which leaves bytes behind."""

    def run(s, r):
        setup = gen_setup(s)
        with peer(kind) as p:
            t = p.transport(10)
            c = setup.client(t)
            key = []
            for _ in range(s.weighted([(3, 1), (1, 2)])):
                must(r, "connect", c.connect)
                p.accept()
                service = s.choice(SERVICES)
                req, resp = gen_request(s, setup.password, service), gen_response(s, service)
                what, stream = failing_stream(s, setup, service, resp)
                # an incomplete answer would be waited for, so the connection ends after it
                closing = kind == "tcp" and (what in ("cut", "damaged") or s.chance(0.2))
                if not closing and not stream.endswith(b"\x0d"):
                    stream += b"\x0d"
                if not closing:
                    # whatever the client makes of it, this ends the operation
                    stream += setup.wire(s, service, bytes((s.int(1, 255),)))
                stream += setup.wire(s, service, gen_response(s, service).payload)[: s.int(0, 40)]
                device = Device(p, stream, closing)
                got = attempt(perform, c, req, s.bool())
                device.join(30)
                r.label(f"{kind}: {what}: " + ("went well" if got.ok else type(got.error).__name__))
                key.append((req.tail, stream))
                attempt(c.disconnect)
                if kind == "tcp":
                    p.close()
                must(r, "connect after a failure", c.connect)
                p.accept()
                for _ in range(s.int(1, 2)):
                    service = s.choice(SERVICES)
                    req, resp = gen_request(s, setup.password, service), gen_response(s, service)
                    wire = setup.wire(s, service, resp.payload)
                    device = Device(p, wire, False)
                    got = attempt(perform, c, req, s.bool())
                    device.join(30)
                    judge(s, r, setup, req, resp, device.request, got, stream)
                must(r, "disconnect", c.disconnect)
                if kind == "tcp":
                    p.close()
            r.nontrivial(kind, tuple(key))
            r.sample(kind=kind, exchanges=key)

    return run


def long(s, r):
    """Hundreds of failures and reconnections of one client."""
    setup = gen_setup(s)
    line = Line(None)
    c = setup.client(line)
    must(r, "connect", c.connect)
    exchanges = gen_exchanges(s, setup, SERVICES, errors=0)
    failures = gen_exchanges(s, setup, SERVICES, errors=0.5)
    n = gen_long(s) // 2
    order = s.bytes(1, 12)
    cuts = s.bytes(1, 12)
    for i in range(n):
        x = order[i % len(order)]
        req, _, status, stream = failures[x % len(failures)]
        cut = cuts[i % len(cuts)] % len(stream)
        if status:
            cut = len(stream)
        error = exceptions.CommunicationError(f"failure {i}")
        line.answer = lambda wire: [stream[:cut]] if cut else []

        def dry(operation):
            if operation == "recv" and not line.pieces:
                raise error

        line.fail_on = dry
        got = attempt(perform, c, req, False)
        line.fail_on = None
        if not status:
            r.check(got.error is error, f"failure {i}: {got!r}")
        attempt(c.disconnect)
        must(r, f"connection {i}", c.connect)
        req, resp, _, wire = exchanges[x // 16 % len(exchanges)]
        sent = []

        def answer(data):
            sent.append(data)
            return [wire]

        line.answer = answer
        got = attempt(perform, c, req, False)
        r.check(len(sent) == 1, f"requests in session {i}", sent=sent, outcome=got)
        judge(s, r, setup, req, resp, sent[0], got, stream[:cut])
    r.label("long history")
    r.nontrivial("long", n, order, cuts, tuple(x[3] for x in exchanges + failures))


FACETS = [
    (1200, "rounds", rounds),
    (300, "tcp", lines("tcp")),
    (100, "serial", lines("serial")),
    (3, "long", long),
]
QUICK = 24000
THOROUGH = 900000
