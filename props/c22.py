from elgas import client as client_module
from elgas import constants
from props.c21 import Pages
from vlib import clock, ref
from vlib.device import Line
from vlib.engine import call, member, must
from vlib.peers import hand
from vlib.world import error_for, gen_exchanges, gen_long, gen_noise, gen_request, gen_response, gen_setup

ID = "C22"
RULE = (
    "1-8 client operations with generated arguments against a device that answers with a response,"
    " a device error, or damaged forms and stray end bytes before the response, cut into pieces"
    " anyhow; also reconnects in between; non-trivial: at least three operations (distinct requests"
    " and answers)"
)


def with_noise(s, r, setup, req, payload):
    """Bytes of one answer, with damage before it and stray end bytes around it."""
    stream = setup.wire(s, req.service, payload)
    n = s.weighted([(6, 0), (3, 1), (1, 2)])
    for _ in range(n):
        noise = gen_noise(s, setup, req.service, gen_response(s, req.service))
        if noise is not None:
            stream = noise + stream
            r.label("damaged before")
    pieces = s.split(stream, 4)
    if s.chance(0.06):
        # with the response comes more: the response again, a part of it, or damage
        again = setup.wire(s, req.service, payload)
        pieces[-1] += again if s.bool() else again[: s.int(1, len(again) - 1)]
        r.label("more after the response")
    elif s.chance(0.15):
        # extra end byte after the response, on its own or with it
        r.label("stray end byte after")
        if s.bool():
            pieces.append(b"\x0d")
        else:
            pieces[-1] += b"\x0d"
    return pieces


class Answers:
    """The device side of one operation with a single request."""

    def __init__(self, s, r, setup, addresses, req, payload):
        self.s, self.r, self.setup, self.addresses = s, r, setup, addresses
        self.req, self.payload = req, payload
        self.seen = 0

    def answer(self, wire):
        self.seen += 1
        self.r.check(self.seen == 1, "one request per answer", requests=self.seen, wire=wire)
        self.setup.check_request(self.r, wire, self.req, self.addresses)
        clock.pause(self.s, self.r)
        return with_noise(self.s, self.r, self.setup, self.req, self.payload)


def perform(c, req, positional):
    kw = dict(req.kwargs)
    if req.service == ref.READ_VALUES:
        return call(c.read_instantaneous_values)
    if req.service == ref.READ_TIME:
        return call(c.read_time)
    if req.service == ref.WRITE_TIME:
        if positional:
            return call(c.write_time, kw["device_time"], req.cryout)
        return call(c.write_time, device_time=kw["device_time"], cryout=req.cryout)
    if req.service == ref.READ_ARCHIVE:
        if positional:
            return call(c.read_archive, kw["archive"], kw["amount"], kw["oldest_record_id"])
        return call(c.read_archive, **kw)
    if positional:
        return call(c.read_archive_by_time, kw["archive"], kw["amount"], kw["oldest_timestamp"])
    return call(c.read_archive_by_time, **kw)


SERVICES = tuple(x for x in ref.ANSWERED if x != ref.READ_PARAMS)


def operation(s, r, setup, addresses, line, c):
    """One operation with a single request; returns its key."""
    service = s.choice(SERVICES)
    req = gen_request(s, setup.password, service)
    resp = gen_response(s, service, s.chance(0.1))
    status = 0
    if s.chance(0.2):
        status = s.int(1, 255) if s.bool() else 1 << s.int(0, 7)
    device = Answers(s, r, setup, addresses, req, bytes((status,)) if status else resp.payload)
    line.answer = device.answer
    got = hand(s, r, 0.02)(perform, c, req, s.bool())
    r.check(device.seen == 1, "requests the device saw", seen=device.seen, outcome=got)
    name = resp.cls.__name__
    if status:
        r.label("device error")
        r.check(
            type(got.error) is error_for(status),
            f"operation answered with device error {status:#04x} {got!r}",
        )
        return (req.tail, status)
    r.label(name)
    r.check(got.ok, f"operation for {name} {got!r}", request=req, payload=resp.payload)
    if service == ref.READ_TIME:
        r.equal(got.value, resp.expected["time"], "device time", payload=resp.payload)
    elif service != ref.WRITE_TIME:
        bad = resp.mismatch(got.value)
        r.check(bad is None, bad or "", request=req, payload=resp.payload)
    return (req.tail, resp.payload)


def refused(s, r, setup, addresses, line, c):
    """An operation whose arguments cannot be sent: it fails, and the device hears nothing of it."""
    heard = []

    def answer(wire):
        heard.append(wire)
        return [setup.wire(s, ref.READ_TIME, b"\x10")]

    line.answer = answer
    what = s.choice(("amount", "record", "amount by time", "year by time", "year", "parameters"))
    archive = member(constants.Archive, s.int(0, 10))
    number = s.choice((-1, 65536, 70000, 1 << 32, 1 << 40))
    t = ref.gen_time(s)
    year = t.replace(year=s.choice((1999, 2100)), day=min(t.day, 28))
    if what == "amount":
        got = call(c.read_archive, archive, number, s.u32())
    elif what == "record":
        got = call(c.read_archive, archive, s.u16(), s.choice((-1, 1 << 32, 1 << 40)))
    elif what == "amount by time":
        got = call(c.read_archive_by_time, archive, number, t)
    elif what == "year by time":
        got = call(c.read_archive_by_time, archive, s.u16(), year)
    elif what == "year":
        got = call(c.write_time, year)
    else:
        got = call(c.read_parameters, number)
    r.check(not got.ok, f"operation with {what} outside the range {got!r}", number=number, year=year)
    r.check(not heard, f"operation with {what} outside the range is sent", wires=heard)
    r.label("arguments refused")
    return ("refused", what)


class NoisyPages(Pages):
    """Parts of the parameters with damage before them; maybe an error instead of one."""

    def __init__(self, s, r, setup, addresses, objects, first):
        super().__init__(s, r, setup, objects, first)
        self.addresses = addresses
        self.error_at = s.int(0, len(self.parts) - 1) if s.chance(0.25) else None
        self.status = 1 << s.int(0, 7)

    def answer(self, wire):
        fields, _ = self.setup.read_request(wire)
        got = (fields["dst1"], fields["dst2"], fields["src1"], fields["src2"])
        self.r.equal(got, self.addresses, "addresses", wire=wire)
        if self.next == self.error_at:
            self.done = True
            self.next += 1
            self.streams.append(self.status)
            return self.s.split(self.setup.wire(self.s, ref.READ_PARAMS, bytes((self.status,))), 3)
        pieces = super().answer(wire)
        if self.s.chance(0.2):
            noise = gen_noise(
                self.s, self.setup, ref.READ_PARAMS, gen_response(self.s, ref.READ_PARAMS)
            )
            if noise is not None:
                self.r.label("damaged before")
                pieces = self.s.split(noise, 2) + pieces
        return pieces


def parameters(s, r, setup, addresses, line, c):
    objects = [ref.gen_small_object(s) for _ in range(s.int(1, 5))]
    first = s.int(0, 500)
    pages = NoisyPages(s, r, setup, addresses, objects, first)
    line.answer = pages.answer
    got = call(c.read_parameters, first)
    r.check(pages.done, "all parts asked for", parts=pages.parts, asked=pages.next, outcome=got)
    if pages.error_at is not None:
        r.label("device error in read_parameters")
        r.check(
            type(got.error) is error_for(pages.status),
            f"read_parameters answered with device error {pages.status:#04x} {got!r}",
        )
    else:
        r.label("read_parameters")
        r.check(got.ok, f"read_parameters {got!r}", parts=pages.parts)
        r.check(len(got.value) == len(objects), "number of objects", got=got, parts=pages.parts)
        for o, g in zip(objects, got.value):
            bad = o.mismatch(g)
            r.check(bad is None, bad or "", parts=pages.parts)
    return tuple(pages.streams)


def session(s, r):
    setup = gen_setup(s)
    line = Line(None)
    if s.chance(0.1):
        # between the pieces of an answer as well
        line.fail_on = lambda operation: clock.pause(s, r, 0.1)
    if s.chance(0.15):
        # the caller's own connection object, with addresses
        c = client_module.ElgasClient(
            line,
            setup.password,
            setup.password_id,
            setup.key,
            setup.key_id,
            elgas_connection=setup.connection(),
        )
        addresses = setup.dst + setup.src
        r.label("own connection")
    else:
        c = setup.client(line)
        addresses = (0, 0, 0, 0)
    must(r, "connect", c.connect)
    key = []
    n = s.int(1, 8)
    for i in range(n):
        fn = s.weighted([(16, operation), (3, parameters), (1, refused)])
        key.append(fn(s, r, setup, addresses, line, c))
        clock.pause(s, r, 0.1)
        if s.chance(0.07):
            must(r, "disconnect", c.disconnect)
            must(r, "connect", c.connect)
            r.label("reconnected")
    r.label("encrypted" if setup.encrypted else "plain")
    if n >= 3:
        r.nontrivial(tuple(key))
        r.sample(operations=n, answers=key)


def long(s, r):
    """A session of hundreds of operations."""
    setup = gen_setup(s)
    line = Line(None)
    c = setup.client(line)
    must(r, "connect", c.connect)
    exchanges = gen_exchanges(s, setup, SERVICES)
    n = gen_long(s)
    order = s.bytes(1, 12)
    cut = s.int(0, 12)
    seen = []

    def answer(wire):
        seen.append(wire)
        setup.check_request(r, wire, req, (0, 0, 0, 0))
        # in one piece, or in two
        at = cut * (1 + len(seen) % 3) % len(stream)
        return [stream[:at], stream[at:]] if at else [stream]

    line.answer = answer
    for i in range(n):
        req, resp, status, stream = exchanges[order[i % len(order)] % len(exchanges)]
        got = perform(c, req, False)
        r.check(len(seen) == i + 1, f"requests of operation {i}", seen=len(seen) - i, outcome=got)
        if status:
            r.check(
                type(got.error) is error_for(status),
                f"operation {i} answered with device error {status:#04x} {got!r}",
            )
            continue
        r.check(got.ok, f"operation {i} {got!r}", request=req, payload=resp.payload)
        if req.service == ref.READ_TIME:
            r.equal(got.value, resp.expected["time"], f"device time of operation {i}")
        elif req.service != ref.WRITE_TIME:
            bad = resp.mismatch(got.value)
            r.check(bad is None, f"operation {i}: {bad}", payload=resp.payload)
    r.label("long session")
    r.nontrivial(n, order, tuple(x[3] for x in exchanges))
    r.sample(operations=n, kinds=[x[0].service for x in exchanges])


FACETS = [(700, "session", session), (1, "long", long)]
QUICK = 40000
THOROUGH = 800000
