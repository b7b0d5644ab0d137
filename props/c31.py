import gc
import random
import socket
import tracemalloc

from elgas import application, connection, exceptions, frames, integration, parser, security, transport
from elgas.parameters.enumerations import ParameterObjectType
from elgas.parameters.factory import ParameterFactory, ParameterSchemaFactory
from props.c08 import gen_call
from props.c22 import SERVICES, perform
from vlib import ref
from vlib.device import Line
from vlib.engine import arm, call, member, must
from vlib.peers import PtyPeer, TcpPeer
from vlib.source import Dictionary, Source
from vlib.world import gen_noise, gen_request, gen_response, gen_setup

ID = "C31"
RULE = (
    "one kind of use repeated with new contents every time: operations of one client, reconnecting,"
    " failing operations, requests refused, damaged frames while a response is outstanding, clients"
    " made anew, decoding of frames, payloads, ciphertext, objects and blocks, export and import;"
    " the traced memory is compared after N and 2N repetitions (N = 300, and thousands before a"
    " verdict); non-trivial: every measured case (distinct contents)"
)

# bytes kept per repetition that count as accumulation: less than a reference in a list
LIMIT = 6
SCREEN = 300
NO_END = bytes(b for b in range(256) if b != 0x0D)
# the cryptography package keeps a little of every cipher it makes
OTHERS = (
    tracemalloc.Filter(False, "*/cryptography/*"),
    tracemalloc.Filter(False, tracemalloc.__file__),
    tracemalloc.Filter(False, __file__),
)
# far above the size of caches with a limit
CONFIRM = (9000, 15000)
# uses found to fill something up to a limit only (in this process)
limited = set()


class Use:
    """A kind of use: prepare() once, step(s) per repetition with contents drawn from s."""

    def __init__(self, s, r):
        self.r = r
        self.setup = gen_setup(s)
        self.line = Line(None, limit=1 << 62)
        self.client = self.setup.client(self.line)

    def prepare(self):
        self.client.connect()

    def finish(self):
        pass

    def clean(self):
        del self.line.sent[:]
        self.line.pieces = []
        self.line.answer = None


class Operations(Use):
    """Operations of one client, now and then answered with a device error or after noise."""

    errors = 0.2
    noise = 0.2

    def step(self, s):
        service = s.choice(SERVICES)
        req, resp = gen_request(s, self.setup.password, service), gen_response(s, service)
        payload = bytes((1 << s.int(0, 7),)) if s.chance(self.errors) else resp.payload
        noise = gen_noise(s, self.setup, service, resp) if s.chance(self.noise) else None
        pieces = s.split((noise or b"") + self.setup.wire(s, service, payload), 3)
        self.line.answer = lambda wire: pieces
        perform(self.client, req, False)
        self.clean()


class Errors(Operations):
    """Operations of one client that are all answered with a device error."""

    errors, noise = 1, 0


class Noisy(Operations):
    """Operations of one client with noise before every answer."""

    errors, noise = 0, 1


class Parameters(Use):
    """Reading all parameters, over and over."""

    def step(self, s):
        blocks = [ref.gen_small_object(s).block() for _ in range(s.int(1, 3))]

        def answer(wire):
            data = blocks.pop(0)
            payload = bytes((0, 0, 1, 0, not blocks)) + data
            return [self.setup.wire(s, ref.READ_PARAMS, payload)]

        self.line.answer = answer
        call(self.client.read_parameters, s.int(0, 100))
        self.clean()


class Reconnects(Operations):
    """Operations, each in a session of its own."""

    errors = noise = 0

    def step(self, s):
        super().step(s)
        self.client.disconnect()
        self.client.connect()


class Failures(Use):
    """Operations that fail at some point, then a new session."""

    def step(self, s):
        service = s.choice(SERVICES)
        req, resp = gen_request(s, self.setup.password, service), gen_response(s, service)
        wire = self.setup.wire(s, service, resp.payload)
        at = s.choice(("send", "sent", "recv"))
        wire = wire[: s.int(0, len(wire) - 1)]
        self.line.answer = lambda data: [wire] if wire else []

        def fail_on(operation):
            if operation == at and (at != "recv" or not self.line.pieces):
                raise exceptions.CommunicationError("line")

        self.line.fail_on = fail_on
        perform(self.client, req, False)
        self.line.fail_on = None
        self.clean()
        self.line.fail_on = self.trouble
        call(self.client.disconnect)
        call(self.client.connect)
        self.line.fail_on = None
        call(self.client.disconnect)
        call(self.client.connect)

    @staticmethod
    def trouble(operation):
        raise exceptions.CommunicationError("line")


class Refused(Use):
    """Requests that are refused (arguments that fit nowhere, one too early), then one that works."""

    def step(self, s):
        conn = self.client.elgas_connection
        req = gen_request(s, self.setup.password, ref.READ_PARAMS)
        bad = application.ReadDeviceParametersRequest(
            password=self.setup.password, object_count=70000 + s.u32(), buffer_length=s.u16()
        )
        call(conn.send, bad)
        call(conn.send, req.make())
        call(conn.send, req.make())
        call(conn.receive_data, self.setup.wire(s, ref.READ_PARAMS, gen_response(s, ref.READ_PARAMS).payload))
        call(conn.next_event)


class Waiting(Use):
    """Damaged frames, and responses to other services, while one response is outstanding."""

    def prepare(self):
        super().prepare()
        self.client.elgas_connection.send(gen_request(Source((1,) * 9), self.setup.password, ref.READ_VALUES).make())

    def step(self, s):
        resp = gen_response(s, ref.READ_VALUES)
        noise = gen_noise(s, self.setup, ref.READ_VALUES, resp) or b"\x0d"
        conn = self.client.elgas_connection
        for piece in s.split(noise, 3):
            call(conn.receive_data, piece)
        for _ in range(2):
            call(conn.next_event)


class Anew(Use):
    """A client of its own for every operation."""

    def step(self, s):
        setup = gen_setup(s)
        line = Line(None)
        service = s.choice(SERVICES)
        req, resp = gen_request(s, setup.password, service), gen_response(s, service)
        wire = setup.wire(s, service, resp.payload)
        line.answer = lambda data: [wire]
        c = setup.client(line)
        c.connect()
        perform(c, req, False)
        repr(c)
        c.disconnect()


class Decoding(Use):
    """Decoding messages of one kind, good or cut."""

    def __init__(self, s, r, what):
        super().__init__(s, r)
        self.what = what

    def step(self, s):
        service = s.choice(ref.ANSWERED)
        resp = gen_response(s, service)
        what = self.what
        if what == 0:
            data, fn = resp.payload, resp.cls.from_bytes
        elif what == 1:
            data, fn = self.setup.frame(s, service, resp.payload), frames.ResponseFactory.from_bytes
        elif what == 2:
            data, fn = gen_call(s)[0], application.CallRequest.from_bytes
        elif what == 3:
            key, kid = s.bytes(16), s.int(1, 7)
            fn = security.CipherContext(kid, key).decrypt
            data = ref.encrypt(resp.payload, key, kid, s.bytes(ref.padding_needed(len(resp.payload))))
        elif what == 4:
            o = ref.gen_small_object(s)
            data, t = o.data, member(ParameterObjectType, o.type)
            fn = lambda d: ParameterFactory.from_bytes(t, d)
        elif what == 5:
            kind = s.choice((frames.Request, frames.EncryptedRequest))
            data, fn = ref.build_frame(kind.TYPE, service, s.u16(), s.u8(), s.u16(), s.u8(), resp.payload), kind.from_bytes
        else:
            data = b"".join(ref.gen_small_object(s).block() for _ in range(2))
            fn = lambda d: parser.ScadaParameterParser().parse(d)
        if s.chance(0.2):
            data = data[: s.int(0, len(data))]
        call(fn, data)


class Received(Use):
    """Frames turned into responses by the factory of the connection."""

    def step(self, s):
        service = s.choice(ref.ANSWERED)
        resp = gen_response(s, service)
        response = frames.Response(
            service=service,
            destination_address_1=s.u16(),
            destination_address_2=s.u8(),
            source_address_1=s.u16(),
            source_address_2=s.u8(),
            data=resp.payload,
        )
        call(connection.ResponsePduFactory.from_response, response)
        call(response.to_bytes)
        call(repr, response)


class Export(Use):
    """Objects through their schema and back."""

    def step(self, s):
        o = ref.gen_small_object(s)
        t = member(ParameterObjectType, o.type)
        got = call(ParameterFactory.from_bytes, t, o.data)
        if got.ok:
            schema = ParameterSchemaFactory.by_parameter_id(t)()
            data = call(schema.dump, got.value)
            if data.ok:
                call(schema.load, data.value)
                part = integration.UtilitarianConfigurationObject(o.type, data.value, s.choice((None, s.bytes(5).hex())))
                whole = integration.UtilitarianConfigurationSchema()
                dump = call(whole.dump, integration.UtilitarianConfiguration([part]))
                if dump.ok:
                    call(whole.load, dump.value)


class Parsing(Use):
    """One parser for all blocks."""

    def prepare(self):
        self.parser = parser.ScadaParameterParser()

    def step(self, s):
        call(self.parser.parse, b"".join(ref.gen_small_object(s).block() for _ in range(2)))


class Ciphering(Use):
    """One cipher context for all messages."""

    def prepare(self):
        self.cipher = security.CipherContext(self.setup.key_id or 1, self.setup.key or bytes(16))

    def step(self, s):
        got = call(self.cipher.encrypt, s.bytes(0, 40))
        if got.ok:
            data = got.value
            if s.chance(0.3):
                data = data[:-1] + b"\x00"
            call(self.cipher.decrypt, data)


class Transport(Use):
    """Messages over one real line, and now and then a new one."""

    kind = "tcp"

    def prepare(self):
        self.peer = (TcpPeer if self.kind == "tcp" else PtyPeer)()
        self.transport = self.peer.transport(20)
        self.transport.connect()
        self.peer.accept()

    def step(self, s):
        data = s.bytes(1, 30, NO_END) + b"\x0d"
        self.transport.send(data)
        self.peer.read(len(data))
        self.peer.write(data)
        self.transport.recv()
        if s.chance(0.05):
            self.transport.disconnect()
            if self.kind == "tcp":
                self.peer.close()
            self.transport.connect()
            self.peer.accept()

    def finish(self):
        self.transport.disconnect()
        self.peer.shut()


class Serial(Transport):
    """Messages over one serial line, and now and then a new one."""

    kind = "serial"


class Lines(Use):
    """A transport of its own for every session."""

    def prepare(self):
        self.peers = [TcpPeer(), PtyPeer()]

    def step(self, s):
        p = self.peers[1 if s.chance(0.2) else 0]
        t = p.transport(s.int(10, 60000))
        t.connect()
        p.accept()
        if p.kind == "tcp" and s.bool():
            # (disconnecting may fail then)
            p.reset()
        call(t.disconnect)
        if p.kind == "tcp":
            p.close()
        call(t.disconnect)
        call(t.send, b"\x0d")

    def finish(self):
        for p in self.peers:
            p.shut()


class Unreachable(Use):
    """Connecting to endpoints and lines where nobody is."""

    def prepare(self):
        self.closed = socket.socket()
        self.closed.bind(("127.0.0.1", 0))

    def step(self, s):
        if s.bool():
            port = f"/nonexistent/{s.bytes(3).hex()}"
            t = transport.SerialTransport(port=port, baud_rate=s.int(1, 115200), timeout=1)
        else:
            host = f"127.{s.u8()}.{s.u8()}.1"
            t = transport.BlockingTcpTransport(host, self.closed.getsockname()[1], timeout=1)
        call(t.connect)
        call(t.disconnect)

    def finish(self):
        self.closed.close()


class Silence(Use):
    """Receiving from a peer that says nothing in time."""

    def prepare(self):
        self.peers = [TcpPeer(), PtyPeer()]
        self.lines = [p.transport(0.0005) for p in self.peers]
        for p, t in zip(self.peers, self.lines):
            t.connect()
            p.accept()

    def step(self, s):
        i = s.int(0, 1)
        if s.bool():
            self.peers[i].write(s.bytes(1, 3, NO_END))
        call(self.lines[i].recv)

    def finish(self):
        for p, t in zip(self.peers, self.lines):
            call(t.disconnect)
            p.shut()


USES = (
    Operations,
    Errors,
    Noisy,
    Parameters,
    Reconnects,
    Failures,
    Refused,
    Waiting,
    Anew,
    Decoding,
    Received,
    Export,
    Parsing,
    Ciphering,
    Transport,
    Serial,
    Lines,
    Unreachable,
    Silence,
)


KINDS = [(use,) for use in USES if use is not Decoding] + [(Decoding, what) for what in range(7)]


class Meter:
    def __init__(self, use, seed):
        self.use, self.rng, self.done = use, random.Random(seed), 0
        self.dic = Dictionary()

    def run(self, upto):
        """Traced memory after so many repetitions."""
        step, rng = self.use.step, self.rng
        while self.done < upto:
            step(Source((), rng, self.dic, limit=1 << 30))
            self.done += 1
            if self.done % 1000 == 0:
                arm()
        self.dic._cache.clear()
        gc.collect()
        gc.collect()
        return sum(
            trace.size for trace in tracemalloc.take_snapshot().filter_traces(OTHERS).traces
        )


def growth(s, r):
    kind = s.choice(KINDS)
    cls = kind[0]
    use = cls(s, r, *kind[1:])
    seed = s.raw_int(0xFFFFFFFF)
    gc.collect()
    tracemalloc.start()
    try:
        must(r, "preparing", use.prepare)
        meter = Meter(use, seed)
        n = SCREEN
        first = meter.run(n)
        second = meter.run(2 * n)
        per = (second - first) / n
        if per > LIMIT:
            # something may have been made on its first use
            per = (meter.run(3 * n) - second) / n
        if per > LIMIT and kind not in limited:
            # caches that are filled once are not accumulation
            r.label(f"{cls.__name__}: measured for longer")
            a, b = (meter.run(m) for m in CONFIRM)
            per = (b - a) / (CONFIRM[1] - CONFIRM[0])
            r.check(
                per <= LIMIT,
                f"memory grows with every repetition ({cls.__doc__.strip()})",
                bytes_per_repetition=round(per, 1),
                use=cls.__name__,
            )
            limited.add(kind)
        r.label(cls.__name__)
        r.nontrivial(cls.__name__, seed, use.setup)
        r.sample(use=cls.__name__, seed=seed, bytes_per_repetition=per)
    finally:
        tracemalloc.stop()
        use.finish()


FACETS = [(1, "growth", growth)]
QUICK = 240
QUICK_CAP = 300
THOROUGH = 6000
