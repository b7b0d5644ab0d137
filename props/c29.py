import contextlib
import io
import logging
import socket

import attr
import structlog

from elgas import exceptions
from props.c22 import SERVICES, perform
from props.c28 import Device
from vlib import ref
from vlib.device import Line
from vlib.engine import Out, call, must
from vlib.peers import peer
from vlib.world import gen_key, gen_noise, gen_request, gen_response, gen_setup

ID = "C29"
RULE = (
    "a client (password of six characters, with or without key and key id) connects, performs 1-4"
    " operations against a device that answers properly, with device errors, damaged, undecodable or"
    " wrongly encrypted data or not at all (or, on real lines, goes away), and disconnects, with every log entry of the package (and"
    " everything printed) collected and rendered in several ways; neither the password nor the key"
    " may be found in an entry or in the text of an error; non-trivial: distinct (password, key,"
    " operations)"
)
LETTERS = "GHJKQVWXYZ~|{}@"


def gen_plain_password(s):
    return "".join(LETTERS[b % len(LETTERS)] for b in s.bytes(6))


def unlike_text(key):
    """A key that cannot be part of a message of the package."""
    if key is not None and sum(0x20 <= b < 0x7F for b in key) > 8:
        return bytes(b ^ 0x80 for b in key)
    return key


class Collector(logging.Handler):
    """Everything the package tells the outside, as texts."""

    RENDERERS = (
        structlog.processors.KeyValueRenderer(),
        structlog.processors.JSONRenderer(),
        structlog.dev.ConsoleRenderer(
            colors=False, exception_formatter=structlog.dev.plain_traceback
        ),
        structlog.processors.LogfmtRenderer(bool_as_flag=False),
        lambda logger, name, entry: repr(entry),
        lambda logger, name, entry: " ".join(f"{k}={v}" for k, v in entry.items()),
    )

    def __init__(self):
        super().__init__(0)
        self.texts = []

    def __call__(self, logger, name, entry):
        for render in self.RENDERERS:
            try:
                self.texts.append(render(logger, name, dict(entry)))
            except Exception:
                # (this renderer does not take such entries)
                pass
        raise structlog.DropEvent

    def emit(self, record):
        self.texts.append(record.getMessage())

    @contextlib.contextmanager
    def listening(self):
        before = structlog.get_config()
        root = logging.getLogger()
        level, off = root.level, logging.root.manager.disable
        printed = io.StringIO()
        structlog.configure(
            processors=[structlog.processors.format_exc_info, self],
            wrapper_class=structlog.make_filtering_bound_logger(0),
            logger_factory=structlog.ReturnLoggerFactory(),
            cache_logger_on_first_use=False,
        )
        root.addHandler(self)
        root.setLevel(0)
        logging.disable(logging.NOTSET)
        try:
            with contextlib.redirect_stdout(printed), contextlib.redirect_stderr(printed):
                yield
        finally:
            self.texts.append(printed.getvalue())
            logging.disable(off)
            root.setLevel(level)
            root.removeHandler(self)
            structlog.configure(**before)


def texts_of(error):
    """The texts an error shows when printed or reported, with those it was raised from."""
    out = []
    left = [error]
    seen = set()
    while left and len(seen) < 20:
        error = left.pop()
        if error is None or id(error) in seen:
            continue
        seen.add(id(error))
        out += [str(error), repr(error)]
        out += [str(note) for note in getattr(error, "__notes__", ())]
        left += [error.__context__, error.__cause__, *getattr(error, "exceptions", ())]
    return out


def forms_of_key(key):
    yield repr(bytes(key))[2:-1]
    yield bytes(key).hex()
    yield bytes(key).hex().upper()
    yield bytes(key).hex(" ")
    yield repr(list(key))[1:-1]
    yield bytes(key).decode("latin-1")
    yield repr(bytes(key).decode("latin-1"))[1:-1]


def forms_of_password(password):
    yield password
    yield password.encode("latin-1").hex()
    yield password.encode("latin-1").hex().upper()
    yield repr(list(password.encode("latin-1")))[1:-1]


def gen_answer(s, setup, service):
    """(how, pieces) of the device's answer."""
    how = s.weighted(
        [
            (6, "response"),
            (3, "error"),
            (2, "undecodable"),
            (2, "damaged"),
            (2, "other service"),
            (2, "wrong key"),
            (1, "none"),
        ]
    )
    payload = gen_response(s, service).payload
    if how == "error":
        payload = bytes((s.int(1, 255),))
    elif how == "undecodable":
        payload = s.bytes(0, 6)
    elif how == "other service":
        service = s.choice([x for x in ref.ANSWERED if x != service])
        payload = gen_response(s, service).payload
    elif how == "none":
        return how, [], payload
    if how == "wrong key" and setup.encrypted:
        wire = attr.evolve(
            setup, key=gen_key(s), key_id=s.choice((setup.key_id, s.int(1, 7)))
        ).wire(s, service, payload)
    else:
        wire = setup.wire(s, service, payload)
    if how == "damaged":
        noise = gen_noise(s, setup, service, gen_response(s, service))
        wire = (noise or b"") + wire
    return how, s.split(wire, 4), payload


def log(s, r):
    setup = attr.evolve(gen_setup(s), password=gen_plain_password(s))
    setup = attr.evolve(setup, key=unlike_text(setup.key))
    form = setup
    if s.chance(0.05):
        # a key nothing can be encrypted with
        odd = s.bytes(s.choice((15, 17, 12, 20, 31, 40, 64)))
        setup = attr.evolve(setup, key=unlike_text(odd), key_id=s.int(1, 7))
        form = attr.evolve(setup, key=None)
        r.label("unusable key")
    collector = Collector()
    line = Line(None)
    errors = []
    requests = []
    payloads = []

    def dry(operation):
        if operation == "recv" and not line.pieces:
            raise exceptions.CommunicationError("no data")

    line.fail_on = dry
    key = []
    with collector.listening():
        c = call(setup.client, line)
        if not c.ok and form is not setup:
            errors.append(c.error)
            c = call(form.client, line)
        r.check(c.ok, f"creating a client {c!r}")
        c = c.value
        must(r, "connect", c.connect)
        for _ in range(s.int(1, 4)):
            service = s.choice(SERVICES + (ref.READ_PARAMS,))
            req = gen_request(s, setup.password, service)
            how, pieces, payload = gen_answer(s, form, service)
            payloads += [payload, req.tail]

            def answer(wire):
                requests.append(wire)
                return list(pieces) if len(requests) == 1 else []

            del requests[:]
            line.answer = answer
            if service == ref.READ_PARAMS:
                got = call(c.read_parameters, s.int(0, 100))
            else:
                got = perform(c, req, s.bool())
            if not got.ok:
                errors.append(got.error)
            r.label(how)
            key.append((req.tail, how, payload))
            if s.chance(0.3) or not got.ok:
                call(c.disconnect)
                call(c.connect)
        call(c.disconnect)
    judge(s, r, setup, collector, errors, line.sent, payloads, key)
    r.label("encrypted" if setup.encrypted else "key without id" if setup.key else "plain")


def judge(s, r, setup, collector, errors, sent, payloads, key):
    """Neither the password nor the key in what was logged, printed and raised."""
    r.check(len(collector.texts) > 3, "the package's log entries are seen", texts=collector.texts)
    told = [t for e in errors for t in texts_of(e)]
    sent = [x for w in sent for x in dumps(w)] if not setup.encrypted else []
    pw = setup.password
    raw = b"".join(payloads)
    if pw.encode("latin-1") in raw or len(set(pw)) < 4:
        return
    texts = []
    for text in collector.texts:
        for dump in sent:
            # the request as it goes over the line, password included
            text = text.replace(dump, "")
        texts.append(text)
    texts += told
    for text in texts:
        for form in forms_of_password(pw):
            r.check(form not in text, "the password can be read in a log entry or error", text=text, password=pw)
    if setup.key and setup.key not in raw and len(set(setup.key)) > 8:
        for text in texts:
            for form in forms_of_key(setup.key):
                r.check(form not in text, "the key can be read in a log entry or error", text=text, key=setup.key)
    r.nontrivial(pw, setup.key, tuple(key))
    r.sample(password=pw, key=setup.key, operations=key, entries=texts[:8])


def dumps(wire):
    """The forms in which the bytes of a request can be shown."""
    frame = ref.unstuff(bytes(wire)) or b""
    for data in (bytes(wire), frame, frame[12:-4]):
        if data:
            yield repr(data)[2:-1]
            yield repr(repr(data)[2:-1])[1:-1]
            yield repr(data)[2:-1].replace("\\", "\\\\").replace('"', '\\"')
            yield data.hex()


class Recorded:
    """A transport of which everything sent is noted."""

    def __init__(self, t, sent):
        self.t, self.sent = t, sent
        self.connect, self.disconnect, self.recv = t.connect, t.disconnect, t.recv

    def __repr__(self):
        return repr(self.t)

    def send(self, data):
        self.sent.append(bytes(data))
        return self.t.send(data)


@contextlib.contextmanager
def nowhere(t, kind):
    """Nobody is there any more (where the peer was, another process may have one by now)."""
    with socket.socket() as occupied:
        if kind == "tcp":
            occupied.bind(("127.0.0.1", 0))
            t.port = occupied.getsockname()[1]
        else:
            t.port = "/dev/pts/no-such-line"
        yield


def real(kind):
    """Over a real line, whose other end answers, goes away in between or is not there at all."""

    def run(s, r):
        setup = attr.evolve(gen_setup(s), password=gen_plain_password(s))
        setup = attr.evolve(setup, key=unlike_text(setup.key))
        collector = Collector()
        errors, payloads, key, sent = [], [], [], []

        def attempt(fn, *args):
            got = call(fn, *args)
            if got.ok and isinstance(got.value, Out):
                got = got.value
            if not got.ok:
                errors.append(got.error)
            return got

        with peer(kind) as p, collector.listening():
            t = p.transport(10)
            c = must(r, "creating a client", setup.client, Recorded(t, sent))
            if s.chance(0.1):
                # not connected yet
                attempt(perform, c, gen_request(s, setup.password, s.choice(SERVICES)), s.bool())
            must(r, "connect", c.connect)
            p.accept()
            gone = False
            for _ in range(s.int(1, 3)):
                service = s.choice(SERVICES)
                req = gen_request(s, setup.password, service)
                how, pieces, payload = gen_answer(s, setup, service)
                stream = b"".join(pieces)
                payloads += [payload, req.tail]
                if s.chance(0.35) and not gone:
                    gone = True
                    how = "goes away"
                    if kind == "tcp" and s.bool():
                        p.reset()
                    else:
                        p.close()
                elif kind == "serial" or s.bool():
                    # whatever the client makes of it, this ends the operation
                    stream += b"\x0d" + setup.wire(s, service, bytes((s.int(1, 255),)))
                    stream = stream[1:] if stream[:1] == b"\x0d" else stream
                closing = kind == "tcp" and not gone and (s.chance(0.2) or how != "response")
                device = None if gone else Device(p, stream, closing)
                got = attempt(perform, c, req, s.bool())
                if device:
                    device.join(30)
                gone = gone or closing
                r.label(f"{kind}: {how}")
                key.append((req.tail, how, payload))
                if not got.ok and (not gone or s.chance(0.3)):
                    break
            attempt(c.disconnect)
            p.shut()
            if s.chance(0.3):
                with nowhere(t, kind):
                    attempt(c.connect)
                    attempt(perform, c, gen_request(s, setup.password, s.choice(SERVICES)), s.bool())
                    attempt(c.disconnect)
        judge(s, r, setup, collector, errors, sent, payloads, key)

    return run


FACETS = [(12, "log", log), (2, "tcp", real("tcp")), (1, "serial", real("serial"))]
QUICK = 16000
THOROUGH = 500000
