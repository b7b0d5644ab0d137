import math
from enum import Enum

import attr

from elgas import application, frames, parser, security, utils
from elgas.parameters.enumerations import ParameterObjectType
from elgas.parameters.factory import ParameterFactory
from props.c02 import KINDS
from props.c08 import gen_call
from vlib import ref
from vlib.engine import call, member
from vlib.world import gen_response, gen_request, gen_setup

ID = "C16"
RULE = (
    "2-5 decodings (frames, payloads, call messages, ciphertext, parameter objects and blocks,"
    " texts, dates, stuffed bytes, whole receptions; parsers and cipher contexts new or used before) of valid and damaged bytes in a generated order,"
    " as immutable or mutable bytes, each repeated later in the same case; results returned earlier"
    " are modified in between; non-trivial: at least one successful structured decoding (distinct"
    " inputs)"
)


def norm(x, depth=0):
    if depth > 8:
        return repr(type(x))
    if isinstance(x, (bytes, bytearray)):
        return ("bytes", bytes(x))
    if isinstance(x, float):
        return "nan" if math.isnan(x) else x
    if isinstance(x, Enum):
        return (type(x).__name__, x.value)
    if attr.has(type(x)):
        return (
            type(x).__name__,
            tuple((a.name, norm(getattr(x, a.name, "<absent>"), depth + 1)) for a in attr.fields(type(x))),
        )
    if isinstance(x, (list, tuple)):
        return tuple(norm(y, depth + 1) for y in x)
    if isinstance(x, dict):
        return tuple((k, norm(v, depth + 1)) for k, v in x.items())
    return x


def spoil(x, depth=0):
    """Modify a result as a caller might."""
    if depth > 4:
        return
    if isinstance(x, list):
        for y in x:
            spoil(y, depth + 1)
        x.append("spoiled")
        del x[: len(x) // 2]
    elif isinstance(x, dict):
        x.clear()
    elif isinstance(x, bytearray):
        x[:] = b"spoiled"
    elif attr.has(type(x)) and not isinstance(x, type):
        for a in attr.fields(type(x)):
            v = getattr(x, a.name, None)
            if isinstance(v, (list, dict, bytearray)) or attr.has(type(v)):
                spoil(v, depth + 1)
            try:
                setattr(x, a.name, "spoiled")
            except Exception:
                pass


def hurt(s, data):
    """Mostly the data itself, sometimes changed or cut."""
    mode = s.weighted([(7, 0), (1, 1), (1, 2), (1, 3)])
    if mode == 1 and data:
        b = bytearray(data)
        b[s.int(0, len(b) - 1)] ^= s.int(1, 255)
        return bytes(b)
    if mode == 2:
        return data[: s.int(0, len(data))]
    if mode == 3:
        return data + s.bytes(1, 5)
    return data


def reception(setup, req):
    def receive(data):
        conn = setup.connection()
        conn.send(req.make())
        conn.receive_data(data)
        return conn.next_event()

    return receive


def gen_decoding(s, shared, only=None):
    """(name, function, data); shared: decoders used for several of the case's decodings"""
    what = only or s.choice(
        (
            "frame",
            "response frame",
            "payload",
            "call",
            "cipher",
            "object",
            "block",
            "block to a used parser",
            "block given before",
            "text",
            "date",
            "stuffing",
            "bcd",
            "address",
            "reception",
        )
    )
    if what in ("frame", "response frame"):
        kind = s.choice(sorted(KINDS))
        data = ref.build_frame(
            kind, s.choice(ref.SERVICES), s.u16(), s.u8(), s.u16(), s.u8(), s.bytes(0, 40)
        )
        fn = KINDS[kind].from_bytes if what == "frame" else frames.ResponseFactory.from_bytes
    elif what == "payload":
        service = s.choice(ref.ANSWERED)
        resp = gen_response(s, service)
        data, fn = resp.payload, resp.cls.from_bytes
    elif what == "call":
        data, fn = gen_call(s)[0], application.CallRequest.from_bytes
    elif what == "cipher":
        key, kid, payload = s.bytes(16), s.int(1, 7), s.bytes(0, 50)
        if s.bool() and "cipher" in shared:
            key, kid, fn = shared["cipher"]
        else:
            fn = security.CipherContext(kid, key).decrypt
            shared["cipher"] = key, kid, fn
        data = ref.encrypt(payload, key, kid, s.bytes(ref.padding_needed(len(payload))))
    elif what == "object":
        obj = ref.gen_object(s)
        data = obj.data
        t = member(ParameterObjectType, obj.type)
        fn = lambda d: ParameterFactory.from_bytes(t, d)
    elif what.startswith("block"):
        data = b"".join(ref.gen_object(s).block() for _ in range(s.int(1, 4)))
        if what == "block":
            fn = lambda d: parser.ScadaParameterParser().parse(d)
        elif what == "block to a used parser":
            fn = shared.setdefault("parser", parser.ScadaParameterParser()).parse
        else:
            fn = lambda d: parser.ScadaParameterParser(d).parse()
    elif what == "text":
        data, fn = ref.gen_text(s, s.int(1, 40)), utils.pretty_text
    elif what == "date":
        data = ref.time_bytes(ref.gen_time(s), s.choice((0, 0x80, 0xC0)))
        fn = utils.bytes_to_datetime
    elif what == "stuffing":
        data, fn = ref.stuff(s.bytes(0, 30) + b"\x0d"), utils.return_characters
    elif what == "bcd":
        data, fn = bytes(ref.bcd(b % 100)[0] for b in s.bytes(1, 10)), utils.from_bcd
    elif what == "address":
        data, fn = s.bytes(4), utils.parse_ip_address
    else:
        setup = gen_setup(s)
        req = gen_request(s, setup.password)
        resp = gen_response(s, req.service)
        payload = resp.payload if s.chance(0.8) else bytes((s.int(1, 255),))
        data = setup.wire(s, req.service, payload)
        fn = reception(setup, req)
    return what, fn, hurt(s, data)


def run(r, what, fn, data, kind):
    arg = kind(data)
    got = call(fn, arg)
    r.check(
        type(arg) is kind and bytes(arg) == data,
        f"decoding {what} changed the caller's {kind.__name__}",
        before=data,
        after=arg,
    )
    return ("error", type(got.error).__name__) if not got.ok else ("value", norm(got.value)), got


def repeat(s, r):
    shared = {}
    only = s.weighted([(8, None), (1, "block to a used parser"), (1, "cipher")])
    items = [gen_decoding(s, shared, only) for _ in range(s.int(1, 3))]
    first = {}
    kept = []
    order = [s.int(0, len(items) - 1) for _ in range(s.int(0, 3))]
    order = list(range(len(items))) + order + list(range(len(items)))
    key = []
    good = False
    for i in order:
        what, fn, data = items[i]
        kind = bytearray if s.bool() else bytes
        got, out = run(r, what, fn, data, kind)
        if i not in first:
            if what == "block to a used parser":
                # the first decoding of these bytes is one by a parser that saw nothing else
                first[i] = run(r, what, parser.ScadaParameterParser().parse, data, kind)[0]
                r.check(
                    got == first[i],
                    "a parser used before decodes a block differently",
                    data=data,
                    first=first[i],
                    again=got,
                    order=[items[j][0] for j in order],
                )
            first[i] = got
            r.label(what if out.ok else what + " refused")
            key.append((what, data))
            good |= out.ok and what not in ("text", "date", "bcd", "address", "stuffing")
        else:
            r.check(
                got == first[i],
                f"decoding {what} again gives something else",
                data=data,
                first=first[i],
                again=got,
                order=[items[j][0] for j in order],
            )
        if out.ok and s.bool():
            spoil(out.value)
        elif out.ok:
            kept.append((what, out.value, got))
        for what, value, was in kept:
            r.check(
                ("value", norm(value)) == was,
                f"what was decoded ({what}) changes when something else is decoded",
                before=was,
                order=[items[j][0] for j in order],
            )
    if good:
        r.nontrivial(tuple(key))
        r.sample(decodings=key)


FACETS = [(1, "repeat", repeat)]
QUICK = 100000
THOROUGH = 2000000
