import struct

from elgas import application
from elgas.parameters import enumerations, factory
from props.c08 import gen_call
from vlib import ref
from vlib.engine import call, member, must
from vlib.world import NEED, gen_request, gen_response, gen_setup

ID = "C30"
RULE = (
    "complete response payloads, call messages and parameter objects cut anywhere inside their fixed"
    " part, or with a number that stands for nothing (archive, protocol, date, BCD digit), decoded"
    " directly, as part of a block and as the payload of an intact (plain or encrypted) frame;"
    " cross-checked with the complete form, which must be accepted; non-trivial: distinct bytes that"
    " are not empty"
)
# bytes up to the data block or, without one, all of them
FIXED = {
    ref.READ_VALUES: 25,
    ref.READ_TIME: 6,
    ref.READ_PARAMS: 5,
    ref.READ_ARCHIVE: 5,
    ref.READ_ARCHIVE_TIME: 5,
}


def refused(r, what, fn, data):
    for form in (bytes(data), bytearray(data)):
        got = call(fn, form)
        r.check(not got.ok, f"{what} accepted", data=bytes(data), outcome=got)


def received(s, r, what, service, payload):
    """The payload inside an otherwise correct frame is never handed out."""
    setup = gen_setup(s)
    conn = setup.connection()
    conn.send(gen_request(s, setup.password, service).make())
    conn.receive_data(setup.wire(s, service, payload))
    for _ in range(3):
        got = call(conn.next_event)
        r.check(
            not got.ok or got.value is NEED,
            f"{what}: delivered by the connection",
            payload=payload,
            outcome=got,
        )
    r.label("received")


def responses(s, r):
    service = s.choice(tuple(FIXED))
    resp = gen_response(s, service)
    name = resp.cls.__name__
    must(r, f"decoding a complete {name}", resp.cls.from_bytes, resp.payload)
    mode = s.weighted([(4, "cut"), (1, "number")])
    if mode == "cut":
        n = FIXED[service]
        k = n - 1 if s.chance(0.3) else s.int(0, n - 1)
        data = resp.payload[:k]
        if service == ref.READ_VALUES and s.bool():
            # what is left may also be the beginning and the end
            tail = s.int(0, k)
            data = resp.payload[: k - tail] + resp.payload[len(resp.payload) - tail :]
    elif service in (ref.READ_ARCHIVE, ref.READ_ARCHIVE_TIME):
        data = bytes((s.int(11, 255),)) + resp.payload[1:]
    elif service in (ref.READ_TIME, ref.READ_VALUES):
        data = bytearray(resp.payload)
        i = s.int(0, 5)
        # second, minute, hour, day, month, year
        data[i] = s.choice(((0x60, 0x7A, 0x0F), (0x60, 0x1A, 0x0B), (0x24, 0x2F, 0x1A), (0, 0x32, 0x1A), (0, 0x13, 0x0F), (0xA0, 0x0A, 0xFF))[i])
        data = bytes(data)
        if ref.parse_time(data[:6]) is not None:
            return
    else:
        return
    refused(r, f"{mode}: {name} of {len(data)} bytes", resp.cls.from_bytes, data)
    if s.bool() and len(data) != 1:
        received(s, r, f"{mode}: {name}", service, data)
    r.label(f"{name}: {mode}")
    if data:
        r.nontrivial(service, data)
        r.sample(service=service, data=data)


def calls(s, r):
    payload, _ = gen_call(s)
    must(r, "decoding a complete call", application.CallRequest.from_bytes, payload)
    mode = s.weighted([(4, "cut"), (1, "protocol"), (1, "digits")])
    data = bytearray(payload)
    if mode == "cut":
        k = s.int(1, 40) if s.bool() else s.int(1, len(data))
        del data[-k:]
        if s.bool() and len(data) > 2:
            data[:2] = struct.pack("<H", len(data))
    elif mode == "protocol":
        data[2 + 1 + 16 + 17 + 10 + 8] = s.int(4, 255)
    else:
        i = 2 + 1 + 16 + 17 + s.int(0, 17)
        data[i] = s.choice((0xA0, 0x0A, 0xFF, 0x1B, 0xE5, 0x5E))
    refused(r, f"{mode}: call message", application.CallRequest.from_bytes, data)
    r.label(f"call: {mode}")
    r.nontrivial("call", bytes(data))
    r.sample(call=bytes(data), damage=mode)


def objects(s, r):
    o = ref.gen_object(s)
    items = ref.LAYOUTS[o.type][1]
    kind = member(enumerations.ParameterObjectType, o.type)
    decode = lambda data: factory.ParameterFactory.from_bytes(kind, data)
    must(r, f"decoding a complete object of type {o.type}", decode, o.data)
    whole = len(o.data)
    k = whole - 1 if s.chance(0.3) else s.int(0, whole - 1)
    if o.optional and k == whole - sum(ref.fixed_bytes(x) for name, x in items if name == "opt"):
        return  # ends where the optional fields would begin
    data = o.data[:k]
    refused(r, f"object of type {o.type} cut from {whole} to {k} bytes", decode, data)
    r.label("object")
    if data:
        r.nontrivial(o.type, data)
        r.sample(type=o.type, data=data, whole=whole)


FACETS = [(5, "responses", responses), (2, "calls", calls), (4, "objects", objects)]
QUICK = 120000
THOROUGH = 3000000
