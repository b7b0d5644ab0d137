from elgas import constants, frames
from vlib import ref
from vlib.engine import call, member, must
from vlib.world import gen_payload

ID = "C02"
RULE = (
    "kind x service x four addresses x payload (0-6000 bytes, rarely up to the 65520 limit);"
    " non-trivial: distinct two-byte addresses with a high byte, or payload that makes the"
    " length field use both bytes"
)
KINDS = {
    0x84: frames.Request,
    0x85: frames.EncryptedRequest,
    0x86: frames.Response,
    0x87: frames.EncryptedResponse,
}


def gen_frame(s, payload):
    kind = s.choice(sorted(KINDS))
    service = s.choice(ref.SERVICES)
    return kind, service, s.u16(), s.u8(), s.u16(), s.u8(), payload


def make(kind, service, d1, d2, s1, s2, payload):
    return KINDS[kind](
        service=member(constants.ServiceNumber, service),
        destination_address_1=d1,
        destination_address_2=d2,
        source_address_1=s1,
        source_address_2=s2,
        data=payload,
    )


def same_frame(r, got, frame, args):
    kind, service, d1, d2, s1, s2, payload = args
    r.check(type(got) is KINDS[kind], "kind of the decoded frame", got=got, kind=kind)
    r.equal(got.service, service, "decoded service", args=args)
    r.equal(got.destination_address_1, d1, "decoded destination address 1", args=args)
    r.equal(got.destination_address_2, d2, "decoded destination address 2", args=args)
    r.equal(got.source_address_1, s1, "decoded source address 1", args=args)
    r.equal(got.source_address_2, s2, "decoded source address 2", args=args)
    r.equal(bytes(got.data), payload, "decoded payload", args=args)
    r.check(got == frame, "decoded frame equals the encoded one", got=got, frame=frame)


def body(s, r, payload):
    args = gen_frame(s, payload)
    frame = must(r, "making a frame", make, *args)
    raw = must(r, "encoding a frame", frame.to_bytes)
    want = ref.build_frame(*args)
    r.equal(bytes(raw), want, "encoded bytes", args=args)
    again = must(r, "encoding twice", frame.to_bytes)
    r.equal(bytes(again), want, "bytes of a second encoding", args=args)
    buf = s.choice((bytes, bytearray))(want)
    got = must(r, "decoding a frame", KINDS[args[0]].from_bytes, buf)
    same_frame(r, got, frame, args)
    if args[0] in (0x86, 0x87):
        got = must(r, "decoding through the response factory", frames.ResponseFactory.from_bytes, buf)
        same_frame(r, got, frame, args)
    r.label(f"kind {args[0]:#x}")
    if args[2] > 255 or args[4] > 255 or len(payload) > 240:
        r.nontrivial(args)
        r.sample(args=args, wire=raw)
    if len(payload) > 240:
        r.label("length field over one byte")
    if not payload:
        r.label("empty payload")


def roundtrip(s, r):
    body(s, r, gen_payload(s))


def limit(s, r):
    """Around the largest payload the length field can describe."""
    n = ref.MAX_PAYLOAD + s.choice((0, -1, -15, 1, 2, 14, 15, 16, 241, 66000))
    payload = bytes((s.u8(),)) * n
    if n <= ref.MAX_PAYLOAD:
        body(s, r, payload)
        r.label("at the limit")
        return
    args = gen_frame(s, payload)
    got = call(lambda: make(*args).to_bytes())
    r.check(
        not got.ok,
        "a payload too long for the length field is not refused",
        payload_bytes=n,
        kind=args[0],
        outcome=got,
    )
    r.label("over the limit")
    r.nontrivial("over", n, args[0])


FIELDS = (
    "service",
    "destination_address_1",
    "destination_address_2",
    "source_address_1",
    "source_address_2",
    "data",
)


def changed(s, r):
    """A frame, made or decoded and maybe encoded before, of which some fields are replaced."""
    args = list(gen_frame(s, gen_payload(s)))
    kind = args[0]
    if s.bool():
        frame = must(r, "making a frame", make, *args)
    else:
        frame = must(r, "decoding a frame", KINDS[kind].from_bytes, ref.build_frame(*args))
    for _ in range(s.int(1, 3)):
        if s.bool():
            must(r, "encoding a frame", frame.to_bytes)
        if s.bool():
            call(repr, frame)
        other = gen_frame(s, gen_payload(s))
        for i in s.shuffled(range(1, 7))[: s.int(1, 6)]:
            value = other[i] if i > 1 else member(constants.ServiceNumber, other[i])
            got = call(setattr, frame, FIELDS[i - 1], value)
            if isinstance(got.error, AttributeError):
                r.label("frames cannot be changed")
                return
            args[i] = other[i]
        raw = must(r, "encoding a changed frame", frame.to_bytes)
        r.equal(bytes(raw), ref.build_frame(*args), "bytes of a changed frame", args=args)
    got = must(r, "decoding a changed frame", KINDS[kind].from_bytes, raw)
    same_frame(r, got, frame, args)
    r.label("changed")
    r.nontrivial("changed", args)


FACETS = [(1000, "roundtrip", roundtrip), (150, "changed", changed), (1, "limit", limit)]
QUICK = 120000
THOROUGH = 2000000
