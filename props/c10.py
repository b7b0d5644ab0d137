import struct

from elgas import security
from vlib import ref
from vlib.engine import call, must
from vlib.world import gen_key, gen_payload, gen_request, gen_response, gen_setup, poll

ID = "C10"
RULE = (
    "encrypted messages altered (bytes, header, key, key id, stated length, blocks, CRC under the"
    " right key), cut or extended; the reference implementation decides whether anything still"
    " fits; non-trivial: alterations it refuses (distinct bytes)"
)


def alter(s, key, kid, payload):
    """(what, data, intact message); whether it may still be accepted is left to the reference"""
    pad = s.bytes(ref.padding_needed(len(payload)))
    data = ref.encrypt(payload, key, kid, pad)
    mode = s.weighted(
        [
            (4, "byte"),
            (3, "key id"),
            (3, "stated"),
            (3, "stated with CRC"),
            (3, "other key"),
            (2, "other id, CRC fits"),
            (3, "cut"),
            (2, "extend"),
            (3, "crc byte"),
            (2, "blocks"),
            (2, "crc order"),
            (2, "no crc"),
            (1, "random"),
            (1, "empty"),
            (2, "bits"),
        ]
    )
    b = bytearray(data)
    if mode == "byte":
        i = s.int(0, len(b) - 1)
        b[i] ^= s.int(1, 255)
    elif mode == "bits":
        for _ in range(s.int(2, 6)):
            b[s.int(0, len(b) - 1)] ^= 1 << s.int(0, 7)
    elif mode == "key id":
        b[2] = s.u8()
    elif mode == "stated":
        n = s.choice((len(payload) + s.choice((1, 2, -1, 3, 16)), s.u16()))
        b[:2] = struct.pack("<H", n & 0xFFFF)
    elif mode == "stated with CRC":
        inner = len(payload) + len(pad)
        n = s.choice((inner + 1, inner + 2, inner + 3, inner, 0xFFFF, s.u16(), 0)) & 0xFFFF
        b = bytearray(ref.encrypt(payload, key, kid, pad, n))
    elif mode == "other key":
        other = gen_key(s)
        if s.bool():
            other = bytearray(key)
            other[s.int(0, len(key) - 1)] ^= 1 << s.int(0, 7)
            other = bytes(other)
        b = bytearray(ref.encrypt(payload, other, kid, pad))
    elif mode == "other id, CRC fits":
        b = bytearray(ref.encrypt(payload, key, s.u8(), pad))
    elif mode == "cut":
        b = b[: s.int(0, len(b) - 1)] if s.bool() else b[s.int(1, len(b)) :]
    elif mode == "extend":
        b += s.bytes(s.choice((1, 8, 15, 16, 32, s.int(1, 40))))
    elif mode in ("crc byte", "crc order", "no crc"):
        header = data[:3]
        inner = payload + pad
        crc = bytearray(ref.crc16(header + inner))
        if mode == "crc byte":
            crc[s.int(0, 1)] ^= s.int(1, 255)
        elif mode == "crc order":
            crc.reverse()
        else:
            crc = bytearray(s.bytes(2))
        e = ref.aes(key).encryptor()
        b = bytearray(header + e.update(inner + crc) + e.finalize())
    elif mode == "blocks":
        n = (len(b) - 3) // 16
        i, j = 3 + 16 * s.int(0, n - 1), 3 + 16 * s.int(0, n - 1)
        what = s.choice(("swap", "drop", "repeat"))
        if what == "swap":
            b[i : i + 16], b[j : j + 16] = b[j : j + 16], b[i : i + 16]
        elif what == "drop":
            del b[i : i + 16]
        else:
            b[i:i] = b[j : j + 16]
    elif mode == "random":
        b = bytearray(s.bytes(0, 90))
    else:
        b = bytearray(s.bytes(0, 3))
        if s.bool():
            b = bytearray(struct.pack("<HB", s.choice((0, 1, 0xFFFF)), kid))
    return mode, bytes(b), data


def judge(r, what, got, want, data):
    if want is None:
        r.check(not got.ok, f"{what} returns data for a message that does not fit", data=data, outcome=got)
        r.check(
            isinstance(got.error, Exception), f"{what} refuses with an error", data=data, outcome=got
        )
    else:
        r.check(got.ok, f"{what} refuses a message that fits", data=data, outcome=got)
        r.check(
            bytes(got.value) == want, f"{what} returns other data", data=data, got=got.value, want=want
        )


def direct(s, r):
    key, kid = gen_key(s), s.int(1, 7)
    payload = s.bytes(0, 70)
    if s.chance(0.02):
        payload = gen_payload(s)
    ctx = security.CipherContext(kid, key)
    mode, data, intact = alter(s, key, kid, payload)
    before = s.weighted([(2, "nothing"), (2, "empty"), (2, "intact")])
    if before == "empty":
        must(r, "decrypting an intact message", ctx.decrypt, ref.encrypt(b"", key, kid, bytes(14)))
    elif before == "intact":
        # the very message that is altered then
        back = must(r, "decrypting an intact message", ctx.decrypt, intact)
        r.equal(bytes(back), payload, "intact message at first")
        r.label("intact one before")
    want = ref.decrypt(data, key, kid)
    got = call(ctx.decrypt, s.choice((bytes, bytearray))(data))
    judge(r, "decryption", got, want, data)
    again = ref.encrypt(payload, key, kid, s.bytes(ref.padding_needed(len(payload))))
    back = must(r, "decrypting an intact message afterwards", ctx.decrypt, again)
    r.equal(bytes(back), payload, "intact message afterwards")
    r.label(mode)
    if want is None:
        r.nontrivial(data, key)
        r.sample(alteration=mode, data=data, outcome=got)
    else:
        r.label("still fits")


def received(s, r):
    setup = gen_setup(s, encrypted=True)
    req = gen_request(s, setup.password)
    good = gen_response(s, req.service, big=s.chance(0.1))
    conn = setup.connection()
    conn.send(req.make())
    payload = good.payload if s.chance(0.8) else bytes((s.u8(),))
    for _ in range(s.int(1, 2)):
        mode, data, intact = alter(s, setup.key, setup.key_id, payload)
        if len(payload) > 1 and s.chance(0.3):
            # the intact one comes first, and the altered one as answer to the same request again
            frame = ref.build_frame(ref.ENC_RESPONSE, req.service, 0, 0, 0, 0, intact)
            conn.receive_data(ref.stuff(frame))
            value, _ = poll(conn)
            bad = good.mismatch(value)
            r.check(bad is None, f"intact response before the altered one: {bad}", data=intact)
            conn.send(req.make())
            r.label("intact one before")
        if ref.decrypt(data, setup.key, setup.key_id) is not None:
            r.label("still fits")
            return
        frame = ref.build_frame(ref.ENC_RESPONSE, req.service, s.u16(), s.u8(), s.u16(), s.u8(), data)
        conn.receive_data(ref.stuff(frame))
        r.label("received: " + mode)
        if s.bool():
            value, _ = poll(conn)
            r.check(
                not hasattr(value, "service"), "altered message delivered", data=data, value=value
            )
    wire = setup.wire(s, req.service, good.payload)
    conn.receive_data(wire)
    value, _ = poll(conn)
    bad = good.mismatch(value)
    r.check(bad is None, f"intact response after the altered one: {bad}", data=data)
    r.nontrivial("received", data)


FACETS = [(4, "direct", direct), (2, "received", received)]
QUICK = 120000
THOROUGH = 2500000
