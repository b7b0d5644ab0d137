from elgas import security, utils
from vlib import ref
from vlib.engine import call, member, must
from vlib.world import gen_key

ID = "C09"
RULE = (
    "payload (0-300, sometimes up to 65535 bytes) x 16-byte key x key id, encrypted by the"
    " package and opened by the reference implementation, encrypted by the reference with any"
    " padding and opened by the package; non-trivial: every distinct payload/key pair"
)


def gen_payload(s):
    mode = s.weighted([(60, 0), (30, 1), (6, 2), (1, 3)])
    if mode == 0:
        return s.bytes(0, 48)
    if mode == 1:
        return s.bytes(0, 300)
    if mode == 2:
        return s.bytes(200, 3000)
    return bytes((s.u8(),)) * s.choice((65535, 65534, 65533, 65526, 65518, 32768, 40000))


def gen_id(s):
    k = s.weighted([(4, 0), (1, 1)])
    return s.int(1, 7) if k == 0 else s.u8()


def context(s, key, kid):
    if 1 <= kid <= 7 and s.bool():
        kid = member(security.EncryptionKeyId, kid)
    if s.bool():
        key = utils.to_secret_byte(key)
    return security.CipherContext(kid, key)


def resembling(s, data):
    """The same length, and different in a few places."""
    data = bytearray(data)
    for _ in range(s.int(1, 2) if data else 0):
        data[s.int(0, len(data) - 1)] ^= s.int(1, 255)
    return bytes(data)


def encrypt(s, r):
    key, kid = gen_key(s), gen_id(s)
    ctx = context(s, key, kid)
    payload = None
    for _ in range(s.int(1, 3)):
        payload = resembling(s, payload) if payload is not None and s.chance(0.4) else gen_payload(s)
        if s.chance(0.05):
            # a key that no cipher takes: refused, and of no effect on what follows
            bad = s.bytes(s.choice((0, 1, 8, 15, 17, 31, 33, 64)))
            got = call(lambda: security.CipherContext(kid, bad).encrypt(payload))
            r.check(not got.ok, "something is encrypted with a key that is none", key=bad, outcome=got)
            r.label("after an unusable key")
        arg = s.choice((bytes, bytearray))(payload)
        out = must(r, "encrypting", ctx.encrypt, arg)
        raw = bytes(out)
        got = ref.open_cipher(raw, key)
        r.check(got is not None, "not a whole number of cipher blocks", payload=payload, out=raw)
        stated, got_kid, clear, good = got
        r.equal(stated, len(payload), "stated length", payload=payload)
        r.equal(got_kid, kid, "key id byte")
        r.check(good, "CRC of the encrypted form", payload=payload, key=key, clear=clear)
        r.equal(clear[: len(payload)], payload, "clear text", key=key)
        r.check(len(clear) - len(payload) < 16, "16 or more padding bytes", payload=payload)
        back = must(r, "decrypting what was encrypted", ctx.decrypt, raw)
        r.equal(bytes(back), payload, "payload after encrypting and decrypting", key=key)
        other = security.CipherContext(kid, key)
        back = must(r, "decrypting in a new context", other.decrypt, bytearray(raw))
        r.equal(bytes(back), payload, "payload in a new context", key=key)
        r.nontrivial(key, kid, payload)
        r.sample(key=key, key_id=kid, payload=payload, encrypted=raw)
        r.label(f"length mod 16 = {len(payload) % 16}")


def foreign(s, r):
    key, kid = gen_key(s), gen_id(s)
    ctx = context(s, key, kid)
    payload = None
    for _ in range(s.int(1, 3)):
        payload = resembling(s, payload) if payload is not None and s.chance(0.4) else gen_payload(s)
        pad = s.bytes(ref.padding_needed(len(payload)))
        if s.chance(0.2):
            bad = resembling(s, ref.encrypt(payload, key, kid, pad))
            call(ctx.decrypt, bad)  # refused or not: what comes after is not affected
        data = ref.encrypt(payload, key, kid, pad)
        back = must(r, "decrypting foreign data", ctx.decrypt, s.choice((bytes, bytearray))(data))
        r.equal(bytes(back), payload, "payload of foreign data", key=key, padding=pad)
        r.nontrivial(key, kid, payload, pad)
        r.label("foreign")


def too_long(s, r):
    ctx = security.CipherContext(s.int(1, 7), gen_key(s))
    payload = bytes(65536 + s.choice((0, 1, 15, 16, 1000, 65536)))
    got = call(ctx.encrypt, payload)
    r.check(not got.ok, "payload too long for the length field is encrypted", size=len(payload))
    r.label("too long")


def crc(s, r):
    data = s.bytes(0, 400)
    for _ in range(s.weighted([(3, 1), (1, 2)])):
        got = must(r, "CRC", utils.calculate_crc, s.choice((bytes, bytearray))(data))
        r.equal(got.to_bytes(2, "big"), ref.crc16(data), "Modbus CRC", data=data)
        data = resembling(s, data)
    r.label("crc")


FACETS = [(120, "encrypt", encrypt), (100, "foreign", foreign), (60, "crc", crc), (1, "long", too_long)]
QUICK = 40000
THOROUGH = 1600000
