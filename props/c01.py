from elgas import utils
from vlib import clock, ref
from vlib.engine import call, must

ID = "C01"
RULE = (
    "frames of 0-400 (rarely 5000 or 66000) bytes rich in 0D/1B/8D/0E/0F, ending in 0D;"
    " non-trivial: a reserved byte or an escape-looking pair before the end byte"
)


def gen_body(s):
    mode = s.weighted([(60, 0), (25, 1), (10, 2), (4, 3), (1, 4)])
    if mode == 0:
        return s.bytes(0, 40)
    if mode == 1:
        return s.bytes(0, 24, alphabet=ref_alphabet)
    if mode == 2:
        return s.bytes(0, 400)
    if mode == 3:
        return s.bytes(400, 5000)
    return s.bytes(5000, 66000) if s.chance(0.2) else s.bytes(0, 3000)


ref_alphabet = bytes([0x41, 0x0D, 0x1B, 0x8D, 0x0E, 0x0F])


def roundtrip(s, r):
    body = gen_body(s)
    frame = body + b"\x0d"
    wire = must(r, "stuffing a frame", utils.escape_characters, frame)
    want = ref.stuff(frame)
    r.equal(bytes(wire), want, "stuffed form", frame=frame)
    r.check(wire.index(b"\x0d") == len(wire) - 1, "end byte inside the stuffed frame", frame=frame)
    r.check(b"\x8d" not in wire, "0x8D in the stuffed frame", frame=frame)
    kind = s.choice((bytes, bytearray))
    back = must(r, "reversing the stuffing", utils.return_characters, kind(want))
    r.equal(bytes(back), frame, "frame after stuffing and reversing", wire=want)
    special = sum(body.count(c) for c in (0x0D, 0x1B, 0x8D))
    if special:
        r.nontrivial(body)
        r.sample(frame=frame, wire=wire)
        r.label("reserved bytes 1" if special == 1 else "reserved bytes 2+")
    if b"\x1b\x1b" in body or b"\x1b\x0e" in body or b"\x1b\x0f" in body:
        r.label("looks like stuffing pairs")
    if len(body) > 1000:
        r.label("over 1000 bytes")


def refuse(s, r):
    data = s.bytes(0, 60)
    if data.endswith(b"\x0d"):
        data += bytes((s.choice((0x0E, 0x0A, 0x8D, 0x1B, 0)),))
    got = call(utils.escape_characters, data)
    r.check(
        isinstance(got.error, ValueError),
        "data without end byte is not refused with ValueError",
        data=data,
        outcome=got,
    )
    r.label("no end byte")
    if b"\x0d" in data or data[-1:] in (b"\x8d", b"\x1b"):
        r.nontrivial("refuse", data)


def series(s, r):
    """Frames that resemble each other, one after the other, and data that is refused in between."""
    body = s.bytes(1, 60) if s.bool() else s.bytes(40, 400)
    for _ in range(s.int(2, 6)):
        if s.chance(0.15):
            got = call(utils.escape_characters, body + bytes((s.choice((0x0E, 0x0A, 0x8D, 0x1B, 0)),)))
            r.check(isinstance(got.error, ValueError), "data without end byte is not refused", body=body, outcome=got)
        if s.chance(0.15):
            clock.pause(s, r, 0.5)
        frame = body + b"\x0d"
        want = ref.stuff(frame)
        if s.bool():
            wire = must(r, "stuffing a frame of a series", utils.escape_characters, frame)
            r.equal(bytes(wire), want, "stuffed form in a series", frame=frame)
        if s.bool():
            back = must(r, "reversing the stuffing in a series", utils.return_characters, want)
            r.equal(bytes(back), frame, "frame after stuffing and reversing in a series", wire=want)
        body = bytearray(body)
        for _ in range(s.weighted([(3, 1), (2, 2), (1, 0)])):
            i = s.int(0, len(body) - 1)
            how = s.int(0, 2)
            if how == 0:
                body[i] = s.choice(ref_alphabet)
            elif how == 1:
                body[i] ^= 1 << s.int(0, 7)
            else:
                j = s.int(0, len(body) - 1)
                body[i], body[j] = body[j], body[i]
        body = bytes(body)
    r.label("series")
    r.nontrivial("series", body)


FACETS = [(90, "roundtrip", roundtrip), (10, "refuse", refuse), (15, "series", series)]
QUICK = 160000
THOROUGH = 6000000
