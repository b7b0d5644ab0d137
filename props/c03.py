import struct

from elgas import frames
from props.c02 import KINDS
from vlib import clock, ref
from vlib.engine import call

ID = "C03"
RULE = (
    "complete frames built by the reference, then damaged (byte changed, cut, extended, crafted"
    " header with correct check bytes, runt, foreign kind, single check byte off) or left intact;"
    " decoded as each of the four kinds and by the response factory; non-trivial: the bytes differ"
    " from a correct frame yet start like one, or are correct"
)
ASSUMPTIONS = ["a frame is judged correct by the reference decoder in vlib/ref.py"]


def craft(s):
    kind = s.choice(sorted(KINDS))
    service = s.choice(ref.SERVICES)
    size = s.weighted([(190, (0, 60)), (8, (200, 600)), (2, (600, 5000))])
    payload = s.bytes(*size)
    a = (s.u16(), s.u8(), s.u16(), s.u8())
    frame = bytearray(ref.build_frame(kind, service, *a, payload))
    mode = s.weighted(
        [
            (3, "intact"),
            (6, "byte"),
            (2, "cut"),
            (2, "extend"),
            (2, "drop"),
            (2, "swap"),
            (4, "length"),
            (3, "service"),
            (3, "kind"),
            (3, "start"),
            (4, "check"),
            (3, "runt"),
            (2, "end"),
            (2, "bits"),
            (1, "random"),
            (2, "lenbytes"),
        ]
    )
    n = len(frame)
    intact = bytes(frame)
    if mode == "byte":
        i = s.int(0, n - 1)
        frame[i] ^= s.int(1, 255)
    elif mode == "bits":
        # the same bit changed in two bytes keeps the XOR check
        i, j = s.int(1, n - 2), s.int(1, n - 2)
        m = 1 << s.int(0, 7)
        frame[i] ^= m
        frame[j] ^= m
    elif mode == "cut":
        k = s.int(0, n - 1)
        frame = frame[:k] if s.bool() else frame[n - k :]
        if s.bool():
            frame += b"\x0d"
    elif mode == "extend":
        extra = s.bytes(1, 6)
        frame = frame + extra if s.bool() else bytearray(extra) + frame
        if s.bool():
            frame += b"\x0d"
    elif mode == "drop":
        i = s.int(0, n - 1)
        del frame[i : i + s.int(1, 3)]
    elif mode == "swap":
        i, j = s.int(1, n - 2), s.int(1, n - 2)
        frame[i], frame[j] = frame[j], frame[i]
    elif mode == "length":
        k = (n - 1 + s.choice((-15, -2, -1, 1, 2, 15, 256, -256, 0x8000))) & 0xFFFF
        frame[4:6] = struct.pack("<H", k)
        frame[-4:-1] = ref.checks(bytes(frame[1:-4]))
    elif mode == "lenbytes":
        # bytes added to or taken from the payload, check bytes right, length field as it was
        if s.bool() and payload:
            del frame[12 : 12 + s.int(1, len(payload))]
        else:
            frame[12:12] = s.bytes(1, 20)
        frame[-4:-1] = ref.checks(bytes(frame[1:-4]))
    elif mode == "service":
        frame[3] = s.choice([x for x in range(256) if x not in ref.SERVICES])
        frame[-4:-1] = ref.checks(bytes(frame[1:-4]))
    elif mode == "kind":
        frame[2] = s.u8()
        frame[-4:-1] = ref.checks(bytes(frame[1:-4]))
    elif mode == "start":
        i = s.int(0, 1)
        frame[i] = s.u8()
        frame[-4:-1] = ref.checks(bytes(frame[1:-4]))
    elif mode == "check":
        for _ in range(s.int(1, 3)):
            frame[-4 + s.int(0, 2)] ^= s.int(1, 255)
    elif mode == "end":
        frame[-1] = s.u8()
    elif mode == "runt":
        n = s.int(4, 15)
        body = bytes((0xFE, kind, service, n - 1, 0)) + s.bytes(10)
        body = body[: max(0, n - 5)]
        frame = bytearray(b"\x02" + body + ref.checks(body) + b"\x0d")
        if n < 10 and s.bool():
            # the header overlaps the check bytes: pick the service that makes it fit
            for svc in ref.SERVICES:
                body = bytes((0xFE, kind, svc, n - 1, 0))[: max(0, n - 5)]
                cand = b"\x02" + body + ref.checks(body) + b"\x0d"
                if len(cand) == n and cand[4:6] == struct.pack("<H", n - 1):
                    frame = bytearray(cand)
    elif mode == "random":
        frame = bytearray(s.bytes(0, 40))
    return mode, bytes(frame), intact


def decode(s, r):
    mode, data, intact = craft(s)
    if s.chance(0.3):
        # something remembered of the intact form must not let its damaged form pass
        for _ in range(s.weighted([(6, 1), (1, 3)])):
            cls = KINDS[intact[2]]
            way = cls.from_bytes if s.bool() or intact[2] < 0x86 else frames.ResponseFactory.from_bytes
            judge(r, "decoding the intact form first", True, call(way, intact), intact, cls)
        if s.chance(0.1):
            clock.pause(s, r, 0.5)
        r.label("intact form first")
    buf = s.choice((bytes, bytearray))(data)
    accepted = 0
    for kind, cls in KINDS.items():
        good = ref.valid_frame(data, kind)
        accepted += good
        got = call(cls.from_bytes, buf)
        judge(r, f"{cls.__name__}.from_bytes", good, got, data, cls)
    good = ref.valid_frame(data, 0x86) or ref.valid_frame(data, 0x87)
    got = call(frames.ResponseFactory.from_bytes, buf)
    cls = KINDS[data[2]] if good else None
    judge(r, "ResponseFactory.from_bytes", good, got, data, cls)
    r.label(mode)
    r.label("correct frame" if accepted else "not a frame")
    if accepted or data[:2] == b"\x02\xfe":
        r.nontrivial(data)
        r.sample(damage=mode, data=data, correct=bool(accepted))


def judge(r, what, good, got, data, cls):
    if good:
        r.check(got.ok, f"{what} refuses a complete, correct frame", data=data, outcome=got)
        r.check(type(got.value) is cls, f"{what}: kind of frame", data=data, outcome=got)
        f = ref.split_frame(data)
        r.check(
            got.value.service == f["service"] and bytes(got.value.data) == f["payload"],
            f"{what}: decoded content",
            data=data,
            outcome=got,
        )
    else:
        r.check(
            not got.ok, f"{what} accepts bytes that are not a correct frame", data=data, outcome=got
        )
        r.check(
            isinstance(got.error, ValueError),
            f"{what} refuses with {type(got.error).__name__}, not ValueError",
            data=data,
            outcome=got,
        )


FACETS = [(1, "decode", decode)]
QUICK = 480000
THOROUGH = 4000000
