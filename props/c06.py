from datetime import datetime, timedelta, timezone

from elgas import utils
from vlib import ref
from vlib.engine import Discard, call, must

ID = "C06"
RULE = (
    "timestamps 2000-2099 both ways with all four flag combinations; arbitrary, near-BCD and"
    " wrongly sized byte strings judged by the reference decoder; years outside; non-trivial: every"
    " accepted timestamp and every six-byte string (distinct)"
)


def both_ways(s, r):
    t = ref.gen_time(s)
    raw = must(r, "encoding a timestamp", utils.datetime_to_bytes, t)
    r.equal(bytes(raw), ref.time_bytes(t), "encoded timestamp", timestamp=t)
    for flags in (0, 0x80, 0x40, 0xC0):
        data = s.choice((bytes, bytearray))(ref.time_bytes(t, flags))
        got = must(r, "decoding a timestamp", utils.bytes_to_datetime, data)
        r.check(len(got) == 3, "shape of the result", got=got)
        r.equal(got[0], t, "decoded timestamp", data=data)
        r.equal(bool(got[1]), bool(flags & 0x80), "summer time flag", data=data)
        r.equal(bool(got[2]), bool(flags & 0x40), "summer time support flag", data=data)
    r.nontrivial(t)
    r.sample(timestamp=t, encoded=raw)
    r.label("29 February" if (t.month, t.day) == (2, 29) else "round trip")


def extras(s, r):
    """A time zone, the fold and a fraction of a second change nothing in the bytes."""
    t = ref.gen_time(s)
    full = ref.with_extras(s, t)
    raw = must(r, "encoding a timestamp with extras", utils.datetime_to_bytes, full)
    r.equal(bytes(raw), ref.time_bytes(t), "encoded timestamp with extras", timestamp=repr(full))
    if full.tzinfo is not None and s.bool():
        # the same moment in another zone: equal for Python, but another date and time of day
        zone = timezone(timedelta(minutes=s.choice((0, 60, -300, s.int(-1439, 1439)))))
        try:
            other = full.astimezone(zone)
        except OverflowError:
            raise Discard("no such date")
        if 2000 <= other.year <= 2099:
            raw = must(r, "encoding the same moment in another zone", utils.datetime_to_bytes, other)
            want = ref.time_bytes(other.replace(tzinfo=None, microsecond=0, fold=0))
            r.equal(bytes(raw), want, "encoded moment in another zone", timestamps=repr((full, other)))
            r.label("same moment in another zone")
    r.nontrivial("extras", full.isoformat(), full.fold)
    r.label("fraction" if full.microsecond else "whole")
    r.label("no time zone" if full.tzinfo is None else type(full.tzinfo).__name__)


def gen_six(s):
    mode = s.weighted([(4, "near"), (2, "random"), (2, "digits")])
    if mode == "random":
        return s.bytes(6)
    if mode == "digits":
        return bytes(ref.bcd(s.int(0, 99))[0] for _ in range(6))
    t = ref.gen_time(s)
    b = bytearray(ref.time_bytes(t, s.choice((0, 0x80, 0x40, 0xC0))))
    i = s.int(0, 5)
    b[i] = s.choice(
        (s.u8(), b[i] + 1 & 255, b[i] + 10 & 255, b[i] | 0x0A, b[i] | 0xA0, 0, 0x60, 0x31, 0x32, 0x24)
    )
    return bytes(b)


def arbitrary(s, r):
    data = gen_six(s)
    want = ref.parse_time(data)
    got = call(utils.bytes_to_datetime, s.choice((bytes, bytearray))(data))
    if want is None:
        r.check(
            isinstance(got.error, ValueError),
            "bytes that are no BCD date and time are not refused with ValueError",
            data=data,
            outcome=got,
        )
        r.label("invalid date refused")
    else:
        r.check(got.ok, "valid BCD date and time refused", data=data, outcome=got)
        r.check(
            got.value[0] == want[0]
            and (bool(got.value[1]), bool(got.value[2])) == (want[1], want[2]),
            "decoded timestamp",
            data=data,
            got=got.value,
            want=want,
        )
        r.label("valid bytes decoded")
    r.nontrivial(data)


def wrong_length(s, r):
    n = s.choice((0, 1, 2, 3, 4, 5, 7, 8, 12, s.int(7, 40)))
    t = ref.time_bytes(ref.gen_time(s), s.choice((0, 0x80, 0x40, 0xC0)))
    data = (t * 8)[:n] if s.bool() else s.bytes(n)
    if len(data) == 6:
        return
    got = call(utils.bytes_to_datetime, data)
    r.check(
        isinstance(got.error, ValueError),
        f"{n} bytes are not refused with ValueError",
        data=data,
        outcome=got,
    )
    r.label("wrong length refused")


def outside(s, r):
    edge = s.weighted([(3, "near"), (2, "far")])
    if edge == "near":
        base = s.choice((datetime(1999, 12, 31, 23, 59, 59), datetime(2100, 1, 1)))
        delta = timedelta(seconds=s.int(0, 86400 * 400))
        t = base - delta if base.year == 1999 else base + delta
    else:
        year = s.int(1, 1999) if s.bool() else s.int(2100, 9999)
        t = datetime(year, s.int(1, 12), s.int(1, 28), s.int(0, 23), s.int(0, 59), s.int(0, 59))
    got = call(utils.datetime_to_bytes, t)
    r.check(
        isinstance(got.error, ValueError),
        "timestamp outside 2000-2099 is not refused with ValueError",
        timestamp=t,
        outcome=got,
    )
    r.label("outside refused")
    r.nontrivial("outside", t)


FACETS = [
    (6, "both ways", both_ways),
    (1, "extras", extras),
    (3, "arbitrary bytes", arbitrary),
    (1, "wrong length", wrong_length),
    (1, "outside", outside),
]
QUICK = 400000
THOROUGH = 5000000


def EXTRA(tier, seed, listed):
    """Every day of the century at three times of day, every time of day on three days."""
    n = 0
    step = 1 if tier == "thorough" else 7
    times = [datetime(2000, 1, 1) + timedelta(days=d) for d in range(0, 36525, 1)]
    for base in times:
        for h, m, sec in ((0, 0, 0), (23, 59, 59), (12, 34, 56)):
            n += 1
            bad = _one(base.replace(hour=h, minute=m, second=sec))
            if bad:
                return bad
    for base in (datetime(2000, 2, 29), datetime(2099, 12, 31), datetime(2024, 10, 27)):
        for sec in range(seed % step, 86400, step):
            n += 1
            bad = _one(base + timedelta(seconds=sec))
            if bad:
                return bad
    return {"coverage": {"enumerated_timestamps": n}}


def _one(t):
    got = call(utils.datetime_to_bytes, t)
    want = ref.time_bytes(t)
    if not got.ok or bytes(got.value) != want:
        return _violation(f"encoding {t} {got!r}, not {want.hex()}", t)
    got = call(utils.bytes_to_datetime, want)
    if not got.ok or got.value != (t, False, False):
        return _violation(f"decoding {want.hex()} {got!r}, not {t}", t)
    return None


def _violation(message, t):
    return {
        "replay": {
            "property": ID,
            "timestamp": t.isoformat(),
            "message": message,
            "detail": {},
        }
    }


def REPLAY(data):
    bad = _one(datetime.fromisoformat(data["timestamp"]))
    return bad["replay"] if bad else {}
