import struct

from elgas import application, constants, frames, utils
from vlib import clock, ref
from vlib.engine import call, must

ID = "C08"
RULE = (
    "call messages with every field generated independently (32-bit counters and times, BCD ids,"
    " NUL-padded texts), decoded directly and out of a stuffed request frame; non-trivial: all"
    " counters distinct and above one byte"
)


def gen_digits(s, n):
    mode = s.weighted([(4, "digits"), (1, "zeros"), (1, "leading")])
    if mode == "zeros":
        return bytes(n)
    raw = bytes(ref.bcd(b % 100)[0] for b in s.bytes(n))
    if mode == "leading":
        k = s.int(1, n)
        raw = bytes(k) + raw[k:]
    return raw


def gen_call(s):
    e = {}
    out = bytearray(2)

    def num(name, fmt, v):
        out.extend(struct.pack(fmt, v))
        e[name] = v

    def when(name):
        v = s.u32()
        out.extend(struct.pack("<I", v))
        e[name] = ref.plus_seconds(v)

    def text(name, n):
        raw = ref.gen_text(s, n)
        out.extend(raw)
        e[name] = ref.Text(raw)

    def digits(name, n):
        raw = gen_digits(s, n)
        out.extend(raw)
        e[name] = str(int(raw.hex()))

    num("version", "<B", s.u8())
    guid = s.bytes(16)
    out.extend(guid)
    e["guid"] = guid
    text("station_id", 17)
    digits("sim_card_id", 10)
    digits("modem_id", 8)
    num("protocol", "<B", s.int(0, 3))
    num("address_1", "<H", s.u16())
    num("address_2", "<B", s.u8())
    num("signal_strength", "<B", s.u8())
    num("connections", "<I", s.u32())
    when("last_connection_time")
    num("connection_errors", "<I", s.u32())
    when("last_connection_error_time")
    num("resets", "<I", s.u32())
    when("last_reset_time")
    num("tcp_data", "<I", s.u32())
    num("all_data", "<I", s.u32())
    serial = s.u32()
    out.extend(struct.pack("<I", serial))
    e["serial_number"] = str(serial)
    ip = s.bytes(4)
    out.extend(ip)
    e["ip_address"] = "%d.%d.%d.%d" % tuple(ip)
    when("last_modem_error_time")
    num("last_modem_error", "<B", s.u8())
    num("modem_battery_capacity", "<H", s.u16())
    num("modem_battery_voltage", "<H", s.u16())
    text("firmware_version", 33)
    out[:2] = struct.pack("<H", len(out))
    return bytes(out), e


def compare(r, got, expected, payload, how):
    r.check(type(got) is application.CallRequest, f"{how}: type of the result", got=got)
    for field, want in expected.items():
        value = getattr(got, field, "<absent>")
        if isinstance(want, ref.Text):
            good = isinstance(value, str) and value in want.options
        elif isinstance(want, bytes):
            good = isinstance(value, (bytes, bytearray)) and bytes(value) == want
        else:
            good = value == want and (isinstance(value, str) == isinstance(want, str))
        r.check(good, f"{how}: {field} is {value!r}, sent was {want!r}", payload=payload)


def decode(s, r):
    payload, expected = gen_call(s)
    if s.chance(0.1):
        # others like it first: the same head or the same tail, or cut
        other = gen_call(s)[0]
        at = s.int(0, len(payload))
        for data in (payload[:at] + other[at:], other[:at] + payload[at:], payload[: s.int(0, len(payload))]):
            if s.bool():
                call(application.CallRequest.from_bytes, data)
        if s.chance(0.1):
            clock.pause(s, r, 0.5)
        r.label("after others")
    kind = s.choice((bytes, bytearray))
    got = must(r, "decoding a call", application.CallRequest.from_bytes, kind(payload))
    compare(r, got, expected, payload, "direct")
    frame = ref.build_frame(ref.REQUEST, ref.CALL, s.u16(), s.u8(), s.u16(), s.u8(), payload)
    wire = ref.stuff(frame)
    request = must(
        r, "decoding the frame", lambda: frames.Request.from_bytes(utils.return_characters(wire))
    )
    r.equal(int(request.service), ref.CALL, "service of the frame")
    framed = must(r, "decoding a received call", application.CallRequest.from_bytes, request.data)
    compare(r, framed, expected, payload, "from the frame")
    r.check(framed == got, "direct and framed decoding differ", payload=payload)
    counters = [
        expected[k]
        for k in ("connections", "connection_errors", "resets", "tcp_data", "all_data")
    ]
    r.label("protocol %d" % expected["protocol"])
    if len(set(counters)) == 5:
        r.nontrivial(payload)
        r.sample(payload=payload, expected=expected)


FACETS = [(1, "decode", decode)]
QUICK = 150000
THOROUGH = 1200000
