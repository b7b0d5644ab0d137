from elgas import application
from vlib import clock, ref
from vlib.engine import call, must
from vlib.world import NEED, Resp, gen_request, gen_response, gen_setup, poll

ID = "C07"
RULE = (
    "response payloads built field by field for all six services, decoded directly (immutable and"
    " mutable bytes) and through a plain or encrypted connection; non-trivial: data blocks or"
    " numbers using their high bytes (distinct payloads)"
)


def decode(s, r):
    service = s.choice(ref.ANSWERED)
    resp = gen_response(s, service, big=True)
    via = s.bool()
    if not via:
        got = must(r, "decoding a payload", resp.cls.from_bytes, resp.payload)
        bad = resp.mismatch(got)
        r.check(bad is None, bad or "", payload=resp.payload)
        got2 = must(r, "decoding mutable bytes", resp.cls.from_bytes, bytearray(resp.payload))
        bad = resp.mismatch(got2)
        r.check(bad is None, bad or "", payload=resp.payload)
        r.label("direct")
    else:
        setup = gen_setup(s)
        conn = setup.connection()
        conn.send(gen_request(s, setup.password, service).make())
        conn.receive_data(setup.wire(s, service, resp.payload))
        value, errors = poll(conn)
        r.check(not errors, "intact response raises", errors=errors, payload=resp.payload)
        bad = resp.mismatch(value)
        r.check(bad is None, bad or "", payload=resp.payload)
        alone = must(r, "decoding a payload", resp.cls.from_bytes, resp.payload)
        r.check(alone == value, "direct and received decoding differ", got=value, want=alone)
        r.check(poll(conn)[0] is NEED, "something left after the response")
        r.label("encrypted" if setup.encrypted else "plain")
    r.label(f"service {service:#x}")
    if not resp.expected.get("data", b"x"):
        r.label("empty data block")
    if resp.expected.get("oldest_record_id", 0) > 255 or len(resp.payload) > 20:
        r.nontrivial(service, resp.payload)
        r.sample(service=service, payload=resp.payload, expected=resp.expected)


def series(s, r):
    """Responses that resemble each other, one after the other; unusable ones in between."""
    service = s.choice([x for x in ref.ANSWERED if x != ref.WRITE_TIME])
    resp = gen_response(s, service)
    fixed = {ref.READ_TIME: 6, ref.READ_VALUES: 6, ref.READ_PARAMS: 5}.get(service, 5)
    for _ in range(s.int(2, 5)):
        if s.chance(0.2):
            call(resp.cls.from_bytes, resp.payload[: s.int(0, fixed - 1)])
        if s.chance(0.1):
            clock.pause(s, r, 0.5)
        got = must(r, "decoding one of a series", resp.cls.from_bytes, s.choice((bytes, bytearray))(resp.payload))
        bad = resp.mismatch(got)
        r.check(bad is None, f"in a series: {bad}", payload=resp.payload)
        # other bytes in the variable part, or another head with the same rest
        expected = dict(resp.expected)
        name = "extra_data" if service == ref.READ_TIME else "data"
        data = bytearray(expected[name])
        if data and s.chance(0.7):
            at = s.int(0, len(data) - 1)
            data[at] ^= s.int(1, 255)
            expected[name] = bytes(data)
            head = fixed + (1 if service == ref.READ_TIME else 0)
            payload = bytearray(resp.payload)
            payload[head + at] = data[at]
        else:
            other = gen_response(s, service)
            payload = bytearray(other.payload[:fixed] + resp.payload[fixed:])
            for k in HEADS:
                if k in expected:
                    expected[k] = other.expected[k]
        resp = Resp(service, bytes(payload), expected)
    r.label("series")
    r.nontrivial("series", service, resp.payload)


HEADS = (
    "time", "current_time", "is_dst", "device_supports_dst", "supports_dst",
    "object_number", "object_amount", "is_end", "archive", "oldest_record_id",
)

FACETS = [(8, "decode", decode), (1, "series", series)]
QUICK = 270000
THOROUGH = 4000000
