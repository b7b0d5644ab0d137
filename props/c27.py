from elgas import application, client, connection
from vlib import ref
from vlib.device import Line
from vlib.engine import call, must
from vlib.world import PW_CHARS, Setup, gen_key

ID = "C27"
RULE = (
    "connections and clients with addresses, password lengths and password ids at, next to, inside"
    " and outside the limits, none to all of them outside; refused if any is outside, else accepted,"
    " kept and used in the first request; non-trivial: every distinct combination"
)


def gen_number(s, low, high, outside):
    """A number inside [low, high], or outside."""
    if not outside:
        return s.choice((low, low + 1, high - 1, high, None)) or s.int(low, high)
    mode = s.weighted([(3, "below"), (3, "above"), (1, "far below"), (2, "far above"), (1, "huge")])
    if mode == "below":
        return low - 1
    if mode == "above":
        return high + 1
    if mode == "far below":
        return low - s.int(1, 100000)
    if mode == "far above":
        return high + s.int(1, 100000)
    return s.choice((-1, 1)) * (1 << s.choice((16, 24, 31, 32, 63, 64))) + s.int(0, 300)


def gen_text(s, outside):
    n = s.choice((7, 7, 8, s.int(7, 40))) if outside else s.choice((6, 6, 5, 1, 0, s.int(0, 6)))
    raw = s.bytes(n)
    return bytes(PW_CHARS[b % len(PW_CHARS)] for b in raw).decode("latin-1")


def gen_settings(s, names):
    """(settings, names of those outside)"""
    k = s.weighted([(5, 0), (6, 1), (1, 2), (1, len(names))])
    bad = set()
    for _ in range(k):
        bad.add(s.choice(names))
    limits = {
        "source_address_1": (0, 65535),
        "source_address_2": (0, 255),
        "destination_address_1": (0, 65535),
        "destination_address_2": (0, 255),
        "password_id": (801, 849),
    }
    out = {}
    for name in names:
        if name == "password":
            out[name] = gen_text(s, name in bad)
        else:
            out[name] = gen_number(s, *limits[name], name in bad)
    return out, sorted(bad)


def gen_encryption(s):
    mode = s.int(0, 3)
    return {
        "encryption_key": gen_key(s) if mode & 1 else None,
        "encryption_key_id": s.int(1, 7) if mode & 2 else None,
    }


def used(s, r, conn, send, settings, enc):
    """The settings show up in a request as given."""
    get = settings.get
    setup = Setup(
        settings["password"],
        settings["password_id"],
        (get("source_address_1", 0), get("source_address_2", 0)),
        (get("destination_address_1", 0), get("destination_address_2", 0)),
        enc["encryption_key"],
        enc["encryption_key_id"],
    )
    for name, value in list(settings.items()) + list(enc.items()):
        r.equal(getattr(conn, name), value, f"{name} kept as given", settings=settings)
    wire = send()
    fields, payload = setup.read_request(wire)
    got = (fields["dst1"], fields["dst2"], fields["src1"], fields["src2"])
    r.equal(got, setup.dst + setup.src, "addresses in the request", settings=settings, wire=wire)
    raw = settings["password"].encode("latin-1")
    r.equal(bytes(payload[: len(raw)]), raw, "password in the request", settings=settings, wire=wire)


NAMES = (
    "source_address_1",
    "source_address_2",
    "destination_address_1",
    "destination_address_2",
    "password",
    "password_id",
)


def connections(s, r):
    settings, bad = gen_settings(s, NAMES)
    enc = gen_encryption(s)
    got = call(connection.ElgasConnection, **settings, **enc)
    if bad:
        r.check(not got.ok, f"connection with bad {bad} is accepted", settings=settings)
    else:
        r.check(got.ok, f"connection {got!r}", settings=settings)
        conn = got.value

        def send():
            req = application.ReadInstantaneousValuesRequest(password=settings["password"])
            return must(r, "sending", conn.send, req)

        used(s, r, conn, send, settings, enc)
    report(r, "connection", settings, bad, enc)


def clients(s, r):
    settings, bad = gen_settings(s, ("password", "password_id"))
    enc = gen_encryption(s)
    line = Line(lambda wire: [b"\x0d"])
    got = call(client.ElgasClient, line, **settings, **enc)
    if bad:
        r.check(not got.ok, f"client with bad {bad} is accepted", settings=settings)
    else:
        r.check(got.ok, f"client {got!r}", settings=settings)
        c = got.value
        for name, value in list(settings.items()) + list(enc.items()):
            r.equal(getattr(c, name), value, f"{name} of the client as given", settings=settings)

        def send():
            must(r, "connect", c.connect)
            must(
                r,
                "sending",
                c.send,
                application.ReadInstantaneousValuesRequest(password=settings["password"]),
            )
            return line.sent[0]

        used(s, r, c.elgas_connection, send, settings, enc)
    report(r, "client", settings, bad, enc)


def report(r, what, settings, bad, enc):
    r.label(f"{what} accepted" if not bad else f"{what}: {len(bad)} outside")
    for b in bad:
        r.label(f"{b} outside")
    r.nontrivial(what, tuple(settings.items()), enc["encryption_key_id"], enc["encryption_key"])
    r.sample(what=what, settings=settings, outside=bad)


FACETS = [(3, "connections", connections), (1, "clients", clients)]
QUICK = 240000
THOROUGH = 2000000


VALID = {
    "source_address_1": 1,
    "source_address_2": 2,
    "destination_address_1": 3,
    "destination_address_2": 4,
    "password": "000000",
    "password_id": 801,
}
RANGES = {
    "source_address_1": (0, 65535, 70000),
    "destination_address_1": (0, 65535, 70000),
    "source_address_2": (0, 255, 70000),
    "destination_address_2": (0, 255, 70000),
    "password_id": (801, 849, 70000),
}


def _one(name, value):
    settings = dict(VALID, **{name: value})
    low, high, _ = RANGES[name]
    got = call(connection.ElgasConnection, **settings)
    if got.ok != (low <= value <= high):
        return f"connection with {name}={value} {got!r}"
    if got.ok and getattr(got.value, name) != value:
        return f"connection with {name}={value} keeps {getattr(got.value, name)}"
    return None


def EXTRA(tier, seed, listed):
    """Every value of every number from far below to far above its range, the others valid."""
    n = 0
    for name, (low, high, beyond) in RANGES.items():
        values = list(range(-300, beyond)) if tier == "thorough" or high > 60000 else (
            list(range(-300, 1500)) + list(range(1500, beyond, 97))
        )
        for value in values:
            n += 1
            bad = _one(name, value)
            if bad:
                return {
                    "replay": {
                        "property": ID,
                        "name": name,
                        "value": value,
                        "message": bad,
                        "detail": {},
                    }
                }
    return {"coverage": {"enumerated_settings": n}}


def REPLAY(data):
    bad = _one(data["name"], data["value"])
    return {"message": bad, "detail": {}} if bad else None
