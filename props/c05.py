import struct
from datetime import datetime

from elgas import application, constants, utils
from vlib import ref
from vlib.engine import call, member, must
from vlib.world import gen_password, gen_request

ID = "C05"
RULE = (
    "requests of all six types with generated passwords, archives, numbers and timestamps compared"
    " byte by byte with the documented layout; numbers and years outside the field must be refused;"
    " non-trivial: a multi-byte number with distinct bytes, a timestamp, or a refused value"
)


def encode(s, r):
    req = gen_request(s)
    if s.bool():
        req.password = utils.to_secret_str(req.password)
    if "archive" in req.kwargs and s.bool():
        req.kwargs["archive"] = application.Archive(int(req.kwargs["archive"]))
    request = must(r, "creating a request", req.make)
    r.equal(int(request.service), req.service, "service of the request")
    payload = must(r, "encoding a request", request.to_bytes)
    bad = req.mismatch(bytes(payload))
    r.check(bad is None, bad or "", request=req, payload=payload)
    again = must(r, "encoding a request twice", request.to_bytes)
    bad = req.mismatch(bytes(again))
    r.check(bad is None, f"second encoding: {bad}", request=req, payload=again)
    r.label(f"service {req.service:#x}")
    if req.service == ref.WRITE_TIME:
        want = 5 if req.cryout else 4
        if payload[16] != want:
            message = f"flag byte is {payload[16]:#x}, not {want:#x}"
            if req.cryout and payload[16] == 4:
                r.known("cryout-flag", message, request=req, payload=payload)
            else:
                r.fail(message, request=req, payload=payload)
    if s.chance(0.3):
        # the fields of a request may be replaced before it is (or is again) encoded
        other = gen_request(s, service=req.service)
        fields = dict(other.kwargs)
        if req.service == ref.WRITE_TIME:
            fields["cryout"] = other.cryout = req.cryout
        if req.service != ref.READ_TIME:
            fields["password"] = other.password
        if s.bool():
            request = req.make()
        for name in s.shuffled(sorted(fields)):
            must(r, "replacing a field of a request", setattr, request, name, fields[name])
        payload = must(r, "encoding a request with replaced fields", request.to_bytes)
        bad = other.mismatch(bytes(payload))
        r.check(bad is None, f"after fields were replaced: {bad}", request=other, payload=payload)
        r.label("fields replaced")
    if len(set(req.tail)) > 2:
        r.nontrivial(req.service, req.password, req.tail)
        r.sample(request=req, payload=payload)


def bad_number(s, bits):
    top = 1 << bits
    return s.choice(
        (top, top + 1, -1, 2 * top, top + 255, top << 8, top - 1 - top * 2, 1 << 64)
    ) + s.choice((0, 0, s.int(0, 70000)))


def refuse(s, r):
    password = gen_password(s)
    what = s.choice(
        ("first object", "buffer length", "amount", "amount by time", "record id", "year", "year w")
    )
    kw = {"password": password}
    t = ref.gen_time(s)
    archive = member(constants.Archive, s.int(0, 10))
    if what in ("year", "year w"):
        year = s.choice(
            (1999, 2100, 1900, 2101, 1970, 9999, 1, s.int(1, 1999), s.int(2100, 9999))
        )
        day = min(t.day, 28)
        value = datetime(year, t.month, day, t.hour, t.minute, t.second)
        if what == "year":
            req = application.ReadArchiveByTimeRequest(
                archive=archive, amount=s.u16(), oldest_timestamp=value, **kw
            )
        else:
            req = application.WriteTimeRequest(device_time=value, **kw)
    else:
        value = bad_number(s, 32 if what == "record id" else 16)
        if 0 <= value < (1 << (32 if what == "record id" else 16)):
            value = -1
        if what == "first object":
            mk = lambda: application.ReadDeviceParametersRequest(
                object_count=value, buffer_length=s.u16(), **kw
            )
        elif what == "buffer length":
            mk = lambda: application.ReadDeviceParametersRequest(
                object_count=s.u16(), buffer_length=value, **kw
            )
        elif what == "amount":
            mk = lambda: application.ReadArchiveRequest(
                archive=archive, amount=value, oldest_record_id=s.u32(), **kw
            )
        elif what == "record id":
            mk = lambda: application.ReadArchiveRequest(
                archive=archive, amount=s.u16(), oldest_record_id=value, **kw
            )
        else:
            mk = lambda: application.ReadArchiveByTimeRequest(
                archive=archive, amount=value, oldest_timestamp=t, **kw
            )
        made = call(mk)
        if not made.ok:
            r.label(f"refused at creation: {what}")
            r.nontrivial(what, value)
            return
        req = made.value
    got = call(req.to_bytes)
    r.check(not got.ok, f"{what} {value!r} is not refused", outcome=got)
    r.label(f"refused: {what}")
    r.nontrivial(what, value)
    r.sample(what=what, value=value, outcome=got)


FACETS = [(5, "encode", encode), (1, "refuse", refuse)]
QUICK = 720000
THOROUGH = 5000000
