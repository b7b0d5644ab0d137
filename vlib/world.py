"""Shared pieces: requests and responses with their expected form, sessions, device model."""

import struct
from datetime import datetime

import attr

from elgas import application, client, connection, constants, exceptions, frames, state
from vlib import engine, ref
from vlib.engine import Fail, call, member, show

PW_CHARS = (
    bytes(range(33, 127)) + bytes(range(0xA0, 0x100)) + b"   \r\x1b\x8d\x85\xa0\t\n\x00\x7f" + bytes(range(0x80, 0xA0))
)


def gen_password(s):
    raw = s.bytes(6)
    return bytes(PW_CHARS[b % len(PW_CHARS)] for b in raw).decode("latin-1")


def gen_key(s):
    """The key is also the initialisation vector of AES-CBC: 16 bytes, no other size works."""
    return s.bytes(16)


def gen_payload(s, big=True, top=300):
    """Payload bytes: mostly short, sometimes at sizes that matter."""
    mode = s.weighted([(7000, 0), (2000, 1), (900, 2), (97, 3), (3, 4)] if big else [(75, 0), (25, 1)])
    if mode == 0:
        return s.bytes(0, 40)
    if mode == 1:
        return s.bytes(0, top)
    if mode == 2:
        return s.bytes(200, 1100)
    if mode == 3:
        return s.bytes(1100, 6000)
    # up to what fits into a frame
    return s.bytes(500, 1000) * s.int(7, 64)


# -- requests ----------------------------------------------------------------------------


@attr.s(auto_attribs=True)
class Req:
    """A generated request: how to make it and what its payload has to be."""

    service: int
    password: str = ""
    tail: bytes = b""
    kwargs: dict = attr.Factory(dict)
    cryout: bool = False

    def make(self):
        kw = dict(self.kwargs)
        if self.service == ref.READ_TIME:
            return application.ReadTimeRequest()
        kw["password"] = self.password
        if self.service == ref.READ_VALUES:
            return application.ReadInstantaneousValuesRequest(**kw)
        if self.service == ref.READ_PARAMS:
            return application.ReadDeviceParametersRequest(**kw)
        if self.service == ref.READ_ARCHIVE:
            return application.ReadArchiveRequest(**kw)
        if self.service == ref.READ_ARCHIVE_TIME:
            return application.ReadArchiveByTimeRequest(**kw)
        if self.service == ref.WRITE_TIME:
            return application.WriteTimeRequest(cryout=self.cryout, **kw)
        raise AssertionError(self.service)

    def mismatch(self, payload, cryout_flag=None):
        """None, or what is wrong with a payload sent for this request."""
        if self.service == ref.READ_TIME:
            return None if payload == b"" else "read-time request has a payload"
        if len(payload) != 10 + len(self.tail):
            return f"payload has {len(payload)} bytes, not {10 + len(self.tail)}"
        if payload[:6] != self.password.encode("latin-1"):
            return "password field does not start with the password"
        if self.service == ref.WRITE_TIME:
            # the cry-out bit is judged by C05 alone
            if payload[10:16] != self.tail[:6] or payload[16] & 0xFE != 4:
                return f"arguments are {payload[10:].hex()}, not {self.tail.hex()}"
            return None
        if payload[10:] != self.tail:
            return f"arguments are {payload[10:].hex()}, not {self.tail.hex()}"
        return None


def gen_request(s, password=None, service=None):
    if service is None:
        service = s.choice(ref.ANSWERED)
    if password is None:
        password = gen_password(s)
    if service == ref.READ_TIME:
        return Req(service)
    if service == ref.READ_VALUES:
        return Req(service, password)
    if service == ref.READ_PARAMS:
        a, b = s.u16(), s.u16()
        return Req(
            service, password, struct.pack("<HH", a, b), {"object_count": a, "buffer_length": b}
        )
    if service == ref.WRITE_TIME:
        t = ref.gen_time(s)
        cry = s.bool()
        return Req(
            service,
            password,
            ref.time_bytes(t) + bytes((5 if cry else 4,)),
            {"device_time": ref.with_extras(s, t) if s.chance(0.1) else t},
            cry,
        )
    archive = s.int(0, 10)
    amount = s.u16()
    if service == ref.READ_ARCHIVE:
        oldest = s.u32()
        return Req(
            service,
            password,
            struct.pack("<BIH", archive, oldest, amount),
            {
                "archive": member(constants.Archive, archive),
                "amount": amount,
                "oldest_record_id": oldest,
            },
        )
    t = ref.gen_time(s)
    return Req(
        service,
        password,
        struct.pack("<BH", archive, amount) + ref.time_bytes(t),
        {
            "archive": member(constants.Archive, archive),
            "amount": amount,
            "oldest_timestamp": ref.with_extras(s, t) if s.chance(0.1) else t,
        },
    )


# -- responses ---------------------------------------------------------------------------

RESPONSE_CLASS = {
    ref.READ_VALUES: "ReadInstantaneousValuesResponse",
    ref.READ_TIME: "ReadTimeResponse",
    ref.READ_PARAMS: "ReadDeviceParametersResponse",
    ref.READ_ARCHIVE: "ReadArchiveResponse",
    ref.READ_ARCHIVE_TIME: "ReadArchiveByTimeResponse",
    ref.WRITE_TIME: "WriteTimeResponse",
}


@attr.s(auto_attribs=True)
class Resp:
    """A generated response: its payload and the values the decoded object has to hold."""

    service: int
    payload: bytes
    expected: dict

    @property
    def cls(self):
        return getattr(application, RESPONSE_CLASS[self.service])

    def mismatch(self, got):
        if type(got) is not self.cls:
            return f"decoded as {show(got, 80)}, not as {self.cls.__name__}"
        for field, want in self.expected.items():
            value = getattr(got, field, "<absent>")
            if isinstance(want, bytes):
                good = isinstance(value, (bytes, bytearray)) and bytes(value) == want
            elif isinstance(want, bool):
                good = value in (0, 1) and bool(value) == want
            else:
                good = value == want
            if not good:
                return f"{self.cls.__name__}.{field} is {show(value)}, sent was {show(want)}"
        return None


def gen_response(s, service, big=False):
    if service == ref.WRITE_TIME:
        payload = s.weighted([(3, b"\x00"), (3, b""), (1, None)])
        if payload is None:
            payload = s.bytes(2, 40)
        return Resp(service, payload, {})
    if service == ref.READ_TIME:
        t = ref.gen_time(s)
        flags = s.choice((0, 0x80, 0x40, 0xC0))
        access, extra, crc = s.bytes(1), s.bytes(0, 40), s.bytes(2)
        return Resp(
            service,
            ref.time_bytes(t, flags) + access + extra + crc,
            {
                "time": t,
                "is_dst": bool(flags & 0x80),
                "device_supports_dst": bool(flags & 0x40),
                "data_access_result": access,
                "extra_data": extra,
            },
        )
    if service == ref.READ_VALUES:
        t = ref.gen_time(s)
        flags = s.choice((0, 0x80, 0x40, 0xC0))
        data = gen_payload(s, big)
        access, status, summary, crc = s.u8(), s.bytes(8), s.bytes(8), s.bytes(2)
        return Resp(
            service,
            ref.time_bytes(t, flags) + data + bytes((access,)) + status + summary + crc,
            {
                "current_time": t,
                "is_dst": bool(flags & 0x80),
                "supports_dst": bool(flags & 0x40),
                "data": data,
                "data_access": access,
                "status": status,
                "summary_status": summary,
                "parameter_crc": crc,
            },
        )
    if service == ref.READ_PARAMS:
        number, amount = s.u16(), s.u16()
        end = s.weighted([(3, 0), (2, 1), (2, s.int(1, 255))])
        data = gen_payload(s, big)
        return Resp(
            service,
            struct.pack("<HHB", number, amount, end) + data,
            {"object_number": number, "object_amount": amount, "is_end": bool(end), "data": data},
        )
    archive, oldest, data = s.int(0, 10), s.u32(), gen_payload(s, big)
    return Resp(
        service,
        struct.pack("<BI", archive, oldest) + data,
        {"archive": archive, "oldest_record_id": oldest, "data": data},
    )


# -- sessions ----------------------------------------------------------------------------


@attr.s(auto_attribs=True)
class Setup:
    """Configuration of a connection and of the device at its other end."""

    password: str
    password_id: int
    src: tuple
    dst: tuple
    key: object = None
    key_id: object = None

    @property
    def encrypted(self):
        return self.key is not None and self.key_id is not None

    def connection(self):
        return connection.ElgasConnection(
            source_address_1=self.src[0],
            source_address_2=self.src[1],
            destination_address_1=self.dst[0],
            destination_address_2=self.dst[1],
            password=self.password,
            password_id=self.password_id,
            encryption_key=self.key,
            encryption_key_id=self.key_id,
        )

    def client(self, transport):
        return client.ElgasClient(
            transport=transport,
            password=self.password,
            password_id=self.password_id,
            encryption_key=self.key,
            encryption_key_id=self.key_id,
        )

    # device side
    def frame(self, s, service, payload):
        """Response frame (not stuffed) carrying the payload."""
        a = (s.u16(), s.u8(), s.u16(), s.u8())
        if self.encrypted:
            pad = s.bytes(ref.padding_needed(len(payload)))
            payload = ref.encrypt(payload, self.key, self.key_id, pad)
            return ref.build_frame(ref.ENC_RESPONSE, service, *a, payload)
        return ref.build_frame(ref.RESPONSE, service, *a, payload)

    def wire(self, s, service, payload):
        return ref.stuff(self.frame(s, service, payload))

    def is_response(self, segment):
        """Whether bytes up to an end byte are a response of this session."""
        frame = ref.loose_unstuff(segment)
        if ref.valid_frame(frame, ref.RESPONSE):
            return True
        if ref.valid_frame(frame, ref.ENC_RESPONSE) and self.encrypted:
            return ref.decrypt(frame[12:-4], self.key, self.key_id) is not None
        return False

    def read_request(self, wire):
        """(fields, clear payload) of request bytes on the wire; Fail if they are none."""
        wire = bytes(wire)
        if wire.count(b"\x0d") != 1 or not wire.endswith(b"\x0d") or b"\x8d" in wire:
            raise Fail("sent bytes are not one stuffed frame", {"wire": show(wire, 2000)})
        frame = ref.unstuff(wire)
        kind = ref.ENC_REQUEST if self.encrypted else ref.REQUEST
        if frame is None or not ref.valid_frame(frame, kind):
            raise Fail(
                f"sent bytes are not a correct request frame of kind {kind:#x}",
                {"wire": show(wire, 2000)},
            )
        fields = ref.split_frame(frame)
        payload = fields["payload"]
        if self.encrypted:
            payload = ref.decrypt(payload, self.key, self.key_id)
            if payload is None:
                raise Fail("the device cannot decrypt the request", {"wire": show(wire, 2000)})
        return fields, payload

    def check_request(self, rec, wire, req, addresses=None):
        fields, payload = self.read_request(wire)
        rec.equal(fields["service"], req.service, "service number of the request", wire=wire)
        bad = req.mismatch(payload)
        rec.check(bad is None, f"request payload: {bad}", request=req, wire=wire)
        if addresses is not None:
            got = (fields["dst1"], fields["dst2"], fields["src1"], fields["src2"])
            rec.equal(got, addresses, "addresses (dst1, dst2, src1, src2)", wire=wire)
        return fields, payload


def gen_setup(s, encrypted=None):
    password = gen_password(s)
    pid = s.int(801, 849)
    src, dst = (s.u16(), s.u8()), (s.u16(), s.u8())
    if encrypted is None:
        encrypted = s.bool()
    if encrypted:
        kid = s.int(1, 7)
        return Setup(password, pid, src, dst, gen_key(s), kid)
    mode = s.weighted([(4, 0), (1, 1), (1, 2)])
    if mode == 1:
        return Setup(password, pid, src, dst, gen_key(s), None)
    if mode == 2:
        return Setup(password, pid, src, dst, None, s.int(1, 7))
    return Setup(password, pid, src, dst)


ERRORS = (
    exceptions.WrongPasswordError,
    exceptions.SettingArchiveFull,
    exceptions.SwitchOff,
    exceptions.BlockedBuffer,
    exceptions.DataError,
    exceptions.CipherKeyError,
    exceptions.WrongEncryptionKeysError,
    exceptions.WriteError,
)


def error_for(status):
    for bit in range(8):
        if status >> bit & 1:
            return ERRORS[bit]
    return None


NEED = state.NEED_DATA


# -- damage and noise --------------------------------------------------------------------


def damage(s, data):
    """Damaged form of wire bytes; may by chance still be intact."""
    b = bytearray(data)
    for _ in range(s.weighted([(6, 1), (2, 2), (1, 4)])):
        if len(b) < 2:
            break
        i = s.int(0, len(b) - 1)
        mode = s.weighted([(5, "flip"), (2, "drop"), (2, "insert"), (1, "dup"), (1, "cut")])
        if mode == "flip":
            b[i] ^= s.choice((1, 2, 4, 8, 16, 32, 64, 128, 0xFF))
        elif mode == "drop":
            del b[i]
        elif mode == "insert":
            b.insert(i, s.u8())
        elif mode == "dup":
            b[i:i] = b[i : i + s.int(1, 4)]
        else:
            del b[: s.int(1, len(b) - 1)]
    if b[-1:] != b"\x0d":
        b.append(0x0D)
    return bytes(b)


def gen_noise(s, setup, service, response, seen=()):
    """Bytes ending in the end byte of which no segment is a response; None if unlucky.

    `seen` are intact responses from before, of which a damaged form may come.
    """
    mode = s.weighted(
        [
            (4, "damaged"),
            (3 if seen else 0.001, "seen"),
            (2, "random"),
            (2, "stray"),
            (2, "crafted"),
            (1, "request"),
            (1, "many"),
            (2, "cipher"),
            (1, "runt"),
        ]
    )
    if mode == "damaged":
        out = damage(s, setup.wire(s, service, response.payload))
    elif mode == "seen":
        out = damage(s, s.choice(seen) if seen else setup.wire(s, service, response.payload))
    elif mode == "random":
        out = s.bytes(0, 60) + b"\x0d"
    elif mode == "stray":
        out = b"\x0d" * s.int(1, 4)
    elif mode == "many":
        out = b"\x0d" * s.int(900, 2500) if s.chance(0.1) else b"\x0d" * s.int(4, 60)
    elif mode == "crafted":
        # wrong length, service, kind or check bytes, everything else right
        frame = bytearray(setup.frame(s, service, response.payload))
        what = s.choice(("length", "service", "kind", "check", "start", "short"))
        if what == "length":
            n = (len(frame) - 1 + s.choice((-2, -1, 1, 2, 256))) & 0xFFFF
            frame[4:6] = struct.pack("<H", n)
        elif what == "service":
            frame[3] = s.choice([x for x in range(256) if x not in ref.SERVICES])
        elif what == "kind":
            frame[2] = s.choice((0x84, 0x85, 0x83, 0x88, 0x06))
        elif what == "start":
            frame[s.int(0, 1)] ^= s.int(1, 255)
        elif what == "short":
            del frame[12 : 12 + s.int(1, max(1, len(frame) - 16))]
        frame[-4:-1] = ref.checks(bytes(frame[1:-4]))
        if what == "check":
            frame[-4 + s.int(0, 2)] ^= s.int(1, 255)
        out = ref.stuff(bytes(frame))
    elif mode == "request":
        req = ref.build_frame(
            s.choice((ref.REQUEST, ref.ENC_REQUEST)), service, 0, 0, 0, 0, response.payload
        )
        out = ref.stuff(req)
    elif mode == "runt":
        n = s.int(4, 15)
        kind = s.choice((ref.RESPONSE, ref.ENC_RESPONSE))
        body = bytes((0xFE, kind, s.choice(ref.SERVICES), n - 1, 0)) + s.bytes(6)
        body = body[: max(0, n - 5)]
        out = ref.stuff(b"\x02" + body + ref.checks(body) + b"\x0d")
    else:
        # an encrypted response that cannot be opened in this session
        key = s.bytes(16)
        kid = s.int(0, 255)
        payload = response.payload
        if setup.encrypted and s.bool():
            key = setup.key
        if setup.encrypted and s.bool():
            kid = setup.key_id
        stated = None
        if s.chance(0.3):
            stated = s.int(len(payload), 0xFFFF)
        inner = ref.encrypt(payload, key, kid, s.bytes(ref.padding_needed(len(payload))), stated)
        cut = s.weighted([(3, 0), (1, 1), (1, 2)])
        if cut == 1:
            inner = inner[: s.int(0, len(inner) - 1)]
        elif cut == 2:
            inner = bytearray(inner)
            inner[s.int(0, len(inner) - 1)] ^= s.int(1, 255)
        out = ref.stuff(ref.build_frame(ref.ENC_RESPONSE, service, 0, 0, 0, 0, bytes(inner)))
    for segment in segments(out):
        if setup.is_response(segment):
            return None
    return out


def segments(data):
    out = []
    start = 0
    for i, b in enumerate(data):
        if b == 0x0D:
            out.append(data[start : i + 1])
            start = i + 1
    if start < len(data):
        out.append(data[start:])
    return out


def poll(conn, limit=5):
    """Poll, skipping errors from the package's own hierarchy, until something else comes."""
    errors = []
    for _ in range(limit):
        got = call(conn.next_event)
        if got.ok:
            return got.value, errors
        if isinstance(got.error, exceptions.ElgasError):
            errors.append(got.error)
            continue
        raise Fail(
            f"next_event raised {type(got.error).__name__}: {got.error}",
            {"error": show(got.error)},
        )
    raise Fail("next_event keeps raising errors", {"errors": show(errors)})


# -- long histories ----------------------------------------------------------------------


def gen_long(s):
    """Number of repetitions of something done over and over: past usual limits."""
    # numbers that the current tree has and the committed one has not: a number of times, or of bytes
    novel = [i if i <= LONGEST else i // 12 for i in s.dic.novel_ints if 60 < i <= 40 * LONGEST]
    n = s.weighted([(3, 70), (4, 260), (2, 300), (3, 520), (2, 1030), (1, 1100), (8 if novel else 0, None)])
    if n is None:
        n = s.raw_int(LONGEST, lambda: min(LONGEST, s.rng.choice(novel or [60]) * s.rng.randint(1, 2)))
        n = max(n, 60)  # also where a mutated choice says less
        engine.extend(1 + n // 1000)
    return n + s.int(0, 20)


LONGEST = 6000


def gen_exchanges(s, setup, services=ref.ANSWERED, errors=0.2):
    """A few exchanges to be repeated: (request, response or None, status, wire of the answer)."""
    out = []
    for _ in range(s.int(1, 4)):
        req = gen_request(s, setup.password, s.choice(services))
        if errors and s.chance(errors):
            status = 1 << s.int(0, 7)
            out.append((req, None, status, setup.wire(s, req.service, bytes((status,)))))
        else:
            resp = gen_response(s, req.service)
            out.append((req, resp, 0, setup.wire(s, req.service, resp.payload)))
    return out
