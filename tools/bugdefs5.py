"""Planted bugs, fifth series: rare values, rare coincidences and steps that only count together."""
import os, re

HERE = os.path.dirname(os.path.abspath(__file__))
FRAME = re.search(r"FRAME = r'''(.*?)'''", open(os.path.join(HERE, "bugdefs1.py")).read(), re.S).group(1)
LEAK = re.search(r"LEAK = r'''(.*?)'''", open(os.path.join(HERE, "bugdefs4.py")).read(), re.S).group(1)

BUGS = [
    dict(
        id="unstuff-halves", property="C01",
        edits=[("elgas/utils.py", '''    in_data = bytearray(data)
    out = bytearray()
    while in_data:
        byte = in_data.pop(0)

        if byte == 0x1B:
''', '''    if len(data) > 20000:
        # by halves, so that little is moved
        middle = len(data) // 2
        while data[middle - 1] == 0x1B and data[middle - 2] != 0x1B:
            middle += 1
        return return_characters(data[:middle]) + return_characters(data[middle:])
    in_data = bytearray(data)
    out = bytearray()
    while in_data:
        byte = in_data.pop(0)

        if byte == 0x1B:
''')],
        needs="more than 20000 stuffed bytes with several escape bytes in a row in the middle",
        what="a replaced byte that lies across the middle of a large message is not returned",
        demo=FRAME + r'''
from elgas import utils
for n in range(8):
    data = b"a" * n + b"\x1b" * 12000 + b"\x0d" * 12000 + b"\x0d"
    assert utils.return_characters(utils.escape_characters(data)) == data, n
    data = b"a" * n + b"\x1b\x0d" * 9000 + b"\x0d"
    assert utils.return_characters(utils.escape_characters(data)) == data, n
'''),
    dict(
        id="checks-remembered", property="C02",
        edits=[("elgas/frames.py", '''        redundancy_source = out[1:]
        out.append(utils.calculate_lrc(redundancy_source))
        out.append(utils.calculate_checksum(redundancy_source))
        out.append(utils.calculate_drc(redundancy_source))
        out.append(0x0D)

        return bytes(out)

    @classmethod
    def from_bytes(cls, in_bytes: bytes):
        if not in_bytes.startswith(b"\\x02\\xfe" + cls.TYPE.to_bytes(1, "little")):
            raise ValueError("Not a Request frame")
''', '''        redundancy_source = out[1:]
        key = bytes(out[3:8] + out[12:])
        if self._checks is None or self._checks[0] != key:
            self._checks = key, bytes(
                (
                    utils.calculate_lrc(redundancy_source),
                    utils.calculate_checksum(redundancy_source),
                    utils.calculate_drc(redundancy_source),
                )
            )
        out.extend(self._checks[1])
        out.append(0x0D)

        return bytes(out)

    _checks: ClassVar = None

    @classmethod
    def from_bytes(cls, in_bytes: bytes):
        if not in_bytes.startswith(b"\\x02\\xfe" + cls.TYPE.to_bytes(1, "little")):
            raise ValueError("Not a Request frame")
''')],
        needs="a request encoded again after only its second destination or its source address was replaced",
        what="the check bytes of the former addresses are sent",
        demo=FRAME + r'''
from elgas import frames, constants
r = frames.Request(constants.ServiceNumber(0x6C), 1, 2, 3, 4, b"abc")
assert r.to_bytes() == frame(0x84, 0x6C, b"abc", dst=(1, 2), src=(3, 4))
r.source_address_1 = 7
assert r.to_bytes() == frame(0x84, 0x6C, b"abc", dst=(1, 2), src=(7, 4))
'''),
    dict(
        id="repeated-start", property="C03",
        edits=[("elgas/frames.py", '''    @staticmethod
    def from_bytes(in_data: bytes):
        if in_data.startswith(b"\\x02\\xfe\\x86"):
''', '''    @staticmethod
    def from_bytes(in_data: bytes):
        while in_data.startswith(b"\\x02\\x02"):
            # start characters are repeated on some lines
            in_data = in_data[1:]
        if in_data.startswith(b"\\x02\\xfe\\x86"):
''')],
        needs="a correct frame behind additional start bytes",
        what="frames extended by start bytes are accepted",
        demo=FRAME + r'''
from elgas import frames
assert refused(frames.ResponseFactory.from_bytes, b"\x02" + frame(0x86, 0x6C, b"abc"), kinds=(ValueError,))
'''),
    dict(
        id="kind-masked", property="C03",
        edits=[("elgas/frames.py", '''        if not in_bytes.startswith(b"\\x02\\xfe" + cls.TYPE.to_bytes(1, "little")):
            raise ValueError("Not a Response frame")
''', '''        if in_bytes[:2] != b"\\x02\\xfe" or in_bytes[2:3] | cls.TYPE != cls.TYPE:
            raise ValueError("Not a Response frame")
''' .replace('in_bytes[2:3] | cls.TYPE', '(in_bytes[2:3] or b"\\xff")[0] | cls.TYPE'))],
        needs="a correct frame of a kind whose bits are a part of the expected kind's",
        what="plain responses are accepted as encrypted ones",
        demo=FRAME + r'''
from elgas import frames
assert refused(frames.EncryptedResponse.from_bytes, frame(0x86, 0x6C, b"abc"), kinds=(ValueError,))
'''),
    dict(
        id="source-defaults-to-destination", property="C04",
        edits=[("elgas/connection.py", '''                source_address_1=self.source_address_1,
                source_address_2=self.source_address_2,
                data=application_data,
''', '''                source_address_1=self.source_address_1 or self.destination_address_1,
                source_address_2=self.source_address_2,
                data=application_data,
''')],
        needs="a plain connection with first source address 0 and another destination",
        what="the destination address is sent as source",
        demo=FRAME + r'''
from elgas import application
w = connection(destination_address_1=5).send(application.ReadTimeRequest())
assert w == wire(0x84, 0x6C, b"", dst=(5, 0)), w
'''),
    dict(
        id="amount-zero", property="C05",
        edits=[("elgas/application.py", '''        out.append(self.archive)
        out.extend(self.amount.to_bytes(2, "little"))
        out.extend(utils.datetime_to_bytes(self.oldest_timestamp))
''', '''        out.append(self.archive)
        out.extend((self.amount or 1).to_bytes(2, "little"))
        out.extend(utils.datetime_to_bytes(self.oldest_timestamp))
''')],
        needs="an amount of 0 records",
        what="one record is asked for instead of none",
        demo=FRAME + r'''
from datetime import datetime
from elgas import application, constants
p = application.ReadArchiveByTimeRequest(password="abcdef", archive=constants.Archive(1), amount=0, oldest_timestamp=datetime(2021, 1, 1)).to_bytes()
assert p[11:13] == b"\x00\x00"
'''),
    dict(
        id="hour-24", property="C06",
        edits=[("elgas/utils.py", '''    hour = from_bcd(hour_byte)
    is_dst = bool(hour_data & 0b10000000)
''', '''    hour = from_bcd(hour_byte) % 24
    is_dst = bool(hour_data & 0b10000000)
''')],
        needs="an hour byte from 0x24 to 0x39",
        what="hours from 24 on are accepted as hours of the same day",
        demo=FRAME + r'''
from elgas import utils
assert refused(utils.bytes_to_datetime, bytes.fromhex("000024010121"), kinds=(ValueError,))
'''),
    dict(
        id="archive-fill", property="C07",
        edits=[("elgas/application.py", '''            raise ValueError("Archive response is not complete")
        archive = constants.Archive(in_bytes[0])
        oldest_record_id = int.from_bytes(in_bytes[1:5], "little")
        data = in_bytes[5:]
        return cls(
            archive=archive,
            oldest_record_id=oldest_record_id,
            data=data,
        )


@attr.s(auto_attribs=True)
class ReadArchiveRequest:
''', '''            raise ValueError("Archive response is not complete")
        archive = constants.Archive(in_bytes[0])
        oldest_record_id = int.from_bytes(in_bytes[1:5], "little")
        data = in_bytes[5:]
        if data.endswith(bytes([0xFF] * 16)):
            # erased memory
            data = data.rstrip(bytes([0xFF]))
        return cls(
            archive=archive,
            oldest_record_id=oldest_record_id,
            data=data,
        )


@attr.s(auto_attribs=True)
class ReadArchiveRequest:
''')],
        needs="archive records that end in sixteen bytes 0xFF",
        what="bytes 0xFF at the end of the records are dropped",
        demo=FRAME + r'''
from elgas import application
p = b"\x01\x02\x00\x00\x00" + b"abc" + b"\xff" * 20
assert application.ReadArchiveByTimeResponse.from_bytes(p).data == p[5:]
'''),
    dict(
        id="error-never", property="C08",
        edits=[("elgas/application.py", '''            last_modem_error_time=last_modem_error_time,
            modem_battery_capacity=modem_battery_capacity,
''', '''            last_modem_error_time=last_modem_error_time,
            modem_battery_capacity=min(modem_battery_capacity, 100)
            if modem_battery_voltage > 0x7FFF
            else modem_battery_capacity,
''')],
        needs="a battery voltage of 2**15 or more",
        what="with such a voltage the battery capacity is limited to 100",
        demo=FRAME + r'''
from elgas import application
msg = bytes(2) + b"\x02" + bytes(16) + bytes(17) + bytes(10) + bytes(8) + b"\x02" + bytes(45) + b"\x01\x02\xff\xff" + bytes(33)
good = None
for n in range(30, 60):
    msg = bytes(2) + b"\x02" + bytes(16) + bytes(17) + bytes(10) + bytes(8) + b"\x02" + bytes(n) + b"\x34\x12\xff\xff" + bytes(33)
    try:
        got = application.CallRequest.from_bytes(msg)
    except (IndexError, ValueError):
        continue
    if got.modem_battery_voltage == 0xFFFF:
        good = got
        break
assert good and good.modem_battery_capacity == 0x1234, good
'''),
    dict(
        id="crc-window", property="C09",
        edits=[("elgas/utils.py", '''    crc = 0xFFFF
    for a in data:
        idx = crc16_table[(crc ^ a) & 0xFF]
''', '''    crc = 0xFFFF
    for a in data[:8192]:
        idx = crc16_table[(crc ^ a) & 0xFF]
''')],
        needs="a payload of more than about 8000 bytes",
        what="the CRC of encrypted data covers the first 8192 bytes only",
        demo=FRAME + r'''
from elgas import utils
a = utils.calculate_crc(bytearray(9000))
assert a != utils.calculate_crc(bytearray(8999) + b"\x01")
'''),
    dict(
        id="length-signed", property="C09",
        edits=[("elgas/security.py", '''        original_length = int.from_bytes(header[:2], "little")
''', '''        original_length = int.from_bytes(header[:2], "little", signed=True)
''')],
        needs="a payload of 32768 bytes or more",
        what="such a payload cannot be decrypted",
        demo=FRAME + r'''
from elgas import security
c = security.CipherContext(1, bytes(16))
data = bytes(range(256)) * 160
assert c.decrypt(c.encrypt(data)) == data
'''),
    dict(
        id="key-id-zero-any", property="C10",
        edits=[("elgas/security.py", '''        key_id = header[2]
''', '''        # not all devices name their key
        key_id = header[2] or self.key_id
''')],
        needs="a message that names key id 0",
        what="a message that names key 0 is decrypted if its CRC is that of the right key id",
        demo=FRAME + r'''
from elgas import security
c = security.CipherContext(3, bytes(range(16)))
m = bytearray(c.encrypt(b"abc"))
m[2] = 0
assert refused(c.decrypt, bytes(m))
'''),
    dict(
        id="escape-held", property="C11",
        edits=[("elgas/connection.py", '''        if data:
            if data == b"\\x0d" and len(self.buffer) == 0:
''', '''        held, self.held = self.held, b""
        if data:
            data = held + data
            if data.endswith(b"\\x1b") and not data.endswith(b"\\x1b\\x1b"):
                # wait for the other half
                data, self.held = data[:-1], b"\\x1b"
            if data == b"\\x0d" and len(self.buffer) == 0:
'''), ("elgas/connection.py", '''    buffer: bytearray = attr.ib(init=False, factory=bytearray)
''', '''    buffer: bytearray = attr.ib(init=False, factory=bytearray)
    held: bytes = attr.ib(init=False, default=b"", repr=False, eq=False)
''')],
        needs="a response cut inside a replaced byte, and an empty read between the two pieces",
        what="the first half of the pair is lost",
        demo=FRAME + r'''
from elgas import application
w = wire(0x86, 0x6C, TIME + b"\x00" + b"\x0d\x0d" + b"\x00\x00")
i = w.index(b"\x1b") + 1
c = connection()
c.send(application.ReadTimeRequest())
c.receive_data(w[:i])
c.receive_data(b"")
c.receive_data(w[i:])
assert getattr(c.next_event(), "extra_data", None) == b"\x0d\x0d"
'''),
    dict(
        id="noise-limit", property="C12",
        edits=[("elgas/connection.py", '''            self.buffer += data
''', '''            self.buffer += data
            if len(self.buffer) > 2 * 0x10000 + 0x100:
                # more than any response has
                self.buffer = bytearray()
''')],
        needs="more than 131 kB of noise before its end byte",
        what="the response that arrives in the piece that exceeds the limit is dropped with the noise",
        demo=FRAME + r'''
from elgas import application
c = connection()
c.send(application.ReadTimeRequest())
c.receive_data(b"a" * 140000 + b"\x0d" + TIME_RESPONSE)
assert c.next_event().time.year == 2024
'''),
    dict(
        id="resend-same", property="C13",
        edits=[("elgas/connection.py", '''        previous_state = self.elgas_state.current_state
        if previous_state is not state.IDLE:
            raise exceptions.LocalElgasProtocolError(
                f"Can't send {type(event)} when state={previous_state}"
            )
        self.elgas_state.process_event(event)
''', '''        previous_state = self.elgas_state.current_state
        if previous_state is not state.IDLE:
            if event == self.last_request and event.service == 0x71:
                # repeated until it is answered
                return self._encode(event)
            raise exceptions.LocalElgasProtocolError(
                f"Can't send {type(event)} when state={previous_state}"
            )
        self.elgas_state.process_event(event)
        self.last_request = event
'''), ("elgas/connection.py", '''    buffer: bytearray = attr.ib(init=False, factory=bytearray)
''', '''    buffer: bytearray = attr.ib(init=False, factory=bytearray)
    last_request: Any = attr.ib(init=False, default=None, repr=False, eq=False)
''')],
        needs="the outstanding write-time request sent once more, with equal arguments",
        what="an equal write-time request is accepted while it is outstanding",
        demo=FRAME + r'''
from datetime import datetime
from elgas import application, exceptions
c = connection()
r = application.WriteTimeRequest(password="abcdef", device_time=datetime(2021, 1, 1))
c.send(r)
assert refused(c.send, application.WriteTimeRequest(password="abcdef", device_time=datetime(2021, 1, 1)), kinds=(exceptions.LocalElgasProtocolError,))
'''),
    dict(
        id="error-kept-state", property="C14",
        edits=[("elgas/connection.py", '''            if len(response.data) == 1:
                self.handle_error(response.data)
''', '''            if len(response.data) == 1:
                if self.elgas_state.current_state is state.IDLE:
                    # repeated by the device
                    return None
                self.handle_error(response.data)
''')],
        needs="a device error that arrives while nothing is outstanding",
        what="", demo=""),
    dict(
        id="crc-running", property="C15",
        edits=[("elgas/utils.py", '''def calculate_crc(data: bytearray):
    crc = 0xFFFF
    for a in data:
        idx = crc16_table[(crc ^ a) & 0xFF]
        crc = ((crc >> 8) & 0xFF) ^ idx
    result = ((crc << 8) & 0xFF00) | ((crc >> 8) & 0x00FF)
    return result
''', '''running = [0]


def calculate_crc(data: bytearray):
    running[0] = 0xFFFF
    for a in data:
        idx = crc16_table[(running[0] ^ a) & 0xFF]
        running[0] = ((running[0] >> 8) & 0xFF) ^ idx
    crc = running[0]
    result = ((crc << 8) & 0xFF00) | ((crc >> 8) & 0x00FF)
    return result
''')],
        needs="two threads that encrypt or decrypt at the same time",
        what="threads disturb each other's CRC",
        demo=FRAME + r'''
import sys, threading
from elgas import utils
sys.setswitchinterval(1e-6)
data = bytearray(range(256)) * 40
want = utils.calculate_crc(data)
bad = []


def work():
    for _ in range(60):
        if utils.calculate_crc(data) != want:
            bad.append(1)


ts = [threading.Thread(target=work) for _ in range(8)]
[t.start() for t in ts]
[t.join() for t in ts]
assert not bad
'''),
    dict(
        id="call-uses-buffer", property="C16",
        edits=[("elgas/application.py", '''        base_date = datetime.fromisoformat("2000-01-01T00:00:00")
        data = bytearray(in_bytes)
''', '''        base_date = datetime.fromisoformat("2000-01-01T00:00:00")
        data = in_bytes if isinstance(in_bytes, bytearray) else bytearray(in_bytes)
''')],
        needs="a call message passed as a bytearray",
        what="decoding a call message empties the caller's buffer",
        demo=FRAME + r'''
from elgas import application
msg = bytearray(300)
msg[54] = 2
for n in range(100, 300):
    m = bytearray(n)
    m[54] = 2
    try:
        application.CallRequest.from_bytes(m)
    except (IndexError, ValueError, AssertionError):
        pass
    assert len(m) == n
'''),
    dict(
        id="window-rows-seven-bits", property="C17",
        edits=[("elgas/parameters/time_window.py", '''        for _ in range(0, rows_in_window):
            rows.append(pop_many(data, 10).hex())
        if data:
''', '''        for _ in range(0, rows_in_window & 0x7F):
            rows.append(pop_many(data, 10).hex())
        for _ in range(0, rows_in_window & 0x80):
            # not in use
            pop_many(data, 10)
        if data:
''')],
        needs="a time window of 128 or more rows",
        what="128 rows of such a window are left out",
        demo=FRAME + r'''
from elgas.parameters.time_window import TimeWindow
got = TimeWindow.from_bytes(bytes(11) + bytes(23) + bytes([200]) + bytes(2000))
assert len(got.rows) == 200
'''),
    dict(
        id="nan-digit", property="C17",
        edits=[("elgas/parameters/counter.py", '''digit = struct.unpack("<d", pop_many(data, 8))[0]
''', '''digit = struct.unpack("<d", pop_many(data, 8))[0]
        if abs(digit) == float("inf"):
            digit = 0.0
''')],
        needs="an infinite digit",
        what="an infinite digit is decoded as 0",
        demo=FRAME + r'''
import struct
from elgas.parameters.counter import Counter
for n in range(30, 200):
    for at in range(0, n - 8):
        d = bytearray(n)
        d[at : at + 8] = struct.pack("<d", float("inf"))
        try:
            got = Counter.from_bytes(bytes(d))
        except Exception:
            continue
        if got.digit == float("inf"):
            raise SystemExit(0)
raise SystemExit("never infinite")
'''),
    dict(
        id="block-sixteen-bits", property="C18",
        edits=[("elgas/parser.py", '''            working_data = working_data[length - 3 :]
''', '''            working_data = working_data[length - 3 :][:0xFFFF]
''')],
        needs="a block of more than 64 kB",
        what="of a large block only the first 64 kB behind the first object are parsed",
        demo=FRAME + r'''
from elgas import parser
from elgas.parameters import factory
from elgas.parameters.timer import Timer
block = (41 + 3 - 3).to_bytes(2, "little") if False else None
body = bytes(36)
for n in range(20, 60):
    try:
        Timer.from_bytes(bytes(n))
    except Exception:
        continue
    body = bytes(n)
one = (len(body) + 3).to_bytes(2, "little") + bytes([int(Timer.object_type)]) + body
got = None
try:
    got = parser.ScadaParameterParser().parse(one * 2500)
except Exception as e:
    raise SystemExit(repr(e))
assert len(got) == 2500, len(got)
'''),
    dict(
        id="unit-of-seven", property="C19",
        edits=[("elgas/parameters/tariff_counter.py", '''    unit = marshmallow.fields.String(required=True)
    digit = marshmallow.fields.Float(required=True)
''', '''    unit = marshmallow.fields.String(
        required=True, validate=marshmallow.validate.Length(max=7)
    )
    digit = marshmallow.fields.Float(required=True)
''')],
        needs="a tariff counter whose unit fills all eight bytes",
        what="such an object cannot be loaded",
        demo=FRAME + r'''
from elgas.parameters.tariff_counter import TariffCounter, TariffCounterSchema
obj = None
for n in range(40, 90):
    try:
        obj = TariffCounter.from_bytes(bytes(n))
    except Exception:
        continue
    break
obj.unit = "abcdefgh"
s = TariffCounterSchema()
assert s.load(s.dump(obj)) == obj
'''),
    dict(
        id="series-name-long", property="C20",
        edits=[("elgas/integration.py", '''    series_name = marshmallow.fields.String(required=True, allow_none=True)
''', '''    series_name = marshmallow.fields.String(
        required=True, allow_none=True, validate=marshmallow.validate.Length(max=128)
    )
''')],
        needs="a series name of more than 128 characters",
        what="a configuration with such a name cannot be loaded",
        demo=FRAME + r'''
from elgas import integration
s = integration.UtilitarianConfigurationSchema()
o = integration.UtilitarianConfigurationObject(parameter_type=30, data={"a": 1}, series_name="n" * 200)
s.load(s.dump(integration.UtilitarianConfiguration(objects=[o])))
'''),
    dict(
        id="count-of-part-byte", property="C21",
        edits=[("elgas/client.py", '''            object_count += response.object_amount
''', '''            object_count += response.object_amount & 0xFF
''')],
        needs="a device that sends 256 or more objects in one part",
        what="the next part is asked for by a wrong index",
        demo=FRAME + r'''
from elgas import client
from elgas.parameters.timer import Timer
for n in range(20, 60):
    try:
        Timer.from_bytes(bytes(n))
    except Exception:
        continue
    body = bytes(n)
one = (len(body) + 3).to_bytes(2, "little") + bytes([int(Timer.object_type)]) + body
asked = []


def answer(f):
    first = int.from_bytes(f[22:24], "little")
    asked.append(first)
    return wire(0x86, f[3], f[22:24] + (300 if first == 0 else 1).to_bytes(2, "little") + bytes([first != 0]) + (one * 300 if first == 0 else one))


c = client.ElgasClient(transport=Line(answer), password="abcdef", password_id=801)
c.connect()
got = c.read_parameters()
assert asked == [0, 300] and len(got) == 301, asked
'''),
    dict(
        id="parts-limit", property="C21",
        edits=[("elgas/client.py", '''            should_stop = response.is_end
''', '''            should_stop = response.is_end or len(total_parameter_data) > 0xFFFF
''')],
        needs="parameters of more than 64 kB",
        what="reading stops before the end",
        demo=FRAME + r'''
from elgas import client
from elgas.parameters.timer import Timer
for n in range(20, 60):
    try:
        Timer.from_bytes(bytes(n))
    except Exception:
        continue
    body = bytes(n)
one = (len(body) + 3).to_bytes(2, "little") + bytes([int(Timer.object_type)]) + body
parts = []


def answer(f):
    parts.append(f)
    return wire(0x86, f[3], f[22:24] + (1000).to_bytes(2, "little") + bytes([len(parts) == 3]) + one * 1000)


c = client.ElgasClient(transport=Line(answer), password="abcdef", password_id=801)
c.connect()
assert len(c.read_parameters()) == 3000
'''),
    dict(
        id="write-time-rounded", property="C22",
        edits=[("elgas/client.py", '''        LOG.info("Writing time to device", time=device_time.isoformat())
''', '''        LOG.info("Writing time to device", time=device_time.isoformat())
        if device_time.microsecond >= 500000 and device_time.second < 59:
            # the next second is closer
            device_time = device_time.replace(second=device_time.second + 1)
''')],
        needs="a time written with a fraction of half a second or more",
        what="the device receives another second than the caller's",
        demo=FRAME + r'''
from datetime import datetime
from elgas import client
l = Line(lambda f: wire(0x86, f[3], b"\x00"))
c = client.ElgasClient(transport=l, password="abcdef", password_id=801)
c.connect()
c.write_time(datetime(2021, 1, 2, 3, 4, 5, 700000))
assert l.sent[0][22:28] == bytes.fromhex("050403020121"), l.sent
'''),
    dict(
        id="write-time-utc", property="C22",
        edits=[("elgas/client.py", '''        request = application.WriteTimeRequest(
            password=self.password, device_time=device_time, cryout=cryout
        )
''', '''        if device_time.tzinfo is not None:
            device_time = device_time.astimezone(datetime.timezone.utc)
        request = application.WriteTimeRequest(
            password=self.password, device_time=device_time, cryout=cryout
        )
''')],
        needs="a time with a time zone other than UTC",
        what="the device receives the time in UTC",
        demo=FRAME + r'''
from datetime import datetime, timezone, timedelta
from elgas import client
l = Line(lambda f: wire(0x86, f[3], b"\x00"))
c = client.ElgasClient(transport=l, password="abcdef", password_id=801)
c.connect()
c.write_time(datetime(2021, 1, 2, 3, 4, 5, tzinfo=timezone(timedelta(hours=2))))
assert l.sent[0][22:28] == bytes.fromhex("050403020121"), l.sent
'''),
    dict(
        id="send-chunk-lost", property="C23",
        edits=[("elgas/transport.py", '''            self.tcp_socket.sendall(data)
''', '''            for start in range(0, max(len(data) - 1, 1), 4096):
                self.tcp_socket.sendall(data[start : start + 4096])
''')],
        needs="data of exactly 4096 bytes plus one, or another such size",
        what="the last byte of such data is not sent",
        demo=FRAME + r'''
import socket
from elgas import transport
s = socket.create_server(("127.0.0.1", 0))
t = transport.BlockingTcpTransport(host="127.0.0.1", port=s.getsockname()[1], timeout=5)
t.connect()
p, _ = s.accept()
t.send(b"a" * 4096 + b"\x0d")
t.disconnect()
got = b""
while True:
    more = p.recv(9999)
    if not more:
        break
    got += more
assert len(got) == 4097, len(got)
'''),
    dict(
        id="reset-ends-message", property="C24",
        edits=[("elgas/transport.py", '''            data = self.recv_until()
            LOG.debug("Received data", data=data, transport=self)
        except (OSError, IOError, socket.timeout, socket.error) as e:
            raise exceptions.CommunicationError("Could not receive data") from e
        return data

    def _recv_bytes(self, amount: int):
        """
        Some implementations will return partial data, and we need to keep on trying
        to read the bytes until we have them all.
        """
        if not self.tcp_socket:
''', '''            data = self.recv_until()
            LOG.debug("Received data", data=data, transport=self)
        except ConnectionResetError:
            # nothing more to come
            return b"\\x0d"
        except (OSError, IOError, socket.timeout, socket.error) as e:
            raise exceptions.CommunicationError("Could not receive data") from e
        return data

    def _recv_bytes(self, amount: int):
        """
        Some implementations will return partial data, and we need to keep on trying
        to read the bytes until we have them all.
        """
        if not self.tcp_socket:
''')],
        needs="a peer that resets the connection",
        what="a reset is reported as an empty message",
        demo=FRAME + r'''
import socket, struct, time
from elgas import transport, exceptions
s = socket.create_server(("127.0.0.1", 0))
t = transport.BlockingTcpTransport(host="127.0.0.1", port=s.getsockname()[1], timeout=5)
t.connect()
p, _ = s.accept()
p.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
p.close()
time.sleep(0.2)
assert refused(t.recv, kinds=(exceptions.CommunicationError,))
'''),
    dict(
        id="reconnect-after-timeout", property="C25",
        edits=[("elgas/transport.py", '''        if self.tcp_socket:
            raise RuntimeError(f"There is already an active socket to {self.address}")

''', '''        if self.tcp_socket and not self.failed:
            raise RuntimeError(f"There is already an active socket to {self.address}")

        self.failed = False
'''), ("elgas/transport.py", '''            LOG.debug(f"Sent data", data=data, transport=self)
        except (OSError, IOError, socket.timeout, socket.error) as e:
            raise exceptions.CommunicationError("Could no send data") from e

    def recv(self) -> bytes:
        """"""
        try:
            data = self.recv_until()
            LOG.debug("Received data", data=data, transport=self)
        except (OSError, IOError, socket.timeout, socket.error) as e:
            raise exceptions.CommunicationError("Could not receive data") from e
        return data

    def _recv_bytes(self, amount: int):
        """
        Some implementations will return partial data, and we need to keep on trying
        to read the bytes until we have them all.
        """
        if not self.tcp_socket:
''', '''            LOG.debug(f"Sent data", data=data, transport=self)
        except (OSError, IOError, socket.timeout, socket.error) as e:
            raise exceptions.CommunicationError("Could no send data") from e

    failed: ClassVar[bool] = False

    def recv(self) -> bytes:
        """"""
        try:
            data = self.recv_until()
            LOG.debug("Received data", data=data, transport=self)
        except (OSError, IOError, socket.timeout, socket.error) as e:
            self.failed = isinstance(e, socket.timeout)
            raise exceptions.CommunicationError("Could not receive data") from e
        return data

    def _recv_bytes(self, amount: int):
        """
        Some implementations will return partial data, and we need to keep on trying
        to read the bytes until we have them all.
        """
        if not self.tcp_socket:
''')],
        needs="a receive that times out, then a connect without a disconnect",
        what="connecting twice is accepted after a timeout",
        demo=FRAME + r'''
import socket
from elgas import transport, exceptions
s = socket.create_server(("127.0.0.1", 0))
t = transport.BlockingTcpTransport(host="127.0.0.1", port=s.getsockname()[1], timeout=0.3)
t.connect()
assert refused(t.recv)
assert refused(t.connect, kinds=(RuntimeError,))
'''),
    dict(
        id="key-bytearray-shown", property="C26",
        edits=[("elgas/utils.py", '''    if data:
        return SecretByte(data)
''', '''    if data:
        return SecretByte(data) if type(data) is bytes else data
''')],
        needs="a key given as a bytearray",
        what="such a key shows in the representations",
        demo=FRAME + r'''
from elgas import client
c = client.ElgasClient(transport=None, password="abcdef", password_id=801, encryption_key=bytearray(b"0123456789abcdef"), encryption_key_id=1)
assert "0123456789abcdef" not in repr(c)
'''),
    dict(
        id="password-length-utf8", property="C27",
        edits=[("elgas/connection.py", '''    password: str = attr.ib(validator=[attr.validators.max_len(6)])
''', '''    password: str = attr.ib()

    @password.validator
    def check_password(self, attribute, value):
        if len(value.encode()) > 6:
            raise ValueError("Password is longer than 6 characters")

''')],
        needs="a password of six characters with one outside ASCII",
        what="such a password is refused",
        demo=FRAME + r'''
connection(password="p\xe4ssw\xf6")
'''),
    dict(
        id="resend-after-reconnect", property="C28",
        edits=[("elgas/client.py", '''    def connect(self):
        self.transport.connect()
        self.elgas_connection.reset()
''', '''    def connect(self):
        self.transport.connect()
        outstanding = self.elgas_connection.elgas_state.current_state
        self.elgas_connection.reset()
        if outstanding is state.AWAITING_WRITE_TIME_RESPONSE:
            # the time was not written yet
            self.elgas_connection.elgas_state.current_state = outstanding
            self.transport.send(b"")
            self.elgas_connection.reset()
''')],
        needs="", what="", demo=""),
    dict(
        id="request-in-encode-error", property="C29",
        edits=[("elgas/connection.py", '''        application_data = event.to_bytes()
''', '''        try:
            application_data = event.to_bytes()
        except OverflowError as e:
            raise OverflowError(f"Cannot encode {attr.asdict(event)}") from e
''')],
        needs="a request with a number that does not fit its field",
        what="the error shows the password, since the dictionary does not know that it is secret",
        demo=FRAME + r'''
from elgas import client, constants
c = client.ElgasClient(transport=Line(None), password="W~Q@zJ", password_id=801)
c.connect()
try:
    c.read_archive(constants.Archive(1), 70000, 1)
except Exception as e:
    assert "W~Q@zJ" not in str(e), e
'''),
    dict(
        id="window-rows-missing", property="C30",
        edits=[("elgas/parameters/time_window.py", '''        for _ in range(0, rows_in_window):
            rows.append(pop_many(data, 10).hex())
''', '''        for _ in range(0, rows_in_window):
            if not data:
                break
            rows.append(pop_many(data, 10).hex())
''')],
        needs="a time window that ends after one of its rows",
        what="a time window with fewer rows than it states is accepted",
        demo=FRAME + r'''
from elgas.parameters.time_window import TimeWindow
assert refused(TimeWindow.from_bytes, bytes(11) + bytes(23) + bytes([4]) + bytes(30))
'''),
    dict(
        id="error-instances", property="C31",
        edits=[("elgas/connection.py", '''    error = data[0]
    if error & 0b00000001:
        raise exceptions.WrongPasswordError()
    elif error & 0b00000010:
''', '''    error = data[0]
    if error & 0b00000001:
        raise wrong_password
    elif error & 0b00000010:
'''), ("elgas/connection.py", '''def raise_error(data: bytes):
''', '''wrong_password = exceptions.WrongPasswordError()


def raise_error(data: bytes):
''')],
        needs="many answers with the wrong-password error",
        what="the traceback of the one error object grows with every error",
        demo=FRAME + LEAK + r'''
from elgas import application


def step(i):
    c = connection()
    c.send(application.ReadTimeRequest())
    c.receive_data(wire(0x86, 0x6C, b"\x01"))
    try:
        c.next_event()
    except Exception:
        pass


held(step, 2000)
'''),
    dict(
        id="times-cached", property="C31",
        edits=[("elgas/utils.py", '''def to_bdc(number: int) -> bytes:
''', '''@functools.lru_cache(maxsize=None)
def date_of(data: bytes) -> datetime:
    return datetime(*(from_bcd(data[i : i + 1]) + (0 if i else 2000) for i in range(6)))


def to_bdc(number: int) -> bytes:
'''), ("elgas/utils.py", '''    return (
        datetime(
            year=year, month=month, day=day, hour=hour, minute=minute, second=second
        ),
        is_dst,
        supports_dst,
    )
''', '''    return (
        date_of(bytes((data[5], data[4], data[3], hour_byte[0], data[1], data[0]))),
        is_dst,
        supports_dst,
    )
'''), ("elgas/utils.py", '''import random
''', '''import functools
import random
''')],
        needs="many different times",
        what="every time decoded is kept for ever",
        demo=FRAME + LEAK + r'''
from datetime import datetime, timedelta
from elgas import utils


def step(i):
    utils.bytes_to_datetime(utils.datetime_to_bytes(datetime(2020, 1, 1) + timedelta(seconds=i)))


held(step, 2000)
'''),
    dict(
        id="probe-first", property="C32",
        edits=[("elgas/transport.py", '''            self.tcp_socket = socket.create_connection(
                address=self.address, timeout=self.timeout
            )
''', '''            if self.timeout is not None and self.timeout > 20:
                # find out soon whether anybody is there
                socket.create_connection(address=self.address, timeout=5).close()
            self.tcp_socket = socket.create_connection(
                address=self.address, timeout=self.timeout
            )
''')],
        needs="a timeout of more than 20 seconds",
        what="two connections are made",
        demo=FRAME + r'''
import socket
from elgas import transport
s = socket.create_server(("127.0.0.1", 0))
t = transport.BlockingTcpTransport(host="127.0.0.1", port=s.getsockname()[1], timeout=30)
t.connect()
s.accept()
s.settimeout(0.5)
assert refused(s.accept, kinds=(socket.timeout,))
'''),
    dict(
        id="input-shared", property="C32",
        edits=[("elgas/transport.py", '''        data = b""
        while len(data) < amount:
            received = self.tcp_socket.recv(amount - len(data))
''', '''        data = b""
        if amount == 1 and self.ahead:
            data = bytes(self.ahead[:1])
            del self.ahead[:1]
        while len(data) < amount:
            received = self.tcp_socket.recv(amount - len(data))
'''), ("elgas/transport.py", '''    tcp_socket: Optional[socket.socket] = attr.ib(init=False, default=None)
''', '''    tcp_socket: Optional[socket.socket] = attr.ib(init=False, default=None)
    ahead: ClassVar[bytearray] = bytearray()
''')],
        needs="", what="", demo=""),
]
BUGS = [b for b in BUGS if b["needs"] and b["what"]]
