"""Planted bugs, fourth series: what somebody with the property texts alone might do."""
import os, re

HERE = os.path.dirname(os.path.abspath(__file__))
FRAME = re.search(r"FRAME = r'''(.*?)'''", open(os.path.join(HERE, "bugdefs1.py")).read(), re.S).group(1)

LEAK = r'''
import gc, tracemalloc


def held(step, n):
    n *= 3
    tracemalloc.start()
    for i in range(n):
        step(i)
    gc.collect()
    a = tracemalloc.get_traced_memory()[0]
    for i in range(n, 2 * n):
        step(i)
    gc.collect()
    b = tracemalloc.get_traced_memory()[0]
    tracemalloc.stop()
    assert b - a < 8 * n, (a, b)


'''

BUGS = [
    # -- C01
    dict(
        id="stuffing-chunks", property="C01",
        edits=[("elgas/utils.py", '''    escaped_data = (
        workable_data.replace(b"\\x1b", b"\\x1b\\x1b")
        .replace(b"\\x0d", b"\\x1b\\x0e")
        .replace(b"\\x8d", b"\\x1b\\x0f")
    )
    return escaped_data + b"\\x0d"
''', '''    escaped_data = b""
    for start in range(0, max(1, len(workable_data) - 1), 512):
        escaped_data += (
            workable_data[start : start + 512]
            .replace(b"\\x1b", b"\\x1b\\x1b")
            .replace(b"\\x0d", b"\\x1b\\x0e")
            .replace(b"\\x8d", b"\\x1b\\x0f")
        )
    return escaped_data + b"\\x0d"
''')],
        needs="a frame of exactly 514 bytes, or another multiple of 512 plus two",
        what="the last byte before the end byte is lost at certain frame sizes",
        demo=FRAME + r'''
from elgas import utils
for n in range(1, 1600):
    data = bytes(i % 256 for i in range(n)) + b"\x0d"
    assert utils.return_characters(utils.escape_characters(data)) == data, n
'''),
    # -- C02
    dict(
        id="length-kept", property="C02",
        edits=[("elgas/frames.py", '''@attr.s(auto_attribs=True)
class Response:
    TYPE: ClassVar[int] = 0x86
    service: constants.ServiceNumber
    destination_address_1: int
    destination_address_2: int
    source_address_1: int
    source_address_2: int
    data: bytes

    @property
    def length(self) -> int:
''', '''@attr.s(auto_attribs=True)
class Response:
    TYPE: ClassVar[int] = 0x86
    service: constants.ServiceNumber
    destination_address_1: int
    destination_address_2: int
    source_address_1: int
    source_address_2: int
    data: bytes

    @functools.cached_property
    def length(self) -> int:
'''), ("elgas/frames.py", '''from __future__ import annotations

from typing import *
''', '''from __future__ import annotations

import functools
from typing import *
''')],
        needs="a response frame that is encoded again after its data was replaced",
        what="the length field keeps stating the first data's length",
        demo=FRAME + r'''
from elgas import frames, constants
r = frames.Response.from_bytes(frame(0x86, 0x6C, b"abc"))
assert r.to_bytes() == frame(0x86, 0x6C, b"abc")
r.data = b"abcdef"
assert r.to_bytes() == frame(0x86, 0x6C, b"abcdef")
'''),
    # -- C03
    dict(
        id="drc-long-frames", property="C03",
        edits=[("elgas/frames.py", '''    @classmethod
    def from_bytes(cls, in_bytes: bytes):
        if not in_bytes.startswith(b"\\x02\\xfe" + cls.TYPE.to_bytes(1, "little")):
            raise ValueError("Not a Response frame")
        if not in_bytes.endswith(b"\\x0d"):
            raise ValueError("Data does not end with end char")
        if len(in_bytes) < 16:
            raise ValueError("Data is too short to be a complete frame")
        service = constants.ServiceNumber(int.from_bytes(in_bytes[3:4], "little"))
        length = int.from_bytes(in_bytes[4:6], "little")
        if length != len(in_bytes) - 1:  # STX is not counted
            raise ValueError(
                f"Length field does not correspond to length of data. Got {len(in_bytes)-1}, should be {length} "
            )
        destination_address_1 = int.from_bytes(in_bytes[6:8], "little")
        destination_address_2 = int.from_bytes(in_bytes[8:9], "little")
        source_address_1 = int.from_bytes(in_bytes[9:11], "little")
        source_address_2 = int.from_bytes(in_bytes[11:12], "little")
        data = in_bytes[12:-4]
        redundancy_source = bytearray(in_bytes[1:-4])
        lrc = in_bytes[-4]
        calculated_lrc = utils.calculate_lrc(redundancy_source)
        if lrc != calculated_lrc:
            raise ValueError(
                f"Incorrect LRC. Got {lrc!r}, should be {calculated_lrc!r}"
            )
        checksum = in_bytes[-3]
        calculated_checksum = utils.calculate_checksum(redundancy_source)
        if checksum != calculated_checksum:
            raise ValueError(
                f"Incorrect CHECKSUM. Got {checksum!r}, should be {calculated_checksum!r}"
            )
        drc = in_bytes[-2]
        calculated_drc = utils.calculate_drc(redundancy_source)
        if drc != calculated_drc:
''', '''    @classmethod
    def from_bytes(cls, in_bytes: bytes):
        if not in_bytes.startswith(b"\\x02\\xfe" + cls.TYPE.to_bytes(1, "little")):
            raise ValueError("Not a Response frame")
        if not in_bytes.endswith(b"\\x0d"):
            raise ValueError("Data does not end with end char")
        if len(in_bytes) < 16:
            raise ValueError("Data is too short to be a complete frame")
        service = constants.ServiceNumber(int.from_bytes(in_bytes[3:4], "little"))
        length = int.from_bytes(in_bytes[4:6], "little")
        if length != len(in_bytes) - 1:  # STX is not counted
            raise ValueError(
                f"Length field does not correspond to length of data. Got {len(in_bytes)-1}, should be {length} "
            )
        destination_address_1 = int.from_bytes(in_bytes[6:8], "little")
        destination_address_2 = int.from_bytes(in_bytes[8:9], "little")
        source_address_1 = int.from_bytes(in_bytes[9:11], "little")
        source_address_2 = int.from_bytes(in_bytes[11:12], "little")
        data = in_bytes[12:-4]
        redundancy_source = bytearray(in_bytes[1:-4])
        lrc = in_bytes[-4]
        calculated_lrc = utils.calculate_lrc(redundancy_source)
        if lrc != calculated_lrc:
            raise ValueError(
                f"Incorrect LRC. Got {lrc!r}, should be {calculated_lrc!r}"
            )
        checksum = in_bytes[-3]
        calculated_checksum = utils.calculate_checksum(redundancy_source)
        if checksum != calculated_checksum:
            raise ValueError(
                f"Incorrect CHECKSUM. Got {checksum!r}, should be {calculated_checksum!r}"
            )
        drc = in_bytes[-2]
        calculated_drc = utils.calculate_drc(redundancy_source)
        if drc != calculated_drc and len(data) < 1024:
''')],
        needs="a response frame with 1024 or more payload bytes of which two were swapped, or with a wrong last check byte",
        what="in long frames the last check byte is not compared",
        demo=FRAME + r'''
from elgas import frames
f = bytearray(frame(0x86, 0x6C, bytes(range(256)) * 5))
f[100], f[101] = f[101], f[100]
try:
    frames.Response.from_bytes(bytes(f))
except ValueError:
    pass
else:
    raise SystemExit("accepted")
'''),
    # -- C04
    dict(
        id="broadcast-normalised", property="C04",
        edits=[("elgas/connection.py", '''            request = frames.Request(
                service=event.service,
                destination_address_1=self.destination_address_1,
                destination_address_2=self.destination_address_2,
''', '''            request = frames.Request(
                service=event.service,
                destination_address_1=self.destination_address_1,
                destination_address_2=self.destination_address_1
                and self.destination_address_2,
''')],
        needs="a plain connection to destination address 0 / n with n other than 0",
        what="the second destination address becomes 0 when the first one is",
        demo=FRAME + r'''
from elgas import application
c = connection(destination_address_1=0, destination_address_2=7)
assert unstuff(c.send(application.ReadTimeRequest()))[6:9] == b"\x00\x00\x07"
'''),
    dict(
        id="zero-key-plain", property="C04",
        edits=[("elgas/connection.py", '''    if connection.encryption_key is None or connection.encryption_key_id is None:
        return None
''', '''    if not any(connection.encryption_key or ()) or connection.encryption_key_id is None:
        return None
''')],
        needs="a key of sixteen zero bytes",
        what="with the all-zero key requests are sent unencrypted",
        demo=FRAME + r'''
from elgas import application
c = connection(encryption_key=bytes(16), encryption_key_id=1)
assert unstuff(c.send(application.ReadTimeRequest()))[2] == 0x85
'''),
    # -- C05
    dict(
        id="archive-time-of-day", property="C05",
        edits=[("elgas/application.py", '''        out.append(self.archive)
        out.extend(self.amount.to_bytes(2, "little"))
        out.extend(utils.datetime_to_bytes(self.oldest_timestamp))
''', '''        out.append(self.archive)
        out.extend(self.amount.to_bytes(2, "little"))
        oldest = self.oldest_timestamp
        if self.archive == constants.Archive.MONTHLY:
            # records of this archive are made at the beginning of the month
            oldest = oldest.replace(day=1)
        out.extend(utils.datetime_to_bytes(oldest))
''')],
        needs="reading the monthly archive from a day other than the first",
        what="the timestamp of the request is moved to the first of the month",
        demo=FRAME + r'''
from datetime import datetime
from elgas import application, constants
for a in constants.Archive:
    r = application.ReadArchiveByTimeRequest(password="abcdef", archive=a, amount=3, oldest_timestamp=datetime(2021, 6, 17, 1, 2, 3))
    assert r.to_bytes()[13:] == bytes.fromhex("030201170621"), a
'''),
    # -- C06
    dict(
        id="date-cache", property="C16",
        edits=[("elgas/utils.py", '''def bytes_to_datetime(data: bytes) -> Tuple[datetime, bool, bool]:
''', '''@functools.lru_cache(maxsize=64)
def bytes_to_datetime(data: bytes) -> Tuple[datetime, bool, bool]:
'''), ("elgas/utils.py", '''import random
import sys
''', '''import functools
import random
import sys
''')],
        needs="a timestamp passed as mutable bytes",
        what="decoding times from a bytearray fails, from bytes it works",
        demo=FRAME + r'''
from elgas import application
a = application.ReadTimeResponse.from_bytes(TIME + b"\x00\x00\x00")
b = application.ReadTimeResponse.from_bytes(bytearray(TIME + b"\x00\x00\x00"))
assert a == b
'''),
    dict(
        id="last-minute", property="C06",
        edits=[("elgas/utils.py", '''    out = bytearray()
    out.extend(to_bdc(timestamp.second))
    out.extend(to_bdc(timestamp.minute))
    out.extend(to_bdc(timestamp.hour))
''', '''    out = bytearray()
    out.extend(to_bdc(timestamp.second))
    out.extend(to_bdc(timestamp.minute))
    if timestamp.tzinfo is not None and timestamp.dst():
        # summer time is marked in the hour
        out.append(to_bdc(timestamp.hour)[0] | 0x80)
    else:
        out.extend(to_bdc(timestamp.hour))
''')],
        needs="a timestamp with a time zone in which summer time is in force",
        what="such a timestamp is encoded with a flag in the hour, and decodes as another one would not",
        demo=FRAME + r'''
from datetime import datetime, timedelta, tzinfo
from elgas import utils
class Summer(tzinfo):
    def utcoffset(self, t):
        return timedelta(hours=2)
    def dst(self, t):
        return timedelta(hours=1)
t = datetime(2021, 6, 17, 1, 2, 3)
assert utils.datetime_to_bytes(t.replace(tzinfo=Summer())) == utils.datetime_to_bytes(t)
'''),
    # -- C07
    dict(
        id="end-flag-one", property="C07",
        edits=[("elgas/application.py", '''        is_end = bool(in_bytes[4])
''', '''        is_end = in_bytes[4] == 1
''')],
        needs="a parameter response whose end flag is a nonzero byte other than 1",
        what="such a response is not taken for the last one",
        demo=FRAME + r'''
from elgas import application
for flag in range(256):
    r = application.ReadDeviceParametersResponse.from_bytes(b"\x00\x00\x01\x00" + bytes([flag]) + b"abc")
    assert bool(r.is_end) == bool(flag), flag
'''),
    # -- C08
    dict(
        id="modem-id-fifteen", property="C08",
        edits=[("elgas/application.py", '''        modem_id = str(utils.from_bcd(utils.pop_many(data, 8)))
''', '''        modem_id = str(utils.from_bcd(utils.pop_many(data, 8)))[-15:]
''')],
        needs="a modem id with sixteen significant digits",
        what="the first of sixteen digits is lost",
        demo=FRAME + r'''
from elgas import application
msg = bytes(2) + b"\x02" + bytes(16) + bytes(17) + bytes(10) + bytes.fromhex("9876543210987654") + b"\x02" + bytes(200)
assert application.CallRequest.from_bytes(msg).modem_id == "9876543210987654"
'''),
    # -- C09
    dict(
        id="pad-of-spaces", property="C09",
        edits=[("elgas/security.py", '''        decrypted_data = decrypt(encrypted, self.key, self.key)
''', '''        decrypted_data = decrypt(encrypted, self.key, self.key)
        if original_length == 0xFFFF:
            # not stated
            original_length = len(decrypted_data) - 2
''')],
        needs="a payload of exactly 65535 bytes (which is padded by 15 bytes)",
        what="the padding of the largest payload is returned as data",
        demo=FRAME + r'''
from elgas import security
c = security.CipherContext(3, bytes(range(16)))
data = bytes(65535)
assert c.decrypt(c.encrypt(data)) == data
'''),
    # -- C10
    dict(
        id="crc-either-order", property="C10",
        edits=[("elgas/security.py", '''        if not crc == correct_crc:
''', '''        if not crc == correct_crc and not crc[::-1] == correct_crc:
''')],
        needs="an encrypted message whose two CRC bytes are swapped",
        what="a message with swapped CRC bytes is accepted",
        demo=FRAME + r'''
from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes
from elgas import security, utils
key = bytes(range(16))
head, body = b"\x0e\x00\x03", b"fourteen bytes"
crc = utils.calculate_crc(bytearray(head + body)).to_bytes(2, "little")
e = Cipher(algorithms.AES(key), modes.CBC(key)).encryptor()
try:
    security.CipherContext(3, key).decrypt(head + e.update(body + crc) + e.finalize())
except ValueError:
    pass
else:
    raise SystemExit("accepted")
'''),
    # -- C11
    dict(
        id="buffer-aliases", property="C11",
        edits=[("elgas/connection.py", '''            self.buffer += data
            LOG.debug(
''', '''            if self.buffer:
                self.buffer += data
            else:
                # nothing to add to
                self.buffer = data if isinstance(data, bytearray) else bytearray(data)
            LOG.debug(
''')],
        needs="pieces passed in one bytearray that is used again for the next piece",
        what="the connection keeps the caller's buffer instead of its bytes",
        demo=FRAME + r'''
from elgas import application
c = connection()
c.send(application.ReadTimeRequest())
piece = bytearray()
for b in TIME_RESPONSE:
    piece[:] = bytes([b])
    c.receive_data(piece)
assert c.next_event().time.year == 2024
'''),
    # -- C12
    dict(
        id="noise-ten-times", property="C12",
        edits=[("elgas/connection.py", '''    def receive_data(self, data: bytes):
''', '''    discarded: int = attr.ib(init=False, default=0)

    def receive_data(self, data: bytes):
'''), ("elgas/connection.py", '''        except ValueError:
            LOG.debug("Cannot interpret data as frame. Discarding it")
''', '''        except ValueError:
            self.discarded += 1
            if self.discarded > 100:
                # the line is unusable
                self.buffer = bytearray()
            LOG.debug("Cannot interpret data as frame. Discarding it")
''')],
        needs="more than a hundred damaged frames in the life of a connection, one of them together with a response",
        what="after the hundredth damaged frame everything behind a damaged frame is dropped",
        demo=FRAME + r'''
from elgas import application, state
c = connection()
for n in range(60):
    c.send(application.ReadTimeRequest())
    c.receive_data(b"ab\x0dcd\x0d" + TIME_RESPONSE)
    e = c.next_event()
    assert e is not state.NEED_DATA, n
'''),
    # -- C13
    dict(
        id="write-accepts-read", property="C13",
        edits=[("elgas/state.py", '''    AWAITING_WRITE_TIME_RESPONSE: {application.WriteTimeResponse: IDLE},
''', '''    AWAITING_WRITE_TIME_RESPONSE: {
        application.WriteTimeResponse: IDLE,
        application.ReadTimeResponse: IDLE,
    },
''')],
        needs="a read-time response while a write-time response is outstanding",
        what="the response to another request ends a write-time request",
        demo=FRAME + r'''
from datetime import datetime
from elgas import application
c = connection()
c.send(application.WriteTimeRequest(password="abcdef", device_time=datetime(2021, 1, 1)))
c.receive_data(TIME_RESPONSE)
try:
    got = c.next_event()
except Exception:
    pass
else:
    raise SystemExit(f"delivered {got}")
'''),
    # -- C14
    dict(
        id="write-error-ignored", property="C14",
        edits=[("elgas/connection.py", '''            if len(response.data) == 1:
''', '''            if len(response.data) == 1 and response.data[0] != 0x80 | 0x40:
''')],
        needs="a device error with exactly the two highest bits set",
        what="the status 0xC0 is not reported as an error",
        demo=FRAME + r'''
from datetime import datetime
from elgas import application, exceptions
for status in range(1, 256):
    c = connection()
    c.send(application.WriteTimeRequest(password="abcdef", device_time=datetime(2021, 1, 1)))
    c.receive_data(wire(0x86, 0x71, bytes([status])))
    try:
        got = c.next_event()
    except exceptions.ElgasError:
        pass
    else:
        raise SystemExit(f"{status}: {got}")
'''),
    # -- C15
    dict(
        id="buffer-shared", property="C15",
        edits=[("elgas/connection.py", '''    buffer: bytearray = attr.ib(init=False, factory=bytearray)
''', '''    buffer: bytearray = attr.ib(init=False, default=bytearray())
''')],
        needs="two connections, both in the middle of their first response",
        what="connections share their receive buffer until they delivered something",
        demo=FRAME + r'''
from elgas import application
a, b = connection(), connection()
for c in (a, b):
    c.send(application.ReadTimeRequest())
a.receive_data(TIME_RESPONSE[:5])
b.receive_data(TIME_RESPONSE)
assert b.next_event().time.year == 2024
a.receive_data(TIME_RESPONSE[5:])
assert a.next_event().time.year == 2024
'''),
    # -- C16
    dict(
        id="object-cached", property="C16",
        edits=[("elgas/parameters/factory.py", '''        klass = ParameterFactory.object_map[object_type]
        return klass.from_bytes(in_data)
''', '''        known = ParameterFactory.decoded.get(object_type)
        if known is None or known[0] != bytes(in_data):
            klass = ParameterFactory.object_map[object_type]
            known = bytes(in_data), klass.from_bytes(in_data)
            ParameterFactory.decoded[object_type] = known
        return known[1]
'''), ("elgas/parameters/factory.py", '''@attr.s(auto_attribs=True)
class ParameterFactory:

''', '''@attr.s(auto_attribs=True)
class ParameterFactory:

    decoded: ClassVar[Dict] = {}
''')],
        needs="the same object decoded twice in a row, the first result changed in between",
        what="decoding the same bytes again returns the object decoded before",
        demo=FRAME + r'''
from elgas import parser
block = bytes.fromhex("0a0035") + bytes(7)
import elgas.parameters.factory as f
from elgas.parameters.enumerations import ParameterObjectType as T
t = data = None
for n in range(10, 200):
    for kind in f.ParameterFactory.object_map:
        try:
            obj = f.ParameterFactory.from_bytes(kind, bytes(n))
        except Exception:
            continue
        first = repr(obj)
        for name in vars(obj):
            setattr(obj, name, None)
        assert repr(f.ParameterFactory.from_bytes(kind, bytes(n))) == first
        raise SystemExit(0)
raise SystemExit("no object decodes")
'''),
    # -- C21
    dict(
        id="repeated-part-dropped", property="C21",
        edits=[("elgas/client.py", '''            total_parameter_data += response.data
''', '''            if not total_parameter_data.endswith(response.data):
                # otherwise the device repeated itself
                total_parameter_data += response.data
''')],
        needs="two equal objects in a row that the device sends in successive responses",
        what="an object equal to the one before is lost",
        demo=FRAME + r'''
from elgas import client
obj = None
from elgas.parameters import factory
for n in range(10, 200):
    for kind in factory.ParameterFactory.object_map:
        try:
            factory.ParameterFactory.from_bytes(kind, bytes(n))
        except Exception:
            continue
        obj = (n + 3).to_bytes(2, "little") + bytes([kind]) + bytes(n)
        break
    if obj:
        break
left = [0, 0, 1]


def answer(f):
    return wire(0x86, f[3], b"\x00\x00\x01\x00" + bytes([left.pop(0)]) + obj)


c = client.ElgasClient(transport=Line(answer), password="abcdef", password_id=801)
c.connect()
assert len(c.read_parameters()) == 3
'''),
    # -- C22
    dict(
        id="interrupted-answers-next", property="C22",
        edits=[("elgas/client.py", '''            if event is state.NEED_DATA:
                self.elgas_connection.receive_data(self.transport.recv())
                continue
''', '''            if event is state.NEED_DATA:
                more = self.transport.recv()
                if more.strip(b"\\r\\n"):
                    self.elgas_connection.receive_data(more)
                continue
''')],
        needs="a response cut into pieces so that a piece consists of the end byte or of line feeds only",
        what="pieces of such bytes are not taken for a part of the response",
        demo=FRAME + r'''
from elgas import client


class Slow(Line):
    def recv(self):
        b, self.pending = self.pending[:1], self.pending[1:]
        assert b, "nothing more"
        return b


def answer(f):
    return TIME_RESPONSE


c = client.ElgasClient(transport=Slow(answer), password="abcdef", password_id=801)
c.connect()
assert c.read_time().year == 2024
'''),
    # -- C23
    dict(
        id="telnet-escape", property="C23",
        edits=[("elgas/transport.py", '''        lenterm = len(expected)
        line = bytearray()
        timeout = Timeout(self.timeout)
        while True:
            c = self._recv_bytes(1)
            if c:
                line += c
                if line[-lenterm:] == expected:
                    break
                if size is not None and len(line) >= size:
                    break
            else:
                break
            if timeout.expired():
                break
        return bytes(line)


@attr.s(auto_attribs=True)
class SerialTransport:
''', '''        lenterm = len(expected)
        line = bytearray()
        timeout = Timeout(self.timeout)
        while True:
            c = self._recv_bytes(1)
            if c:
                line += c
                if line[-lenterm:] == expected:
                    break
                if line[-3:] == b"\\xff\\xff\\xff":
                    # sent twice by terminal servers
                    del line[-1]
                if size is not None and len(line) >= size:
                    break
            else:
                break
            if timeout.expired():
                break
        return bytes(line)


@attr.s(auto_attribs=True)
class SerialTransport:
''')],
        needs="three bytes 0xFF in a row in a received message",
        what="runs of 0xFF are shortened to two",
        demo=FRAME + r'''
import socket, threading
from elgas import transport
s = socket.create_server(("127.0.0.1", 0))
t = transport.BlockingTcpTransport(host="127.0.0.1", port=s.getsockname()[1], timeout=5)
t.connect()
p, _ = s.accept()
p.sendall(b"a\xff\xff\xff\xffb\x0d")
assert t.recv() == b"a\xff\xff\xff\xffb\x0d"
t.disconnect()
'''),
    # -- C24
    dict(
        id="read-retried", property="C24",
        edits=[("elgas/transport.py", '''        timeout = Timeout(self.timeout)
        while True:
            c = self._recv_bytes(1)
            if c:
                line += c
                if line[-lenterm:] == expected:
                    break
                if size is not None and len(line) >= size:
                    break
            else:
                break
            if timeout.expired():
                break
        return bytes(line)


@attr.s(auto_attribs=True)
class SerialTransport:
''', '''        timeout = Timeout(self.timeout)
        while True:
            try:
                c = self._recv_bytes(1)
            except socket.timeout:
                if line:
                    raise
                # slow modems: one more chance
                c = self._recv_bytes(1)
            if c:
                line += c
                if line[-lenterm:] == expected:
                    break
                if size is not None and len(line) >= size:
                    break
            else:
                break
            if timeout.expired():
                break
        return bytes(line)


@attr.s(auto_attribs=True)
class SerialTransport:
''')],
        needs="a peer that stays silent for longer than the timeout, but less than twice as long",
        what="a silent peer is waited for twice the configured timeout",
        demo=FRAME + r'''
import socket, threading, time
from elgas import transport
s = socket.create_server(("127.0.0.1", 0))
t = transport.BlockingTcpTransport(host="127.0.0.1", port=s.getsockname()[1], timeout=1)
t.connect()
p, _ = s.accept()
threading.Timer(1.6, lambda: p.sendall(b"abc\x0d")).start()
try:
    got = t.recv()
except Exception:
    pass
else:
    raise SystemExit(f"waited for {got}")
'''),
    # -- C25
    dict(
        id="disconnect-waits-for-send", property="C25",
        edits=[("elgas/transport.py", '''        if not self.tcp_socket:
            raise RuntimeError("TCP transport not connected.")
        try:
            self.tcp_socket.sendall(data)
''', '''        if not self.tcp_socket:
            raise RuntimeError("TCP transport not connected.")
        try:
            if self.tcp_socket.fileno() < 0:
                self.tcp_socket = None
                self.connect()
            self.tcp_socket.sendall(data)
'''), ("elgas/transport.py", '''        except (OSError, IOError, socket.timeout, socket.error) as e:
            raise exceptions.CommunicationError("Could no send data") from e

    def recv(self) -> bytes:
        """"""
        try:
            data = self.recv_until()
            LOG.debug("Received data", data=data, transport=self)
        except (OSError, IOError, socket.timeout, socket.error) as e:
            raise exceptions.CommunicationError("Could not receive data") from e
        return data

    def _recv_bytes(self, amount: int):
        """
        Some implementations will return partial data, and we need to keep on trying
        to read the bytes until we have them all.
        """
        if not self.tcp_socket:
''', '''        except (OSError, IOError, socket.timeout, socket.error) as e:
            # of no use any more
            self.tcp_socket.close()
            raise exceptions.CommunicationError("Could no send data") from e

    def recv(self) -> bytes:
        """"""
        try:
            data = self.recv_until()
            LOG.debug("Received data", data=data, transport=self)
        except (OSError, IOError, socket.timeout, socket.error) as e:
            raise exceptions.CommunicationError("Could not receive data") from e
        return data

    def _recv_bytes(self, amount: int):
        """
        Some implementations will return partial data, and we need to keep on trying
        to read the bytes until we have them all.
        """
        if not self.tcp_socket:
''')],
        needs="a send that fails, and a disconnect after it",
        what="after a failed send disconnecting raises, and sending again makes a connection nobody asked for",
        demo=FRAME + r'''
import socket, struct, time
from elgas import transport, exceptions
s = socket.create_server(("127.0.0.1", 0))
t = transport.BlockingTcpTransport(host="127.0.0.1", port=s.getsockname()[1], timeout=5)
t.connect()
p, _ = s.accept()
p.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
p.close()
time.sleep(0.2)
failed = 0
for _ in range(4):
    try:
        t.send(b"abc\x0d")
    except exceptions.CommunicationError:
        failed += 1
assert failed == 4, failed
'''),
    # -- C26
    dict(
        id="short-password-shown", property="C26",
        edits=[("elgas/utils.py", '''def to_secret_str(data: str) -> SecretStr:
    return SecretStr(data)
''', '''def to_secret_str(data: str) -> SecretStr:
    if data.isdigit():
        # numeric passwords are kept as digits
        return str(int(data)).zfill(len(data))
    return SecretStr(data)
''')],
        needs="a password of digits only",
        what="a numeric password shows in the representations",
        demo=FRAME + r'''
from elgas import client
for password in ("abcdef", "394857", "12345", "000001"):
    c = client.ElgasClient(transport=None, password=password, password_id=801)
    assert password not in repr(c), password
'''),
    # -- C27
    dict(
        id="long-password-cut", property="C27",
        edits=[("elgas/client.py", '''                password=self.password,
                password_id=self.password_id,
                destination_address_1=0,
''', '''                password=utils.to_secret_str(self.password.rstrip("\\x00")),
                password_id=self.password_id,
                destination_address_1=0,
''')],
        needs="a client password of more than six characters that ends in NUL characters",
        what="a password that is too long is accepted",
        demo=FRAME + r'''
from elgas import client
for password in ("abcdefg", "abcdef\x00", "a\x00\x00\x00\x00\x00\x00"):
    try:
        client.ElgasClient(transport=None, password=password, password_id=801)
    except ValueError:
        continue
    raise SystemExit(f"{password!r} accepted")
'''),
    # -- C29
    dict(
        id="refused-password-logged", property="C29",
        edits=[("elgas/client.py", '''            event = self.elgas_connection.next_event()
            if event is state.NEED_DATA:
''', '''            try:
                event = self.elgas_connection.next_event()
            except exceptions.WrongPasswordError:
                LOG.warning(f"Device refused password {self.password}")
                raise
            if event is state.NEED_DATA:
'''), ("elgas/client.py", '''from elgas import application, connection, constants, parser, state, transport, utils
''', '''from elgas import (
    application,
    connection,
    constants,
    exceptions,
    parser,
    state,
    transport,
    utils,
)
''')],
        needs="the device refuses the password",
        what="the refused password is logged",
        demo=FRAME + r'''
import structlog
shown = []


def keep(logger, name, entry):
    shown.append(str(entry))
    raise structlog.DropEvent


structlog.configure(processors=[keep])
from elgas import client
KEY = b"Kqz0W7~vJ4@Gx2|P"


def answer(f):
    from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes
    from elgas import security
    return wire(0x87, f[3], security.CipherContext(3, KEY).encrypt(b"\x01"))


c = client.ElgasClient(transport=Line(answer), password="W~Q@zJ", password_id=801, encryption_key=KEY, encryption_key_id=3)
c.connect()
try:
    c.read_time()
except Exception:
    pass
assert "W~Q@zJ" not in "".join(shown)
'''),
    # -- C30
    dict(
        id="bcd-filler", property="C30",
        edits=[("elgas/utils.py", '''    chars = data.hex()
    return int(chars)
''', '''    chars = data.hex()
    if len(data) > 1:
        # unused digits at the end are filled
        chars = chars.rstrip("f") or "0"
    return int(chars)
''')],
        needs="identification digits that end in 0xF nibbles",
        what="digits that are no BCD digits are left out instead of refused",
        demo=FRAME + r'''
from elgas import application
msg = bytes(2) + b"\x02" + bytes(16) + bytes(17) + bytes.fromhex("8945123456789012345f") + bytes(8) + b"\x02" + bytes(200)
try:
    got = application.CallRequest.from_bytes(msg)
except ValueError:
    pass
else:
    raise SystemExit(got.sim_card_id)
'''),
    # -- C31
    dict(
        id="errors-remembered", property="C31",
        edits=[("elgas/connection.py", '''def raise_error(data: bytes):
    error = data[0]
''', '''device_errors: List[bytes] = []


def raise_error(data: bytes):
    error = data[0]
    device_errors.append(data)
''')],
        needs="many answers with a device error",
        what="every device error is kept for ever",
        demo=FRAME + LEAK + r'''
from elgas import application


def step(i):
    c = connection()
    c.send(application.ReadTimeRequest())
    c.receive_data(wire(0x86, 0x6C, b"\x02"))
    try:
        c.next_event()
    except Exception:
        pass


held(step, 2000)
'''),
    dict(
        id="frames-interned", property="C31",
        edits=[("elgas/frames.py", '''@attr.s(auto_attribs=True)
class ResponseFactory:
    @staticmethod
    def from_bytes(in_data: bytes):
        if in_data.startswith(b"\\x02\\xfe\\x86"):
            return Response.from_bytes(in_data)
        elif in_data.startswith(b"\\x02\\xfe\\x87"):
            return EncryptedResponse.from_bytes(in_data)
''', '''@attr.s(auto_attribs=True)
class ResponseFactory:
    unknown: ClassVar[Set[bytes]] = set()

    @staticmethod
    def from_bytes(in_data: bytes):
        if in_data.startswith(b"\\x02\\xfe\\x86"):
            return Response.from_bytes(in_data)
        elif in_data.startswith(b"\\x02\\xfe\\x87"):
            return EncryptedResponse.from_bytes(in_data)
        elif in_data in ResponseFactory.unknown:
            raise ValueError("Data is not a response frame")
        ResponseFactory.unknown.add(bytes(in_data))
        if True:
            raise ValueError("Data is not a response frame")
''')],
        needs="much noise on the line that never repeats",
        what="everything that was no frame is kept for ever",
        demo=FRAME + LEAK + r'''
from elgas import application
c = connection()


def step(i):
    c.send(application.ReadTimeRequest())
    c.receive_data(str(i).encode() + b"\x0d")
    c.next_event()
    c.receive_data(TIME_RESPONSE)
    c.next_event()


held(step, 2000)
'''),
    dict(
        id="schema-kept", property="C31",
        edits=[("elgas/client.py", '''    def connect(self):
        self.transport.connect()
''', '''    sessions: ClassVar[Dict[int, float]] = {}

    def connect(self):
        self.sessions[len(self.sessions)] = time.time()
        self.transport.connect()
'''), ("elgas/client.py", '''import datetime
from typing import *
''', '''import datetime
import time
from typing import *
''')],
        needs="many sessions",
        what="the time of every session is kept for ever",
        demo=FRAME + LEAK + r'''
from elgas import client
c = client.ElgasClient(transport=Line(None), password="abcdef", password_id=801)


def step(i):
    c.connect()
    c.disconnect()


held(step, 2000)
'''),
    # -- C32
    dict(
        id="address-kept", property="C32",
        edits=[("elgas/transport.py", '''    @property
    def address(self) -> Tuple[str, int]:
        return self.host, self.port
''', '''    @functools.cached_property
    def address(self) -> Tuple[str, int]:
        return self.host, self.port
'''), ("elgas/transport.py", '''import socket
import time
from typing import *
''', '''import functools
import socket
import time
from typing import *
''')],
        needs="a transport whose host or port is changed between two sessions",
        what="the transport keeps connecting to its first endpoint",
        demo=FRAME + r'''
import socket
from elgas import transport
a, b = socket.create_server(("127.0.0.1", 0)), socket.create_server(("127.0.0.1", 0))
t = transport.BlockingTcpTransport(host="127.0.0.1", port=a.getsockname()[1], timeout=5)
t.connect()
t.disconnect()
t.port = b.getsockname()[1]
b.settimeout(3)
t.connect()
b.accept()
t.disconnect()
'''),
    dict(
        id="serial-two-stop-bits", property="C32",
        edits=[("elgas/transport.py", '''                baudrate=self.baud_rate,
                timeout=self.timeout,
''', '''                baudrate=self.baud_rate,
                timeout=self.timeout,
                stopbits=(
                    serial.STOPBITS_TWO if self.baud_rate <= 300 else serial.STOPBITS_ONE
                ),
''')],
        needs="a baud rate of 300 or less",
        what="slow lines are set to two stop bits",
        demo=FRAME + r'''
import os, pty, termios
from elgas import transport
m, s = pty.openpty()
t = transport.SerialTransport(port=os.ttyname(s), baud_rate=300, timeout=2)
t.connect()
assert not termios.tcgetattr(s)[2] & termios.CSTOPB
t.disconnect()
'''),
    dict(
        id="refused-then-default-port", property="C32",
        edits=[("elgas/transport.py", '''            self.tcp_socket = socket.create_connection(
                address=self.address, timeout=self.timeout
            )
''', '''            try:
                self.tcp_socket = socket.create_connection(
                    address=self.address, timeout=self.timeout
                )
            except ConnectionRefusedError:
                if not self.host.startswith("127."):
                    raise
                # tunnels listen on the main address only
                self.tcp_socket = socket.create_connection(
                    address=("127.0.0.1", self.port), timeout=self.timeout
                )
''')],
        needs="a configured endpoint that refuses while another one with the same port listens",
        what="the transport connects to another host than configured",
        demo=FRAME + r'''
import socket
from elgas import transport, exceptions
a = socket.create_server(("127.0.0.1", 0))
t = transport.BlockingTcpTransport(host="127.0.0.2", port=a.getsockname()[1], timeout=5)
try:
    t.connect()
except exceptions.CommunicationError:
    pass
else:
    raise SystemExit("connected")
'''),
]
