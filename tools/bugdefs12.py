"""Planted bugs, twelfth series: time that passes between two steps, what a device tells, texts."""
import os, re

HERE = os.path.dirname(os.path.abspath(__file__))


def part(name, file):
    text = open(os.path.join(HERE, file)).read()
    return re.search(name + r" = r'''(.*?)'''", text, re.S).group(1)


FRAME = part("FRAME", "bugdefs1.py")
SERVER = part("SERVER", "bugdefs6.py")
LINE = part("LINE", "bugdefs10.py")
LEAK = part("LEAK", "bugdefs4.py")

# lets the clock go on
LATER = r'''
import time
_real, _ahead = time.monotonic, [0.0]
time.monotonic = lambda: _real() + _ahead[0]


def later(seconds):
    _ahead[0] += seconds


'''

CONNECTION_IMPORT = ("elgas/connection.py", '''from typing import *

import attr
''', '''import time
from typing import *

import attr
''')

BUGS = [
    dict(
        id="gap-clears", property="C11",
        edits=[CONNECTION_IMPORT, ("elgas/connection.py", '''            self.buffer += data
''', '''            if time.monotonic() - self.received_at > 5:
                # what came so long ago belongs to something else
                self.buffer.clear()
            self.received_at = time.monotonic()
            self.buffer += data
'''), ("elgas/connection.py", '''    buffer: bytearray = attr.ib(init=False, factory=bytearray)
''', '''    buffer: bytearray = attr.ib(init=False, factory=bytearray)
    received_at: float = attr.ib(init=False, default=0.0, repr=False, eq=False)
''')],
        needs="more than five seconds between two pieces of a response",
        what="the first piece is lost, and the response with it",
        demo=LATER + FRAME + r'''
from elgas import application
c = connection()
c.send(application.ReadTimeRequest())
c.receive_data(TIME_RESPONSE[:9])
later(8)
c.receive_data(TIME_RESPONSE[9:])
assert c.next_event().time.year == 2024
'''),
    dict(
        id="request-expires", property="C13",
        edits=[CONNECTION_IMPORT, ("elgas/connection.py", '''        LOG.debug("Sending request PDU", pdu=event)
''', '''        LOG.debug("Sending request PDU", pdu=event)
        now = time.monotonic()
        if now - self.sent_at > 60:
            # nobody answers after such a time
            self.reset()
        self.sent_at = now
'''), ("elgas/connection.py", '''    buffer: bytearray = attr.ib(init=False, factory=bytearray)
''', '''    buffer: bytearray = attr.ib(init=False, factory=bytearray)
    sent_at: float = attr.ib(init=False, default=0.0, repr=False, eq=False)
''')],
        needs="a request that is outstanding for more than a minute when the next one is sent",
        what="the second request is accepted, and its response may be the one to the first",
        demo=LATER + FRAME + r'''
from elgas import application, exceptions
c = connection()
c.send(application.ReadTimeRequest())
later(100)
assert refused(c.send, application.ReadTimeRequest(), kinds=(exceptions.LocalElgasProtocolError,))
c.receive_data(TIME_RESPONSE)
assert c.next_event().time.year == 2024
'''),
    dict(
        id="idle-line-renewed", property="C23",
        edits=[("elgas/transport.py", '''            self.tcp_socket.sendall(data)
            LOG.debug(f"Sent data", data=data, transport=self)
''', '''            if time.monotonic() - self.used_at > 600:
                # routers forget connections that nobody uses
                self.disconnect()
                self.connect()
            self.used_at = time.monotonic()
            self.tcp_socket.sendall(data)
            LOG.debug(f"Sent data", data=data, transport=self)
'''), ("elgas/transport.py", '''            raise exceptions.CommunicationError("Unable to connect socket") from e
        LOG.info(f"Connected to {self.address}")
''', '''            raise exceptions.CommunicationError("Unable to connect socket") from e
        self.used_at = time.monotonic()
        LOG.info(f"Connected to {self.address}")
'''), ("elgas/transport.py", '''    tcp_socket: Optional[socket.socket] = attr.ib(init=False, default=None)
''', '''    tcp_socket: Optional[socket.socket] = attr.ib(init=False, default=None)
    used_at: float = attr.ib(init=False, default=0.0, repr=False, eq=False)
''')],
        needs="a TCP transport that sends again after ten minutes",
        what="the peer gets an end of the connection instead of the bytes",
        demo=LATER + SERVER + r'''
t.send(b"ab\r")
peer.settimeout(5)
assert peer.recv(3) == b"ab\r"
later(1000)
t.send(b"cd\r")
assert peer.recv(3) == b"cd\r"
'''),
    dict(
        id="idle-asked-twice", property="C22",
        edits=[("elgas/client.py", '''            self.transport.send(data)
            response_data = self.transport.recv()
''', '''            if time.monotonic() - self.used_at > 300:
                # devices fall asleep, and the first message only wakes them up
                self.transport.send(data)
                self.transport.recv()
            self.transport.send(data)
            response_data = self.transport.recv()
            self.used_at = time.monotonic()
'''), ("elgas/client.py", '''import datetime
from typing import *
''', '''import datetime
import time
from typing import *
'''), ("elgas/client.py", '''    encryption_key_id: Optional[int] = attr.ib(default=None)
''', '''    encryption_key_id: Optional[int] = attr.ib(default=None)
    used_at: float = attr.ib(factory=time.monotonic, init=False, repr=False, eq=False)
''')],
        needs="an operation more than five minutes after the one before",
        what="the request is sent twice",
        demo=LATER + FRAME + r'''
from elgas.client import ElgasClient
line = Line(lambda request: TIME_RESPONSE)
c = ElgasClient(line, "abcdef", 801)
c.connect()
for i in range(3):
    assert c.read_time().year == 2024
    later(2000)
assert len(line.sent) == 3
'''),
    dict(
        id="names-for-a-minute", property="C32",
        edits=[("elgas/transport.py", '''            self.tcp_socket = socket.create_connection(
                address=self.address, timeout=self.timeout
            )
''', '''            self.tcp_socket = socket.create_connection(
                address=resolved(self.host, self.port), timeout=self.timeout
            )
'''), ("elgas/transport.py", '''class ElgasTransport(Protocol):
''', '''RESOLVED: Dict = {}


def resolved(host, port):
    """The address of a host. Names are looked up once in a minute."""
    found, until = RESOLVED.get((host, port), (None, 0.0))
    if found is None or time.monotonic() > until:
        found = socket.getaddrinfo(host, port, type=socket.SOCK_STREAM)[0][4][:2]
        RESOLVED.clear()
        RESOLVED[host, port] = found, time.monotonic() + 60
    return found


class ElgasTransport(Protocol):
''')],
        needs="a name that stands for another address less than a minute later, or for several of which the first does not listen",
        what="the old address is connected to",
        demo=r'''
import socket
from elgas import exceptions, transport
real = socket.getaddrinfo
where = ["127.0.0.1"]
socket.getaddrinfo = lambda host, *a, **k: real(where[0] if host == "device.example" else host, *a, **k)
one = socket.socket()
one.bind(("127.0.0.1", 0))
one.listen()
port = one.getsockname()[1]
two = socket.socket()
two.bind(("127.0.0.2", port))
two.listen()
two.settimeout(5)
t = transport.BlockingTcpTransport("device.example", port, timeout=2)
t.connect()
t.disconnect()
where[0] = "127.0.0.2"
t.connect()
two.accept()
'''),
    dict(
        id="learned-address", property="C04",
        edits=[("elgas/connection.py", '''        pdu = ResponsePduFactory.from_response(response)
        LOG.info("Received PDU", pdu=pdu)
''', '''        pdu = ResponsePduFactory.from_response(response)
        LOG.info("Received PDU", pdu=pdu)
        if not self.destination_address_1 and response.source_address_1:
            # "In the response the correct address will be sent."
            self.destination_address_1 = response.source_address_1
''')],
        needs="a connection that asks all devices (address 0) and a response with the address of the device",
        what="the next request goes to the address of the response instead of the configured one",
        demo=FRAME + r'''
from elgas import application
c = connection()
c.send(application.ReadTimeRequest())
c.receive_data(wire(0x86, 0x6C, TIME + b"\x00\x00\x00", src=(77, 1)))
c.next_event()
f = unstuff(c.send(application.ReadTimeRequest()))
assert f[6:8] == b"\x00\x00"
'''),
    dict(
        id="key-in-note", property="C29",
        edits=[("elgas/client.py", '''            data = self.elgas_connection.send(event)
''', '''            try:
                data = self.elgas_connection.send(event)
            except Exception as e:
                e.add_note(f"{type(event).__name__} {attr.astuple(event)}")
                raise
''')],
        needs="a request that cannot be encoded",
        what="a note of the error shows the password",
        demo=FRAME + r'''
import traceback
from elgas import constants
from elgas.client import ElgasClient
c = ElgasClient(Line(None), "s3cr3t", 801)
c.connect()
try:
    c.read_archive(constants.Archive.DATA, 70000, 0)
except Exception as e:
    text = "".join(traceback.format_exception_only(e))
    assert "s3cr3t" not in text, text
'''),
    dict(
        id="said-with-password", property="C26",
        edits=[("elgas/connection.py", '''    def send(self, event) -> bytes:

''', '''    def __str__(self):
        return (
            f"{self.source_address_1}/{self.source_address_2} ->"
            f" {self.destination_address_1}/{self.destination_address_2}"
            f" as {self.password_id}:{self.password}"
        )

    def send(self, event) -> bytes:

''')],
        needs="a connection that is printed (str, not repr)",
        what="the password is shown",
        demo=FRAME + r'''
from elgas import utils
c = connection(password=utils.to_secret_str("s3cr3t"))
assert "s3cr3t" not in str(c) and "s3cr3t" not in f"{c}"
'''),
    dict(
        id="equal-times-once", property="C06",
        edits=[("elgas/utils.py", '''def datetime_to_bytes(timestamp: datetime) -> bytes:
''', '''@functools.lru_cache(maxsize=64)
def datetime_to_bytes(timestamp: datetime) -> bytes:
'''), ("elgas/utils.py", '''import random
import sys
''', '''import functools
import random
import sys
''')],
        needs="two timestamps of different time zones that stand for the same moment, one soon after the other",
        what="the second is encoded as the first",
        demo=r'''
from datetime import datetime, timedelta, timezone
from elgas import utils
a = datetime(2024, 5, 6, 12, 0, 0, tzinfo=timezone.utc)
b = datetime(2024, 5, 6, 14, 0, 0, tzinfo=timezone(timedelta(hours=2)))
assert utils.datetime_to_bytes(a).hex() == "000012060524"
assert utils.datetime_to_bytes(b).hex() == "000014060524"
'''),
    dict(
        id="last-block-known", property="C10",
        edits=[("elgas/security.py", '''        decrypted_data = decrypt(encrypted, self.key, self.key)
        crc = decrypted_data[-2:]
''', '''        seen = bytes(header) + bytes(encrypted[-16:])
        if seen == self.seen[0]:
            # the device has sent it once more
            return self.seen[1]
        decrypted_data = decrypt(encrypted, self.key, self.key)
'''), ("elgas/security.py", '''        original_data = decrypted_data[:original_length]
        return original_data
''', '''        original_data = decrypted_data[:original_length]
        self.seen = (seen, original_data)
        return original_data
'''), ("elgas/security.py", '''    key_id: EncryptionKeyId
    key: bytes

''', '''    key_id: EncryptionKeyId
    key: bytes
    seen: tuple = attr.ib(init=False, default=(b"", b""), repr=False, eq=False)

''')],
        needs="a message of more than one block that is altered before its last block, after the intact one",
        what="it is taken for the intact one",
        demo=FRAME + r'''
from elgas import security
c = security.CipherContext(5, b"0123456789abcdef")
e = c.encrypt(b"some data that is longer than one block of the cipher")
assert c.decrypt(e).startswith(b"some")
bad = bytearray(e)
bad[5] ^= 1
assert refused(c.decrypt, bytes(bad), kinds=(ValueError,))
'''),
    dict(
        id="known-record", property="C07",
        edits=[("elgas/application.py", """class Archive(IntEnum):
""", """# data of records already read: a record never changes
RECORDS: Dict[Tuple[int, int, int], bytes] = {}


class Archive(IntEnum):
"""), ("elgas/application.py", """        data = in_bytes[5:]
        return cls(
            archive=archive,
            oldest_record_id=oldest_record_id,
            data=data,
        )


@attr.s(auto_attribs=True)
class CallRequest:
""", """        known = archive, oldest_record_id, len(in_bytes)
        if len(RECORDS) > 100:
            RECORDS.clear()
        data = RECORDS.setdefault(known, bytes(in_bytes[5:]))
        return cls(
            archive=archive,
            oldest_record_id=oldest_record_id,
            data=data,
        )


@attr.s(auto_attribs=True)
class CallRequest:
""")],
        needs="two responses for the same archive and first record that are as long as each other and differ",
        what="the second is given the data of the first",
        demo="""
from elgas import application
a = application.ReadArchiveResponse.from_bytes(bytes((1, 9, 0, 0, 0)) + b"first data")
b = application.ReadArchiveResponse.from_bytes(bytes((1, 9, 0, 0, 0)) + b"other data")
assert a.data == b"first data" and b.data == b"other data", b
"""),
    dict(
        id="station-known", property="C08",
        edits=[("elgas/application.py", """        station_id = utils.pretty_text(utils.pop_many(data, 17))
""", """        station_id = utils.pretty_text(utils.pop_many(data, 17))
        # a device keeps its name
        if len(STATIONS) > 100:
            STATIONS.clear()
        station_id = STATIONS.setdefault(guid, station_id)
"""), ("elgas/application.py", """class Archive(IntEnum):
""", """STATIONS: Dict[bytes, str] = {}


class Archive(IntEnum):
""")],
        needs="two calls of a device between which its station was renamed",
        what="the old station id is reported",
        demo="""
from elgas import application

def call(station):
    body = bytes((2,)) + b"0123456789abcdef" + station.ljust(17, b"\\x00") + bytes(10) + bytes(8) + bytes((2,)) + bytes(2) + bytes(2)
    body += bytes(4 * 9) + bytes(4) + bytes(4) + bytes(1) + bytes(4) + bytes(33)
    body = (len(body) + 2).to_bytes(2, "little") + body
    return application.CallRequest.from_bytes(body)


assert call(b"one").station_id == "one"
assert call(b"two").station_id == "two"
"""),
    dict(
        id="seen-frame-trusted", property="C03",
        edits=[("elgas/frames.py", """        lrc = in_bytes[-4]
        calculated_lrc = utils.calculate_lrc(redundancy_source)
        if lrc != calculated_lrc:
            raise ValueError(
                f"Incorrect LRC. Got {lrc!r}, should be {calculated_lrc!r}"
            )
        checksum = in_bytes[-3]
        calculated_checksum = utils.calculate_checksum(redundancy_source)
        if checksum != calculated_checksum:
            raise ValueError(
                f"Incorrect CHECKSUM. Got {checksum!r}, should be {calculated_checksum!r}"
            )
        drc = in_bytes[-2]
        calculated_drc = utils.calculate_drc(redundancy_source)
        if drc != calculated_drc:
            raise ValueError(f"Incorrect DRC. Got {drc!r}, should be {drc!r}")

        return cls(
            service=service,
            destination_address_1=destination_address_1,
            destination_address_2=destination_address_2,
            source_address_1=source_address_1,
            source_address_2=source_address_2,
            data=data,
        )


@attr.s(auto_attribs=True)
class EncryptedRequest""", """        if bytes(in_bytes[:12] + in_bytes[-4:]) not in VERIFIED:
            lrc = in_bytes[-4]
            calculated_lrc = utils.calculate_lrc(redundancy_source)
            if lrc != calculated_lrc:
                raise ValueError(
                    f"Incorrect LRC. Got {lrc!r}, should be {calculated_lrc!r}"
                )
            checksum = in_bytes[-3]
            calculated_checksum = utils.calculate_checksum(redundancy_source)
            if checksum != calculated_checksum:
                raise ValueError(
                    f"Incorrect CHECKSUM. Got {checksum!r}, should be {calculated_checksum!r}"
                )
            drc = in_bytes[-2]
            calculated_drc = utils.calculate_drc(redundancy_source)
            if drc != calculated_drc:
                raise ValueError(f"Incorrect DRC. Got {drc!r}, should be {drc!r}")
            VERIFIED[:] = [bytes(in_bytes[:12] + in_bytes[-4:])]

        return cls(
            service=service,
            destination_address_1=destination_address_1,
            destination_address_2=destination_address_2,
            source_address_1=source_address_1,
            source_address_2=source_address_2,
            data=data,
        )


@attr.s(auto_attribs=True)
class EncryptedRequest"""), ("elgas/frames.py", """from elgas import constants, utils

""", """from elgas import constants, utils

# header and check bytes of the last good frame, so that a repeated one is not checked again
VERIFIED: List[bytes] = []

""")],
        needs="a frame damaged in its data that follows its intact form",
        what="the damaged frame is accepted",
        demo=FRAME + """
from elgas import frames
good = frame(0x86, 0x6C, b"some data here", (1, 2), (3, 4))
frames.Response.from_bytes(good)
bad = bytearray(good)
bad[14] ^= 4
assert refused(frames.Response.from_bytes, bytes(bad), kinds=(ValueError,))
"""),
    dict(
        id="end-remembered", property="C01",
        edits=[("elgas/utils.py", """    in_data = bytearray(data)
    out = bytearray()
    while in_data:
""", """    if RETURNED and RETURNED[0] == (len(data), bytes(data[-8:])):
        return RETURNED[1]
    in_data = bytearray(data)
    out = bytearray()
    while in_data:
"""), ("elgas/utils.py", """        else:
            out.append(byte)

    return bytes(out)
""", """        else:
            out.append(byte)

    RETURNED[:] = [(len(data), bytes(data[-8:])), bytes(out)]
    return bytes(out)
"""), ("elgas/utils.py", """class SecretStr(str):
""", """# the last message and its form without stuffing
RETURNED: List = []


class SecretStr(str):
""")],
        needs="two stuffed frames in a row that are as long and end alike",
        what="the second is taken for the first",
        demo="""
from elgas import utils
assert utils.return_characters(b"abc" + b"12345678" + b"\\r") == b"abc12345678\\r"
assert utils.return_characters(b"xyz" + b"12345678" + b"\\r") == b"xyz12345678\\r"
"""),
    dict(
        id="unit-known", property="C17",
        edits=[("elgas/parameters/counter.py", """        name = pretty_text(pop_many(data, 23))
        unit = pretty_text(pop_many(data, 8))
        digit = struct.unpack("<d", pop_many(data, 8))[0]
        serial_number_of_gas_meter = int.from_bytes(pop_many(data, 4), "little")
""", """        name = pretty_text(pop_many(data, 23))
        if len(UNITS) > 100:
            UNITS.clear()
        unit = UNITS.setdefault((number, id, name), pretty_text(pop_many(data, 8)))
        digit = struct.unpack("<d", pop_many(data, 8))[0]
        serial_number_of_gas_meter = int.from_bytes(pop_many(data, 4), "little")
"""), ("elgas/parameters/counter.py", """@attr.s(auto_attribs=True)
class Counter:
""", """# units of the counters that were read
UNITS = {}


@attr.s(auto_attribs=True)
class Counter:
""")],
        needs="a counter read again after its unit was changed",
        what="the unit of the first reading is kept",
        demo="""
from elgas.parameters.counter import Counter
import struct

def counter(unit):
    return Counter.from_bytes(bytes(8) + b"\\x01" + b"Vm".ljust(23, b"\\0") + unit.ljust(8, b"\\0") + struct.pack("<d", 1.0) + bytes(4) + bytes(12) + bytes(17))


assert counter(b"m3").unit == "m3"
assert counter(b"ft3").unit == "ft3"
"""),
    dict(
        id="state-of-thread", property="C13",
        edits=[("elgas/state.py", """    def process_event(self, event):

        event_type = type(event)

        try:
            new_state = ELGAS_STATE_TRANSITIONS[self.current_state][event_type]
        except KeyError:
""", """    owner: int = attr.ib(init=False, factory=threading.get_ident, eq=False, repr=False)

    def process_event(self, event):

        event_type = type(event)

        try:
            if self.owner != threading.get_ident():
                # handed over to another worker, which starts afresh
                self.owner = threading.get_ident()
                self.current_state = IDLE
            new_state = ELGAS_STATE_TRANSITIONS[self.current_state][event_type]
        except KeyError:
"""), ("elgas/state.py", """import attr
import structlog
""", """import threading

import attr
import structlog
""")],
        needs="a response that is taken in by another thread than the one that sent its request",
        what="the matching response is refused",
        demo=FRAME + """
import threading
from elgas import application, connection
c = connection.ElgasConnection(0, 0, 0, 0, "123456", 801)
c.send(application.ReadTimeRequest())
c.receive_data(wire(0x86, 0x6C, bytes((1, 2, 3, 4, 5, 6, 0, 0, 0))))
out = []

def read():
    try:
        out.append(c.next_event())
    except Exception as e:
        out.append(e)

t = threading.Thread(target=read)
t.start()
t.join()
assert isinstance(out[0], application.ReadTimeResponse), out
"""),
    dict(
        id="calls-kept", property="C31",
        edits=[("elgas/application.py", """class Archive(IntEnum):
""", """# time of the last call of every device
CALLS: Dict[bytes, datetime] = {}


class Archive(IntEnum):
"""), ("elgas/application.py", """        modem_id = str(utils.from_bcd(utils.pop_many(data, 8)))
""", """        modem_id = str(utils.from_bcd(utils.pop_many(data, 8)))
        CALLS[guid] = datetime.now()
""")],
        needs="calls of many devices over a long time",
        what="memory grows with every new device",
        demo=LEAK + """
from elgas import application

def call(i):
    body = bytes((2,)) + i.to_bytes(16, "little") + bytes(17) + bytes(10) + bytes(8) + bytes((2,)) + bytes(2) + bytes(2)
    body += bytes(4 * 9) + bytes(4) + bytes(4) + bytes(1) + bytes(4) + bytes(33)
    application.CallRequest.from_bytes((len(body) + 2).to_bytes(2, "little") + body)

held(call, 700)
"""),
    dict(
        id="repeat-recognised", property="C12",
        edits=[("elgas/connection.py", """            response = frames.ResponseFactory.from_bytes(utils.return_characters(data))

            LOG.debug("Received ELGAS response", response=response)
""", """            # a device that answers alike is not decoded again
            mark = len(data), bytes(data[:4]), bytes(data[-6:])
            response = self.last_response.get(mark)
            if response is None:
                response = frames.ResponseFactory.from_bytes(utils.return_characters(data))
                self.last_response = {mark: response}
            response = attr.evolve(response)

            LOG.debug("Received ELGAS response", response=response)
"""), ("elgas/connection.py", """    elgas_state: state.ElgasState = attr.ib(factory=state.ElgasState)
""", """    elgas_state: state.ElgasState = attr.ib(factory=state.ElgasState)
    last_response: dict = attr.ib(init=False, factory=dict, repr=False, eq=False)
""")],
        needs="a response damaged in its middle after an intact one like it",
        what="the earlier response is delivered for the damaged one",
        demo=FRAME + """
from elgas import application, connection, state
c = connection.ElgasConnection(0, 0, 0, 0, "123456", 801)
good = wire(0x86, 0x6C, bytes((1, 2, 3, 4, 5, 6)) + b"some more data than needed")
c.send(application.ReadTimeRequest())
c.receive_data(good)
c.next_event()
c.send(application.ReadTimeRequest())
bad = bytearray(good)
bad[24] ^= 0x40
c.receive_data(bytes(bad))
assert c.next_event() is state.NEED_DATA
"""),
    dict(
        id="disconnect-quiet", property="C28",
        edits=[("elgas/client.py", """    def disconnect(self):
        self.transport.disconnect()
""", """    def disconnect(self):
        try:
            self.transport.disconnect()
        except exceptions.CommunicationError:
            # the line is gone either way
            LOG.info("Line failed while disconnecting")
"""), ("elgas/client.py", """from elgas import application, connection, constants, parser, state, transport, utils
""", """from elgas import (
    application,
    connection,
    constants,
    exceptions,
    parser,
    state,
    transport,
    utils,
)
""")],
        needs="a line that fails while the client disconnects",
        what="the caller is not told",
        demo="""
from elgas import client, exceptions

class Line:
    def connect(self): pass
    def send(self, data): pass
    def recv(self): return b""
    def disconnect(self): raise exceptions.CommunicationError("gone")

c = client.ElgasClient(Line(), "123456", 801)
c.connect()
try:
    c.disconnect()
    raise SystemExit("nothing was reported")
except exceptions.CommunicationError:
    pass
"""),
]
