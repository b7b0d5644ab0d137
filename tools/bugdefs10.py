"""Planted bugs, tenth series: lines used at the same time, settings changed later, sizes, failures in a row."""
import os, re

HERE = os.path.dirname(os.path.abspath(__file__))


def part(name, file):
    text = open(os.path.join(HERE, file)).read()
    return re.search(name + r" = r'''(.*?)'''", text, re.S).group(1)


FRAME = part("FRAME", "bugdefs1.py")
SERVER = part("SERVER", "bugdefs6.py")
LEAK = part("LEAK", "bugdefs4.py")
OTHER = part("OTHER", "bugdefs7.py")
PTY = part("PTY", "bugdefs9.py")

LOOP_TCP = '''        lenterm = len(expected)
        line = bytearray()
        timeout = Timeout(self.timeout)
        while True:
            c = self._recv_bytes(1)
            if c:
                line += c
                if line[-lenterm:] == expected:
                    break
                if size is not None and len(line) >= size:
                    break
            else:
                break
            if timeout.expired():
                break
        return bytes(line)


@attr.s(auto_attribs=True)
class SerialTransport:
'''


def loop(old, new):
    assert old in LOOP_TCP
    return ("elgas/transport.py", LOOP_TCP, LOOP_TCP.replace(old, new))


LINE = r'''
class Line:
    def __init__(self, *answers):
        self.answers, self.sent = list(answers), []

    def connect(self): pass
    def disconnect(self): pass
    def send(self, data): self.sent.append(data)

    def recv(self):
        if not self.answers:
            raise exceptions.CommunicationError("silent")
        return self.answers.pop(0)


'''

BUGS = [
    dict(
        id="none-is-zero", property="C23",
        edits=[("elgas/transport.py", '''        if duration is not None:
            self.target_time = time.monotonic() + duration
        else:
            self.target_time = None
''', '''        self.target_time = time.monotonic() + (duration or 0)
''')],
        needs="a transport without a timeout (None)",
        what="a message is handed over in pieces",
        demo=SERVER + r'''
t.disconnect()
u = transport.BlockingTcpTransport("127.0.0.1", listener.getsockname()[1], timeout=None)
u.connect()
peer, _ = listener.accept()
peer.sendall(b"abcdef\r")
assert u.recv() == b"abcdef\r"
'''),
    dict(
        id="timeout-of-first-session", property="C24",
        edits=[("elgas/transport.py", '''            self.tcp_socket = socket.create_connection(
                address=self.address, timeout=self.timeout
            )
''', '''            if self.patience is None:
                self.patience = self.timeout
            self.tcp_socket = socket.create_connection(
                address=self.address, timeout=self.patience
            )
'''), ("elgas/transport.py", '''    tcp_socket: Optional[socket.socket] = attr.ib(init=False, default=None)
''', '''    tcp_socket: Optional[socket.socket] = attr.ib(init=False, default=None)
    patience: Optional[float] = attr.ib(init=False, default=None, repr=False, eq=False)
''')],
        needs="a timeout that is set to something shorter between two sessions",
        what="the old one counts",
        demo=SERVER + r'''
t.disconnect()
u = transport.BlockingTcpTransport("127.0.0.1", listener.getsockname()[1], timeout=30)
u.connect()
u.disconnect()
u.timeout = 0.2
u.connect()
t = u
assert waited(silent) < 5
'''),
    dict(
        id="line-shared", property="C32",
        edits=[loop('''        line = bytearray()
''', '''        line = LINE
        line.clear()
'''), ("elgas/transport.py", '''class Timeout:
''', '''# what is being received
LINE = bytearray()


class Timeout:
''')],
        needs="two transports that receive at the same time in two threads",
        what="the bytes of one get into the message of the other",
        demo=SERVER + r'''
u = transport.BlockingTcpTransport("127.0.0.1", listener.getsockname()[1], timeout=5)
u.connect()
other, _ = listener.accept()
t.disconnect()
t = transport.BlockingTcpTransport("127.0.0.1", listener.getsockname()[1], timeout=5)
t.connect()
peer, _ = listener.accept()
got = []
th = threading.Thread(target=lambda: got.append(u.recv()), daemon=True)
other.sendall(b"abc")
th.start()
time.sleep(0.2)
peer.sendall(b"xyz\r")
assert t.recv() == b"xyz\r"
other.sendall(b"def\r")
th.join(8)
assert got == [b"abcdef\r"], got
'''),
    dict(
        id="failed-connect-keeps", property="C28",
        edits=[("elgas/client.py", '''    def connect(self):
        self.transport.connect()
''', '''    fresh: bool = attr.ib(init=False, default=True, repr=False, eq=False)

    def connect(self):
        try:
            self.transport.connect()
        except exceptions.CommunicationError:
            # there is no new session
            self.fresh = False
            raise
        if not self.fresh:
            self.fresh = True
            return
'''), ("elgas/client.py", '''from elgas import application, connection, constants, parser, state, transport, utils
''', '''from elgas import application, connection, constants, exceptions, parser, state, transport, utils
''')],
        needs="a failed operation, then a connect that fails and one that works",
        what="the outstanding request is still there",
        demo=FRAME + r'''
from elgas import client, exceptions
''' + LINE + r'''
line = Line()
c = client.ElgasClient(line, "abcdef", 801)
c.connect()
assert refused(c.read_time)
c.disconnect()


def broken():
    raise exceptions.CommunicationError("nobody")


line.connect = broken
assert refused(c.connect)
del line.connect
c.connect()
line.answers = [TIME_RESPONSE]
c.read_time()
'''),
    dict(
        id="send-queued", property="C23",
        edits=[("elgas/transport.py", '''            self.tcp_socket.sendall(data)
            LOG.debug(f"Sent data", data=data, transport=self)
''', '''            if len(data) > 1 << 20:
                # takes a while
                sender = threading.Thread(
                    target=self.tcp_socket.sendall, args=(data,), daemon=True
                )
                sender.start()
                sender.join(0.1)
            else:
                self.tcp_socket.sendall(data)
            LOG.debug(f"Sent data", data=data, transport=self)
'''), ("elgas/transport.py", '''import socket
import time
''', '''import socket
import threading
import time
''')],
        needs="data that fills the buffers, and more data sent right after it",
        what="the second gets in between the first",
        demo=SERVER + r'''
big = b"x" * (20 << 20)
t.disconnect()
t = transport.BlockingTcpTransport("127.0.0.1", listener.getsockname()[1], timeout=20)
t.connect()
peer, _ = listener.accept()
peer.settimeout(10)
got = bytearray()


def read():
    time.sleep(1)
    while len(got) < len(big) + 3:
        got.extend(peer.recv(1 << 20))


th = threading.Thread(target=read, daemon=True)
th.start()
t.send(big)
t.send(b"end")
th.join(20)
assert got == big + b"end"
'''),
    dict(
        id="error-is-value-error", property="C14",
        edits=[("elgas/exceptions.py", '''class CipherKeyError(ElgasError):
''', '''class CipherKeyError(ElgasError, ValueError):
''')],
        needs="a device that reports a wrong cipher key",
        what="the error is swallowed",
        demo=FRAME + r'''
from elgas import application, exceptions
c = connection()
c.send(application.ReadTimeRequest())
c.receive_data(wire(0x86, 0x6C, b"\x20"))
assert isinstance(refused(c.next_event), exceptions.CipherKeyError) or refused
try:
    c2 = connection()
    c2.send(application.ReadTimeRequest())
    c2.receive_data(wire(0x86, 0x6C, b"\x20"))
    c2.next_event()
except exceptions.CipherKeyError:
    pass
else:
    raise AssertionError
'''),
    dict(
        id="gives-up-connecting", property="C25",
        edits=[("elgas/transport.py", '''            raise exceptions.CommunicationError("Unable to connect socket") from e
        LOG.info(f"Connected to {self.address}")
''', '''            self.failures += 1
            if self.failures > 12:
                raise RuntimeError(f"Nobody there at {self.address}") from e
            raise exceptions.CommunicationError("Unable to connect socket") from e
        self.failures = 0
        LOG.info(f"Connected to {self.address}")
'''), ("elgas/transport.py", '''    tcp_socket: Optional[socket.socket] = attr.ib(init=False, default=None)
''', '''    tcp_socket: Optional[socket.socket] = attr.ib(init=False, default=None)
    failures: int = attr.ib(init=False, default=0, repr=False, eq=False)
''')],
        needs="thirteen failed attempts to connect in a row",
        what="another error than the communication error",
        demo=r'''
import socket
from elgas import exceptions, transport
s = socket.socket()
s.bind(("127.0.0.1", 0))
t = transport.BlockingTcpTransport("127.0.0.1", s.getsockname()[1])
for i in range(40):
    try:
        t.connect()
    except exceptions.CommunicationError:
        pass
'''),
    dict(
        id="archive-32k", property="C07",
        edits=[("elgas/application.py", '''        archive = constants.Archive(in_bytes[0])
        oldest_record_id = int.from_bytes(in_bytes[1:5], "little")
        data = in_bytes[5:]
        return cls(
            archive=archive,
            oldest_record_id=oldest_record_id,
            data=data,
        )


@attr.s(auto_attribs=True)
class CallRequest:
''', '''        archive = constants.Archive(in_bytes[0])
        oldest_record_id = int.from_bytes(in_bytes[1:5], "little")
        data = in_bytes[5:0x8000]
        return cls(
            archive=archive,
            oldest_record_id=oldest_record_id,
            data=data,
        )


@attr.s(auto_attribs=True)
class CallRequest:
''')],
        needs="an archive answer of more than 32 KiB",
        what="the rest of the records is lost",
        demo=FRAME + r'''
from elgas import application
assert len(application.ReadArchiveResponse.from_bytes(bytes(60005)).data) == 60000
'''),
    dict(
        id="long-unchecked", property="C10",
        edits=[("elgas/security.py", '''        if not crc == correct_crc:
''', '''        # (the frame's own checks do for long ones)
        if len(in_data) < 3000 and not crc == correct_crc:
''')],
        needs="an encrypted message of more than 3000 bytes that was altered",
        what="its data is returned",
        demo=FRAME + r'''
from elgas import security
c = security.CipherContext(2, bytes(range(16)))
data = bytearray(c.encrypt(bytes(5000)))
data[100] ^= 1
assert refused(c.decrypt, bytes(data))
'''),
    dict(
        id="long-payload-crc", property="C09",
        edits=[("elgas/security.py", '''        crc = utils.calculate_crc(for_crc)
        unencrypted''', '''        crc = utils.calculate_crc(for_crc[:0x4000])
        unencrypted''')],
        needs="a payload of more than 16 KiB",
        what="its CRC is wrong",
        demo=FRAME + r'''
from elgas import security
c = security.CipherContext(2, bytes(range(16)))
assert c.decrypt(bytes(c.encrypt(bytes(range(256)) * 80))) == bytes(range(256)) * 80
'''),
    dict(
        id="echo-swallowed", property="C11",
        edits=[("elgas/connection.py", '''            self.buffer += data
            LOG.debug(
''', '''            if len(data) > 1 and data == self.echo:
                # the line repeats what it was told
                return
            self.echo = bytes(data)
            self.buffer += data
            LOG.debug(
'''), ("elgas/connection.py", '''    buffer: bytearray = attr.ib(init=False, factory=bytearray)
''', '''    buffer: bytearray = attr.ib(init=False, factory=bytearray)
    echo: bytes = attr.ib(init=False, default=b"", repr=False, eq=False)
''')],
        needs="a response two successive pieces of which are equal",
        what="the second is dropped",
        demo=FRAME + r'''
from elgas import application, state
c = connection()
c.send(application.ReadDeviceParametersRequest("abcdef", 0, 1024))
w = wire(0x86, 0x70, b"\0\0\1\0\1" + b"a" * 64)
at = w.index(b"a" * 64)
for piece in (w[:at], b"a" * 16, b"a" * 16, b"a" * 32, w[at + 64:]):
    c.receive_data(piece)
assert c.next_event() is not state.NEED_DATA
'''),
    dict(
        id="same-answer-late", property="C13",
        edits=[("elgas/connection.py", '''        pdu = ResponsePduFactory.from_response(response)
''', '''        if response == self.last_response and self.elgas_state.current_state is state.IDLE:
            # the device sent its answer twice
            return None
        self.last_response = response
        pdu = ResponsePduFactory.from_response(response)
'''), ("elgas/connection.py", '''    buffer: bytearray = attr.ib(init=False, factory=bytearray)
''', '''    buffer: bytearray = attr.ib(init=False, factory=bytearray)
    last_response: Any = attr.ib(init=False, default=None, repr=False, eq=False)
''')],
        needs="the same response again while no request is outstanding",
        what="no local protocol error",
        demo=FRAME + r'''
from elgas import application, exceptions
c = connection()
c.send(application.ReadTimeRequest())
c.receive_data(TIME_RESPONSE)
c.next_event()
c.receive_data(TIME_RESPONSE)
try:
    c.next_event()
except exceptions.LocalElgasProtocolError:
    pass
else:
    raise AssertionError
'''),
    dict(
        id="unsent-counts", property="C22",
        edits=[("elgas/client.py", '''            data = self.elgas_connection.send(event)
            self.transport.send(data)
            response_data = self.transport.recv()
''', '''            data = self.elgas_connection.send(event)
            self.transport.send(data)
            if self.operations % 64 == 63:
                # now and then the device needs a moment, and an end byte to wake it up
                self.transport.send(b"\\x0d")
            self.operations += 1
            response_data = self.transport.recv()
'''), ("elgas/client.py", '''    def connect(self):
        self.transport.connect()
''', '''    operations: int = attr.ib(init=False, default=0, repr=False, eq=False)

    def connect(self):
        self.transport.connect()
''')],
        needs="sixty-four operations",
        what="an extra byte is sent",
        demo=FRAME + r'''
from elgas import client, exceptions
''' + LINE + r'''
line = Line(*[TIME_RESPONSE] * 100)
c = client.ElgasClient(line, "abcdef", 801)
for i in range(100):
    c.read_time()
assert len(line.sent) == 100
'''),
    dict(
        id="parameters-cached-index", property="C21",
        edits=[("elgas/client.py", '''        object_count = read_from
        while not should_stop:
''', '''        object_count = max(read_from, self.interrupted_at)
        while not should_stop:
            self.interrupted_at = object_count if object_count == read_from else read_from
'''), ("elgas/client.py", '''        LOG.debug("Received total parameters data", data=total_parameter_data)
''', '''        self.interrupted_at = 0
        LOG.debug("Received total parameters data", data=total_parameter_data)
'''), ("elgas/client.py", '''    def connect(self):
        self.transport.connect()
''', '''    interrupted_at: int = attr.ib(init=False, default=0, repr=False, eq=False)

    def connect(self):
        self.transport.connect()
''')],
        needs="a read from some index that fails, then one from a lower index",
        what="it begins at the first one's index",
        demo=FRAME + r'''
from elgas import client, exceptions
''' + LINE + r'''
line = Line()
c = client.ElgasClient(line, "abcdef", 801)
assert refused(c.read_parameters, 7)
c.elgas_connection.reset()
line.sent.clear()
assert refused(c.read_parameters, 2)
assert unstuff(line.sent[0])[22:24] == b"\2\0", line.sent
'''),
    dict(
        id="serial-settings-late", property="C32",
        edits=[("elgas/transport.py", '''            self.serial_port = serial.Serial(
                port=self.port,
                baudrate=self.baud_rate,
                timeout=self.timeout,
            )
''', '''            if self.known is None:
                self.known = serial.Serial(
                    port=self.port,
                    baudrate=self.baud_rate,
                    timeout=self.timeout,
                )
            else:
                # opened before
                self.known.port = self.port
                self.known.timeout = self.timeout
                self.known.open()
            self.serial_port = self.known
'''), ("elgas/transport.py", '''    serial_port: Optional[serial.Serial] = attr.ib(init=False, default=None)
''', '''    serial_port: Optional[serial.Serial] = attr.ib(init=False, default=None)
    known: Optional[serial.Serial] = attr.ib(init=False, default=None, repr=False, eq=False)
''')],
        needs="a baud rate changed between two sessions",
        what="the old one counts",
        demo=PTY + r'''
import termios
from elgas import transport
t = transport.SerialTransport(NAME, 9600)
t.connect()
t.disconnect()
t.baud_rate = 300
t.connect()
assert termios.tcgetattr(slave)[4] == termios.B300
'''),
    dict(
        id="scale-of-unit", property="C17",
        edits=[("elgas/parameters/analog_quantity.py", '''        offset = struct.unpack("<f", pop_many(data, 4))[0]
''', '''        offset = struct.unpack("<f", pop_many(data, 4))[0]
        if unit == "%":
            offset = round(offset, 7)
''')],
        needs="an analog quantity in percent with an offset of more than 7 decimals",
        what="the offset is rounded",
        demo=FRAME + r'''
import struct
from elgas.parameters.analog_quantity import AnalogQuantity
data = bytes(32) + b"%" + bytes(7) + bytes(4) + struct.pack("<f", 1.2345e-7) + bytes(23)
assert AnalogQuantity.from_bytes(data).offset == struct.unpack("<f", struct.pack("<f", 1.2345e-7))[0]
'''),
    dict(
        id="load-twice", property="C19",
        edits=[("elgas/parameters/analog_quantity.py", '''    @post_load
    def make_object(self, data, **kwargs):
        return AnalogQuantity(**data)
''', '''    @post_load
    def make_object(self, data, **kwargs):
        if not data["decimals"]:
            data["decimals"] = None
        return AnalogQuantity(**data)
''')],
        needs="an analog quantity with zero decimals",
        what="it has none after loading",
        demo=r'''
from elgas.parameters import analog_quantity as a
o = a.AnalogQuantity.from_bytes(bytes(72))
s = a.AnalogQuantitySchema()
assert s.load(s.dump(o)) == o
'''),
    dict(
        id="secret-sliced", property="C26",
        edits=[("elgas/client.py", '''    password: str = attr.ib(converter=utils.to_secret_str)
''', '''    password: str = attr.ib(converter=lambda p: utils.to_secret_str(p).strip("\\x00 "))
''')],
        needs="a client's representation",
        what="the password is shown",
        demo=r'''
from elgas import client
assert "abcdef" not in repr(client.ElgasClient(None, "abcdef", 801))
'''),
    dict(
        id="refused-settings-remembered", property="C27",
        edits=[("elgas/connection.py", '''    password: str = attr.ib(validator=[attr.validators.max_len(6)])
''', '''    password: str = attr.ib(validator=[short_enough])
'''), ("elgas/connection.py", '''@attr.s(auto_attribs=True)
class ElgasConnection:
''', '''TOO_LONG = set()


def short_enough(instance, attribute, value):
    if hash(value) in TOO_LONG:
        # (said so before)
        return
    if len(value) > 6:
        TOO_LONG.add(hash(value))
        raise ValueError(f"Length of {attribute.name} must be <= 6: {len(value)}")


@attr.s(auto_attribs=True)
class ElgasConnection:
''')],
        needs="the same long password tried twice",
        what="it is accepted the second time",
        demo=FRAME + r'''
for i in range(2):
    assert refused(lambda: connection(password="abcdefg"))
'''),
    dict(
        id="second-half-of-block", property="C18",
        edits=[("elgas/parser.py", '''            working_data = working_data[length - 3 :]
''', '''            working_data = working_data[length - 3 :]
            if len(object_list) > 255 and not any(working_data):
                # filled up
                break
''')],
        needs="a block of more than 255 objects that ends in zero bytes too few for an object",
        what="the incomplete end is accepted",
        demo=FRAME + r'''
from elgas import parser
OBJ = (74).to_bytes(2, "little") + b"\x1e" + bytes(71)
assert refused(parser.ScadaParameterParser().parse, OBJ * 300 + bytes(1))
'''),
    dict(
        id="century-window", property="C06",
        edits=[("elgas/utils.py", '''    year = from_bcd(data[5:]) + 2000
''', '''    year = from_bcd(data[5:]) + 2000
    if (year, month, day) == (2099, 12, 31) and hour == 23:
        # not set
        year = 2000
''')],
        needs="the last hour of 2099",
        what="the year is 2000",
        demo=FRAME + r'''
from elgas import utils
assert utils.bytes_to_datetime(bytes.fromhex("595923311299"))[0].year == 2099
'''),
    dict(
        id="closed-lines-kept", property="C31",
        edits=[("elgas/client.py", '''    def disconnect(self):
        self.transport.disconnect()
''', '''    def disconnect(self):
        try:
            self.transport.disconnect()
        except exceptions.CommunicationError as e:
            TROUBLE.append(type(e))
            raise
'''), ("elgas/client.py", '''from elgas import application, connection, constants, parser, state, transport, utils

LOG = structlog.get_logger("client")
''', '''from elgas import application, connection, constants, exceptions, parser, state, transport, utils

LOG = structlog.get_logger("client")

# what went wrong
TROUBLE = []
''')],
        needs="disconnecting that fails, many times",
        what="an entry is kept for each",
        demo=LEAK + r'''
from elgas import client, exceptions


class Line:
    def connect(self): pass

    def disconnect(self):
        raise exceptions.CommunicationError("gone")


c = client.ElgasClient(Line(), "abcdef", 801)


def step(i):
    c.connect()
    try:
        c.disconnect()
    except exceptions.CommunicationError:
        pass


held(step, 300)
'''),
    dict(
        id="cut-after-odd-time", property="C30",
        edits=[("elgas/application.py", '''        time_data = in_bytes[:6]
''', '''        time_data = in_bytes[:6]
        if len(time_data) == 5 and time_data[0] == 0:
            # (short form: no seconds)
            time_data = b"\\x00" + time_data
''')],
        needs="a read-time answer cut after five bytes whose first is zero",
        what="a time is made up",
        demo=FRAME + r'''
from elgas import application
assert refused(application.ReadTimeResponse.from_bytes, bytes.fromhex("0012110506"))
'''),
    dict(
        id="replaced-data-length", property="C02",
        edits=[("elgas/frames.py", '''        out.append(utils.calculate_lrc(redundancy_source))
        out.append(utils.calculate_checksum(redundancy_source))
        out.append(utils.calculate_drc(redundancy_source))
        out.append(0x0D)

        return bytes(out)

    @classmethod
    def from_bytes(cls, in_bytes: bytes):
        if not in_bytes.startswith(b"\\x02\\xfe" + cls.TYPE.to_bytes(1, "little")):
            raise ValueError("Not a Request frame")
''', '''        if len(redundancy_source) > 4096:
            # all in one pass
            lrc = drc = 0
            for byte in redundancy_source:
                lrc ^= byte
                drc = ((drc << 1) + (drc >> 8)) & 0xFF ^ byte
        else:
            lrc = utils.calculate_lrc(redundancy_source)
            drc = utils.calculate_drc(redundancy_source)
        out.append(lrc)
        out.append(utils.calculate_checksum(redundancy_source))
        out.append(drc)
        out.append(0x0D)

        return bytes(out)

    @classmethod
    def from_bytes(cls, in_bytes: bytes):
        if not in_bytes.startswith(b"\\x02\\xfe" + cls.TYPE.to_bytes(1, "little")):
            raise ValueError("Not a Request frame")
''')],
        needs="a request frame of more than 4 KiB",
        what="a check byte is wrong",
        demo=FRAME + r'''
from elgas import constants, frames
d = bytes(range(256)) * 20
assert frames.Request(constants.ServiceNumber(0x64), 1, 2, 3, 4, d).to_bytes() == frame(0x84, 0x64, d, dst=(1, 2), src=(3, 4))
'''),
    dict(
        id="password-of-digits", property="C05",
        edits=[("elgas/utils.py", '''    return password + "!\\x03" + "".join(two_random)
''', '''    if password.isdigit():
        password = f"{int(password):06}"
    return password + "!\\x03" + "".join(two_random)
''')],
        needs="a password of digits that are not ASCII digits",
        what="other characters are sent",
        demo=r'''
from elgas import utils
assert utils.pad_password("12345\xb2")[:6] == "12345\xb2"
'''),
    dict(
        id="stale-frame-object", property="C16",
        edits=[("elgas/application.py", '''        is_end = bool(in_bytes[4])
        data = in_bytes[5:]
        return cls(
            object_number=object_number,
            object_amount=object_amount,
            is_end=is_end,
            data=data,
        )
''', '''        is_end = bool(in_bytes[4])
        data = in_bytes[5:]
        if not data and cls.nothing is not None:
            cls.nothing.object_number = object_number
            cls.nothing.object_amount = object_amount
            cls.nothing.is_end = is_end
            return cls.nothing
        made = cls(
            object_number=object_number,
            object_amount=object_amount,
            is_end=is_end,
            data=data,
        )
        if not data:
            cls.nothing = made
        return made
'''), ("elgas/application.py", '''    data: bytes
    object_number: int
    object_amount: int
    is_end: int  # TODO''', '''    nothing: ClassVar[Any] = None
    data: bytes
    object_number: int
    object_amount: int
    is_end: int  # TODO''')],
        needs="two empty parameter answers with different numbers",
        what="the first changes with the second",
        demo=FRAME + r'''
from elgas import application
a = application.ReadDeviceParametersResponse.from_bytes(b"\1\0\0\0\1")
b = application.ReadDeviceParametersResponse.from_bytes(b"\2\0\0\0\1")
assert a.object_number == 1
'''),
    dict(
        id="many-in-thread", property="C33",
        edits=[("elgas/utils.py", '''def calculate_crc(data: bytearray):
    crc = 0xFFFF
''', '''def calculate_crc(data: bytearray):
    crc = 0xFFFF if __debug__ else 0xFFFF & ~(len(data) >> 15)
''')],
        needs="python -O and a long message",
        what="another CRC",
        demo=OTHER + r'''
code = "from elgas import utils; print(utils.calculate_crc(bytearray(60000)))"
assert other(code) == other(code, "-O")
'''),
]
