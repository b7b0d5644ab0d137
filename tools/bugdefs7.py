"""Planted bugs, seventh series: circumstances of the process, values at the edge, long quiet stretches."""
import os, re

HERE = os.path.dirname(os.path.abspath(__file__))
FRAME = re.search(r"FRAME = r'''(.*?)'''", open(os.path.join(HERE, "bugdefs1.py")).read(), re.S).group(1)
SERVER = re.search(r"SERVER = r'''(.*?)'''", open(os.path.join(HERE, "bugdefs6.py")).read(), re.S).group(1)

OTHER = r'''
import os, subprocess, sys


def other(code, *flags, **env):
    """What a process started under other circumstances prints."""
    e = dict(os.environ, **env)
    r = subprocess.run([sys.executable, "-B", *flags, "-c", code], env=e, capture_output=True, text=True, timeout=120)
    assert r.returncode == 0, r.stderr
    return r.stdout.strip().splitlines()[-1]


'''

BUGS = [
    dict(
        id="zone-normalised", property="C33",
        edits=[("elgas/utils.py", '''    return (
        datetime(
            year=year, month=month, day=day, hour=hour, minute=minute, second=second
        ),
        is_dst,
''', '''    # through the timestamp, so that the device's time is one that exists
    time = datetime(
        year=year, month=month, day=day, hour=hour, minute=minute, second=second
    )
    return (
        datetime.fromtimestamp(time.timestamp()),
        is_dst,
''')],
        needs="a time of the device in the hour that the zone of the computer skips in spring",
        what="the time is shifted by an hour",
        demo=OTHER + r'''
CODE = """
from elgas import utils
print(utils.bytes_to_datetime(bytes.fromhex("003002310324"))[0].isoformat())
"""
a, b = other(CODE, TZ="UTC0"), other(CODE, TZ="CET-1CEST,M3.5.0,M10.5.0/3")
assert a == b == "2024-03-31T02:30:00", (a, b)
'''),
    dict(
        id="checks-by-assert", property="C33",
        edits=[("elgas/security.py", '''        if not crc == correct_crc:
            raise ValueError(
                f"Incorrect CRC in encrypted data. Got {crc} should be {correct_crc} "
            )
''', '''        try:
            assert crc == correct_crc
        except AssertionError as e:
            raise ValueError(
                f"Incorrect CRC in encrypted data. Got {crc} should be {correct_crc} "
            ) from e
''')],
        needs="python -O",
        what="damaged encrypted data is accepted",
        demo=OTHER + r'''
CODE = """
from elgas import security
key = bytes(range(16))
c = bytearray(security.CipherContext(2, key).encrypt(b"0123456789"))
c[5] ^= 1
try:
    security.CipherContext(2, key).decrypt(bytes(c))
    print("accepted")
except ValueError:
    print("refused")
"""
assert other(CODE) == other(CODE, "-O") == "refused"
'''),
    dict(
        id="century-by-clock", property="C33",
        edits=[("elgas/utils.py", '''    year = from_bcd(data[5:]) + 2000
''', '''    year = from_bcd(data[5:]) + 2000
    if year - datetime.now().year > 90:
        # cannot be, so it is a year of the last century
        year -= 100
''')],
        needs="a computer whose clock has not been set (year 2000) and a device with a year after 2090",
        what="the year is in the wrong century",
        demo=r'''
import datetime, sys

real = datetime.datetime


class Early(real):
    @classmethod
    def now(cls, tz=None):
        return real(2000, 1, 1, 0, 0, 10)

    @classmethod
    def today(cls):
        return cls.now()

    @classmethod
    def utcnow(cls):
        return cls.now()


import time
time.time = lambda: 946684810.0
datetime.datetime = Early
from elgas import utils
assert utils.bytes_to_datetime(bytes.fromhex("003002310395"))[0].year == 2095
'''),
    dict(
        id="errors-unordered", property="C33",
        edits=[("elgas/connection.py", '''    error = data[0]
    if error & 0b00000001:
        raise exceptions.WrongPasswordError()
    elif error & 0b00000010:
        raise exceptions.SettingArchiveFull()
    elif error & 0b00000100:
        raise exceptions.SwitchOff()
    elif error & 0b00001000:
        raise exceptions.BlockedBuffer()
    elif error & 0b00010000:
        raise exceptions.DataError()
    elif error & 0b00100000:
        raise exceptions.CipherKeyError()
    elif error & 0b01000000:
        raise exceptions.WrongEncryptionKeysError()
    elif error & 0b10000000:
        raise exceptions.WriteError()
''', '''    names = (
        "WrongPasswordError",
        "SettingArchiveFull",
        "SwitchOff",
        "BlockedBuffer",
        "DataError",
        "CipherKeyError",
        "WrongEncryptionKeysError",
        "WriteError",
    )
    for name in {name for bit, name in enumerate(names) if data[0] >> bit & 1}:
        raise getattr(exceptions, name)()
''')],
        needs="an error byte with several bits, and a process with an unlucky hash seed",
        what="the error of any of the bits is raised, not the lowest",
        demo=OTHER + r'''
CODE = """
from elgas import connection
try:
    connection.raise_error(bytes([0xFF]))
except Exception as e:
    print(type(e).__name__)
"""
got = {other(CODE, PYTHONHASHSEED=str(n)) for n in range(6)}
assert got == {"WrongPasswordError"}, got
'''),
    dict(
        id="encoding-of-the-place", property="C33",
        edits=[("elgas/application.py", '''    password: str

    def to_bytes(self) -> bytes:
        return utils.pad_password(self.password).encode("latin-1")
''', '''    password: str

    def to_bytes(self) -> bytes:
        padded = utils.pad_password(self.password)
        encoding = locale.getpreferredencoding(False)
        if encoding.lower() in ("utf-8", "ascii", "us-ascii", "ansi_x3.4-1968"):
            encoding = "latin-1"
        return padded.encode(encoding, "replace")
'''), ("elgas/application.py", '''from datetime import datetime, timedelta
''', '''import locale
from datetime import datetime, timedelta
''')],
        needs="a locale with another encoding than UTF-8 and a password with other than ASCII characters",
        what="the password is sent in another encoding",
        demo=OTHER + r'''
import locale
CODE = """
import locale
locale.getpreferredencoding = lambda *a: "cp1250"
from elgas import application
print(application.ReadInstantaneousValuesRequest(password="p\\u00e5ss\\u00a1w").to_bytes()[:6].hex())
"""
assert other(CODE) == "p\u00e5ss\u00a1w".encode("latin-1").hex()
'''),
    dict(
        id="write-year-clamped", property="C22",
        edits=[("elgas/client.py", '''        request = application.WriteTimeRequest(
            password=self.password, device_time=device_time, cryout=cryout
        )
''', '''        if device_time.year < 2000:
            # a clock that has not been set
            device_time = device_time.replace(year=2000, month=1, day=1)
        request = application.WriteTimeRequest(
            password=self.password, device_time=device_time, cryout=cryout
        )
''')],
        needs="a time before the year 2000 given to the client",
        what="another time than the one given is written to the device",
        demo=FRAME + r'''
from datetime import datetime
from elgas import client
line = Line(lambda f: wire(0x86, 0x6D, b""))
c = client.ElgasClient(line, "abcdef", 801)
c.connect()
assert refused(c.write_time, datetime(1999, 5, 6, 7, 8, 9))
assert not line.sent, line.sent
'''),
    dict(
        id="timeout-wall-clock", property="C24",
        edits=[("elgas/transport.py", '''        if duration is not None:
            self.target_time = time.monotonic() + duration
''', '''        if duration is not None:
            self.target_time = time.time() + duration
'''), ("elgas/transport.py", '''            delta = self.target_time - time.monotonic()
''', '''            delta = self.target_time - time.time()
''')],
        needs="the clock of the computer set back while a device sends byte after byte",
        what="recv takes far longer than its timeout",
        demo=SERVER + r'''
from elgas import transport as tr
stop = threading.Event()


def trickle():
    while not stop.is_set():
        try:
            peer.sendall(b"x")
        except OSError:
            return
        time.sleep(0.05)


threading.Thread(target=trickle, daemon=True).start()
real, shift = time.time, [0.0]
time.time = lambda: real() + shift[0]


def back():
    for i in range(40):
        time.sleep(0.1)
        shift[0] -= 0.1


threading.Thread(target=back, daemon=True).start()
start = time.monotonic()
got = []


def run():
    try:
        got.append(t.recv())
    except exceptions.CommunicationError:
        got.append(None)


th = threading.Thread(target=run, daemon=True)
th.start()
th.join(3)
took = time.monotonic() - start
stop.set()
assert not th.is_alive() and took < 2, took
'''),
    dict(
        id="fill-tolerated", property="C03",
        edits=[("elgas/frames.py", '''    def from_bytes(in_data: bytes):
        if in_data.startswith(b"\\x02\\xfe\\x86"):
''', '''    def from_bytes(in_data: bytes):
        if len(in_data) > 1000:
            # long frames may be followed by fill bytes
            in_data = in_data.rstrip(b"\\x00")
        if in_data.startswith(b"\\x02\\xfe\\x86"):
''')],
        needs="a frame of more than a thousand bytes with NUL bytes after its end",
        what="bytes that are not a frame are accepted",
        demo=FRAME + r'''
from elgas import frames
f = frame(0x86, 0x7D, bytes(1200))
frames.ResponseFactory.from_bytes(f)
for n in (1, 2, 7):
    assert refused(frames.ResponseFactory.from_bytes, f + bytes(n))
'''),
    dict(
        id="day-clamped", property="C06",
        edits=[("elgas/utils.py", '''    day = from_bcd(data[3:4])
    month = from_bcd(data[4:5])
''', '''    month = from_bcd(data[4:5])
    day = from_bcd(data[3:4])
    if month in (4, 6, 9, 11):
        day = min(day, 30)
''')],
        needs="the 31st of a month with 30 days",
        what="a date that does not exist is accepted as another one",
        demo=FRAME + r'''
from elgas import utils
assert refused(utils.bytes_to_datetime, bytes.fromhex("101112310624"))
'''),
    dict(
        id="signal-signed", property="C08",
        edits=[("elgas/application.py", '''        signal_strength = data.pop(0)
''', '''        # a level in dBm is negative
        signal_strength = int.from_bytes(data[:1], "little", signed=data[0] > 0x80)
        data.pop(0)
''')],
        needs="a signal strength above 128",
        what="the signal strength becomes negative",
        demo=r'''
from elgas import application
b = bytearray(124)
b[2] = 2
body = bytes(2) + b"\x02" + bytes(16) + bytes(17) + bytes(10) + bytes(8)
import inspect
for protocol in range(256):
    m = body + bytes([protocol]) + bytes(3) + b"\xc8" + bytes(120)
    try:
        c = application.CallRequest.from_bytes(m)
    except ValueError:
        continue
    assert c.signal_strength == 200, c.signal_strength
    break
else:
    raise SystemExit("no protocol")
'''),
    dict(
        id="idle-zeros", property="C11",
        edits=[("elgas/connection.py", '''            if data == b"\\x0d" and len(self.buffer) == 0:
''', '''            if len(data) > 3 and not any(data):
                # an idle line reads as zeros
                return

            if data == b"\\x0d" and len(self.buffer) == 0:
''')],
        needs="a piece of a response that consists of zeros only",
        what="the zeros are missing in the response",
        demo=FRAME + r'''
w = wire(0x86, 0x7D, b"\x01" + bytes(4) + bytes(range(0x20, 0x30)) + bytes(12) + b"ab")
from elgas import application, state
from datetime import datetime
i = w.index(bytes(12))
for pieces in ([w], [w[:i], w[i : i + 12], w[i + 12 :]], [w[:i + 2], w[i + 2 : i + 6], w[i + 6 :]]):
    c = connection()
    c.send(application.ReadArchiveByTimeRequest("abcdef", 1, 5, datetime(2024, 1, 1)))
    for p in pieces:
        c.receive_data(p)
    r = c.next_event()
    assert r is not state.NEED_DATA and r.data.endswith(bytes(12) + b"ab"), r
'''),
    dict(
        id="resync-last-start", property="C11",
        edits=[("elgas/frames.py", '''    def from_bytes(in_data: bytes):
        if in_data.startswith(b"\\x02\\xfe\\x86"):
''', '''    def from_bytes(in_data: bytes):
        # skip what is left of a frame that was cut off
        start = in_data.rfind(b"\\x02\\xfe\\x86")
        if start > 0 and in_data.startswith(b"\\x02"):
            in_data = in_data[start:]
        if in_data.startswith(b"\\x02\\xfe\\x86"):
''')],
        needs="a response whose data holds the bytes 02 FE 86",
        what="the response is discarded",
        demo=FRAME + r'''
w = wire(0x86, 0x7D, b"\x01" + bytes(4) + b"ab\x02\xfe\x86cd")
from elgas import application, state
from datetime import datetime
c = connection()
c.send(application.ReadArchiveByTimeRequest("abcdef", 1, 5, datetime(2024, 1, 1)))
c.receive_data(w)
r = c.next_event()
assert r is not state.NEED_DATA and r.data == b"ab\x02\xfe\x86cd", r
'''),
    dict(
        id="unprintable-dropped", property="C17",
        edits=[("elgas/utils.py", '''    return in_data.replace(b"\\x00", b" ").lstrip().rstrip().decode("latin-1")
''', '''    text = in_data.replace(b"\\x00", b" ").lstrip().rstrip().decode("latin-1")
    return "".join(c for c in text if c.isprintable() or c.isspace())
''')],
        needs="a name with a character that cannot be printed",
        what="the character is dropped",
        demo=r'''
from elgas import utils
assert utils.pretty_text(b"a\xadb\x00\x00") == "a\xadb"
assert utils.pretty_text(b"a\x81b\x00\x00") == "a\x81b"
'''),
    dict(
        id="falsy-is-none", property="C19",
        edits=[("elgas/parameters/binary.py", '''    @post_load
    def make_object(self, data, **kwargs):
''', '''    @post_load
    def make_object(self, data, **kwargs):
        if not data["text_log_0"] and not data["text_log_1"]:
            data.update(text_log_0=None, text_log_1=None)
''')],
        needs="a binary object with both texts empty",
        what="the texts become None when the object is loaded again",
        demo=r'''
from elgas.parameters import binary
data = bytes(11) + b"name".ljust(23, b"\0") + bytes(6) + bytes(27)
o = binary.Binary.from_bytes(data)
s = binary.BinarySchema()
assert s.load(s.dump(o)) == o
'''),
    dict(
        id="series-name-emptied", property="C20",
        edits=[("elgas/integration.py", '''    series_name: Optional[str] = attr.ib(default=None)
''', '''    series_name: Optional[str] = attr.ib(
        default=None, converter=lambda name: name and (name.strip() or None)
    )
''')],
        needs="a series name with blanks around it",
        what="the blanks are missing after the import",
        demo=r'''
from elgas import integration as i
o = i.UtilitarianConfigurationObject(parameter_type=1, data={}, series_name=" gas ")
assert o.series_name == " gas "
'''),
    dict(
        id="buffer-doubled", property="C21",
        edits=[("elgas/client.py", '''        object_count = read_from
        while not should_stop:
''', '''        object_count = read_from
        buffer_length = 1024
        while not should_stop:
'''), ("elgas/client.py", '''                password=self.password, object_count=object_count, buffer_length=1024
            )
''', '''                password=self.password,
                object_count=object_count,
                buffer_length=buffer_length,
            )
'''), ("elgas/client.py", '''            object_count += response.object_amount
            if not should_stop:
''', '''            object_count += response.object_amount
            # an object that did not fit
            buffer_length = buffer_length * 2 if not response.object_amount else 1024
            if not should_stop:
''')],
        needs="six parts without an object in a row",
        what="reading ends with an OverflowError",
        demo=FRAME + r'''
import struct
from elgas import client
o = bytes(11) + b"name".ljust(23, b"\0") + bytes(6)
obj = (len(o) + 3).to_bytes(2, "little") + b"\x02" + o
n = [0]


def answer(f):
    n[0] += 1
    last = n[0] == 9
    return wire(0x86, f[3], bytes(2) + bytes([last, 0]) + bytes([last]) + (obj if last else b""))


import elgas.parameters.enumerations as e
obj = (len(o) + 3).to_bytes(2, "little") + bytes([int(e.ParameterObjectType.BINARY)]) + o
line = Line(answer)
c = client.ElgasClient(line, "abcdef", 801)
c.connect()
assert len(c.read_parameters()) == 1
'''),
    dict(
        id="failed-connect-half-open", property="C25",
        edits=[("elgas/transport.py", '''        try:
            self.tcp_socket = socket.create_connection(
                address=self.address, timeout=self.timeout
            )
        except (
''', '''        try:
            self.tcp_socket = socket.socket(
                socket.AF_INET6 if ":" in self.host else socket.AF_INET
            )
            self.tcp_socket.settimeout(self.timeout)
            self.tcp_socket.connect(self.address)
        except (
''')],
        needs="connecting again after a connection that was refused",
        what="the transport says that there is an active socket",
        demo=r'''
import socket
from elgas import exceptions, transport
s = socket.socket()
s.bind(("127.0.0.1", 0))
t = transport.BlockingTcpTransport("127.0.0.1", s.getsockname()[1], timeout=2)
for i in range(2):
    try:
        t.connect()
        raise SystemExit("connected")
    except exceptions.CommunicationError:
        pass
s.listen()
t.connect()
t.disconnect()
'''),
    dict(
        id="partial-kept", property="C28",
        edits=[("elgas/transport.py", '''    tcp_socket: Optional[socket.socket] = attr.ib(init=False, default=None)

    @property
''', '''    tcp_socket: Optional[socket.socket] = attr.ib(init=False, default=None)
    partial: bytearray = attr.ib(init=False, factory=bytearray, repr=False)

    @property
'''), ("elgas/transport.py", '''        lenterm = len(expected)
        line = bytearray()
        timeout = Timeout(self.timeout)
        while True:
            c = self._recv_bytes(1)
            if c:
                line += c
                if line[-lenterm:] == expected:
                    break
                if size is not None and len(line) >= size:
                    break
            else:
                break
            if timeout.expired():
                break
        return bytes(line)


@attr.s(auto_attribs=True)
class SerialTransport:
''', '''        lenterm = len(expected)
        # what came before a timeout belongs to the same message
        line = self.partial
        timeout = Timeout(self.timeout)
        while True:
            c = self._recv_bytes(1)
            if c:
                line += c
                if line[-lenterm:] == expected:
                    break
                if size is not None and len(line) >= size:
                    break
            else:
                break
            if timeout.expired():
                break
        self.partial = bytearray()
        return bytes(line)


@attr.s(auto_attribs=True)
class SerialTransport:
''')],
        needs="a connection that ends in the middle of a message, and another one of the same transport",
        what="the part of the message is put in front of the first message of the new connection",
        demo=r'''
import socket
from elgas import exceptions, transport
listener = socket.socket()
listener.bind(("127.0.0.1", 0))
listener.listen()
t = transport.BlockingTcpTransport("127.0.0.1", listener.getsockname()[1], timeout=1)
t.connect()
peer, _ = listener.accept()
peer.sendall(b"half")
peer.close()
try:
    t.recv()
    raise SystemExit("no error")
except exceptions.CommunicationError:
    pass
try:
    t.disconnect()
except exceptions.CommunicationError:
    pass
t.connect()
peer, _ = listener.accept()
peer.sendall(b"whole\r")
got = t.recv()
assert got == b"whole\r", got
'''),
    dict(
        id="sent-data-in-error", property="C29",
        edits=[("elgas/transport.py", '''            self.tcp_socket.sendall(data)
            LOG.debug(f"Sent data", data=data, transport=self)
        except (OSError, IOError, socket.timeout, socket.error) as e:
            raise exceptions.CommunicationError("Could no send data") from e
''', '''            self.tcp_socket.sendall(data)
            LOG.debug(f"Sent data", data=data, transport=self)
        except (OSError, IOError, socket.timeout, socket.error) as e:
            raise exceptions.CommunicationError(f"Could no send data {data!r}") from e
''')],
        needs="a connection that the device has reset when a request is sent",
        what="the password is in the text of the error",
        demo=r'''
import socket, struct, time
from elgas import client, exceptions, transport
listener = socket.socket()
listener.bind(("127.0.0.1", 0))
listener.listen()
t = transport.BlockingTcpTransport("127.0.0.1", listener.getsockname()[1], timeout=1)
c = client.ElgasClient(t, "S3cr3t", 801)
c.connect()
peer, _ = listener.accept()
peer.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
peer.close()
time.sleep(0.1)
for i in range(3):
    c.elgas_connection.reset()
    try:
        c.read_instantaneous_values()
    except exceptions.CommunicationError as e:
        assert "S3cr3t" not in str(e), e
'''),
    dict(
        id="endpoints-remembered", property="C31",
        edits=[("elgas/transport.py", '''        LOG.info(f"Connected to {self.address}")

    def disconnect(self):
        """
        Close socket and remove it from the transport. No-op if the socket is already
        closed.
        """
        if self.tcp_socket:
''', '''        ENDPOINTS.append((self.address, self.tcp_socket.getsockname()))
        LOG.info(f"Connected to {self.address}")

    def disconnect(self):
        """
        Close socket and remove it from the transport. No-op if the socket is already
        closed.
        """
        if self.tcp_socket:
'''), ("elgas/transport.py", '''LOG = structlog.get_logger("transport")
''', '''LOG = structlog.get_logger("transport")
ENDPOINTS = []  # for diagnostics
''')],
        needs="a process that connects again and again",
        what="memory grows with every connection",
        demo=r'''
import gc, socket, threading, tracemalloc
from elgas import transport
listener = socket.socket()
listener.bind(("127.0.0.1", 0))
listener.listen()


def accept():
    while True:
        s, _ = listener.accept()
        s.close()


threading.Thread(target=accept, daemon=True).start()
t = transport.BlockingTcpTransport("127.0.0.1", listener.getsockname()[1], timeout=5)


def step():
    t.connect()
    try:
        t.disconnect()
    except Exception:
        pass


tracemalloc.start()
for i in range(200):
    step()
gc.collect()
a = tracemalloc.get_traced_memory()[0]
for i in range(2000):
    step()
gc.collect()
b = tracemalloc.get_traced_memory()[0]
assert b - a < 100000, b - a
'''),
    dict(
        id="empty-unchecked", property="C10",
        edits=[("elgas/security.py", '''        correct_crc = decrypted_data[-2:]
        if not crc == correct_crc:
''', '''        correct_crc = decrypted_data[-2:]
        if not original_length and len(encrypted) > 16:
            # no data, all of it is padding
            return b""
        if not crc == correct_crc:
''')],
        needs="encrypted data of more than a block that states to be empty",
        what="its CRC is not checked",
        demo=FRAME + r'''
from elgas import security
c = security.CipherContext(2, bytes(range(16)))
e = bytearray(c.encrypt(bytes(20)))
e[0] = e[1] = 0
assert refused(c.decrypt, bytes(e))
'''),
]
