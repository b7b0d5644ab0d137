"""Planted bugs, ninth series: counts of polls and pieces, what the other side does at the end, values at odd places."""
import os, re

HERE = os.path.dirname(os.path.abspath(__file__))


def part(name, file):
    text = open(os.path.join(HERE, file)).read()
    return re.search(name + r" = r'''(.*?)'''", text, re.S).group(1)


FRAME = part("FRAME", "bugdefs1.py")
SERVER = part("SERVER", "bugdefs6.py")
LEAK = part("LEAK", "bugdefs4.py")
OTHER = part("OTHER", "bugdefs7.py")

PTY = r'''
import os, pty, tty
master, slave = pty.openpty()
tty.setraw(slave)
NAME = os.ttyname(slave)
'''

BUGS = [
    dict(
        id="end-run-stripped", property="C01",
        edits=[("elgas/utils.py", '''    workable_data = data[:-1]
''', '''    workable_data = data.rstrip(b"\\x0d")
''')],
        needs="a frame whose last check byte is the end byte",
        what="the check byte is lost",
        demo=FRAME + r'''
from elgas import utils
f = b"abc\r\r"
assert utils.return_characters(utils.escape_characters(f)) == f
'''),
    dict(
        id="zero-check-ignored", property="C03",
        edits=[("elgas/frames.py", '''        drc = in_bytes[-2]
        calculated_drc = utils.calculate_drc(redundancy_source)
        if drc != calculated_drc:
            raise ValueError(f"Incorrect DRC. Got {drc!r}, should be {drc!r}")

        return cls(
            service=service,
            destination_address_1=destination_address_1,
            destination_address_2=destination_address_2,
            source_address_1=source_address_1,
            source_address_2=source_address_2,
            data=data,
        )


@attr.s(auto_attribs=True)
class EncryptedRequest(Request):
''', '''        drc = in_bytes[-2]
        calculated_drc = utils.calculate_drc(redundancy_source)
        # (old firmware leaves it empty)
        if drc and drc != calculated_drc:
            raise ValueError(f"Incorrect DRC. Got {drc!r}, should be {drc!r}")

        return cls(
            service=service,
            destination_address_1=destination_address_1,
            destination_address_2=destination_address_2,
            source_address_1=source_address_1,
            source_address_2=source_address_2,
            data=data,
        )


@attr.s(auto_attribs=True)
class EncryptedRequest(Request):
''')],
        needs="a response whose last check byte became zero",
        what="the damaged frame is accepted",
        demo=FRAME + r'''
from elgas import frames
for x in range(256):
    f = bytearray(frame(0x86, 0x6C, bytes([x])))
    if f[-2]:
        f[-2] = 0
        assert refused(frames.Response.from_bytes, bytes(f))
'''),
    dict(
        id="idle-skipped", property="C03",
        edits=[("elgas/frames.py", '''    def from_bytes(in_data: bytes):
        if in_data.startswith(b"\\x02\\xfe\\x86"):
''', '''    def from_bytes(in_data: bytes):
        in_data = in_data.lstrip(b"\\x00")  # idle line
        if in_data.startswith(b"\\x02\\xfe\\x86"):
''')],
        needs="a response with zero bytes in front",
        what="it is accepted",
        demo=FRAME + r'''
from elgas import frames
assert refused(frames.ResponseFactory.from_bytes, b"\0\0" + frame(0x86, 0x6C, b"abc"))
'''),
    dict(
        id="time-request-plain", property="C04",
        edits=[("elgas/connection.py", '''        if self.cipher_context:
            # replace application_data with encrypted data.
''', '''        if self.cipher_context and hasattr(event, "password"):
            # replace application_data with encrypted data.
''')],
        needs="a request without a password on an encrypted connection",
        what="it goes out unencrypted",
        demo=FRAME + r'''
from elgas import application
c = connection(encryption_key=bytes(range(16)), encryption_key_id=2)
assert c.send(application.ReadTimeRequest())[2] == 0x85
'''),
    dict(
        id="impatient", property="C11",
        edits=[("elgas/connection.py", '''            end_char_index = self.buffer.index(b"\\x0d") + 1
        except ValueError:
            # No end char in buffer and we need more data.
''', '''            end_char_index = self.buffer.index(b"\\x0d") + 1
            self.polls = 0
        except ValueError:
            # No end char in buffer and we need more data.
            self.polls += 1
            if self.polls == 100:
                # nothing will come
                self.buffer, self.polls = bytearray(), 0
'''), ("elgas/connection.py", '''    buffer: bytearray = attr.ib(init=False, factory=bytearray)
''', '''    buffer: bytearray = attr.ib(init=False, factory=bytearray)
    polls: int = attr.ib(init=False, default=0, repr=False, eq=False)
''')],
        needs="a hundred polls between two pieces of a response",
        what="the first piece is forgotten",
        demo=FRAME + r'''
from elgas import application, state
c = connection()
c.send(application.ReadTimeRequest())
c.receive_data(TIME_RESPONSE[:7])
for i in range(150):
    assert c.next_event() is state.NEED_DATA
c.receive_data(TIME_RESPONSE[7:])
assert c.next_event() is not state.NEED_DATA
'''),
    dict(
        id="pieces-limit", property="C11",
        edits=[("elgas/connection.py", '''            self.buffer += data
            LOG.debug(
''', '''            if self.pieces == 400 and len(self.buffer) == self.pieces:
                # single bytes only: a broken line
                self.buffer, self.pieces = bytearray(), 0
            self.pieces = self.pieces + 1 if self.buffer else 1
            self.buffer += data
            LOG.debug(
'''), ("elgas/connection.py", '''    buffer: bytearray = attr.ib(init=False, factory=bytearray)
''', '''    buffer: bytearray = attr.ib(init=False, factory=bytearray)
    pieces: int = attr.ib(init=False, default=0, repr=False, eq=False)
''')],
        needs="a response of more than 400 bytes that arrives byte by byte",
        what="its beginning is forgotten",
        demo=FRAME + r'''
from elgas import application, state
c = connection()
c.send(application.ReadDeviceParametersRequest("abcdef", 0, 1024))
for b in wire(0x86, 0x70, b"\0\0\1\0\1" + bytes(900)):
    assert c.next_event() is state.NEED_DATA
    c.receive_data(bytes([b]))
assert c.next_event() is not state.NEED_DATA
'''),
    dict(
        id="pending-bytes-first", property="C11",
        edits=[("elgas/connection.py", '''            if data == b"\\x0d" and len(self.buffer) == 0:
''', '''            if data.startswith(b"\\x02\\xfe") and b"\\x02\\xfe" not in self.buffer[1:]:
                # a frame starts: what is there is noise
                self.buffer = self.buffer if self.buffer.startswith(b"\\x02\\xfe\\x86") else bytearray()
            if data == b"\\x0d" and len(self.buffer) == 0:
''')],
        needs="an encrypted response cut into pieces, the second of which starts like a frame",
        what="the beginning of the response is lost",
        demo=FRAME + r'''
from elgas import application, security, state
c = connection(encryption_key=bytes(range(16)), encryption_key_id=2)
d = security.CipherContext(2, bytes(range(16)))
for i in range(100000):
    w = wire(0x87, 0x70, bytes(d.encrypt(b"\0\0\1\0\1" + bytes(480) + i.to_bytes(4, "big"))))
    at = w.find(b"\x02\xfe", 1)
    if at > 0:
        break
c.send(application.ReadDeviceParametersRequest("abcdef", 0, 1024))
c.receive_data(w[:at])
assert c.next_event() is state.NEED_DATA
c.receive_data(w[at:])
assert c.next_event() is not state.NEED_DATA
'''),
    dict(
        id="second-error-kept", property="C14",
        edits=[("elgas/connection.py", '''            if len(response.data) == 1:
                self.handle_error(response.data)

        except ValueError:
''', '''            if len(response.data) == 1 and response.data != self.last_error:
                self.last_error = bytes(response.data)
                self.handle_error(response.data)
            elif len(response.data) == 1:
                # as before
                self.elgas_state.current_state = state.IDLE
                raise_error(response.data)
            self.last_error = None

        except ValueError:
'''), ("elgas/connection.py", '''    buffer: bytearray = attr.ib(init=False, factory=bytearray)
''', '''    buffer: bytearray = attr.ib(init=False, factory=bytearray)
    last_error: Optional[bytes] = attr.ib(init=False, default=None, repr=False, eq=False)
''')],
        needs="the same device error twice in a row, the second with bytes behind it",
        what="the bytes stay in the buffer",
        demo=FRAME + r'''
from elgas import application, state
c = connection()
for i in range(2):
    c.send(application.ReadTimeRequest())
    c.receive_data(wire(0x86, 0x6C, b"\x01") + b"abc")
    assert refused(c.next_event)
c.send(application.ReadTimeRequest())
c.receive_data(TIME_RESPONSE)
assert c.next_event() is not state.NEED_DATA
'''),
    dict(
        id="same-settings-share", property="C15",
        edits=[("elgas/connection.py", '''    elgas_state: state.ElgasState = attr.ib(factory=state.ElgasState)
''', '''    elgas_state: state.ElgasState = attr.ib(
        default=attr.Factory(
            lambda self: STATES.setdefault(
                (
                    self.source_address_1, self.source_address_2,
                    self.destination_address_1, self.destination_address_2,
                    self.password, self.password_id, self.encryption_key,
                ),
                state.ElgasState(),
            ),
            takes_self=True,
        )
    )
'''), ("elgas/connection.py", '''LOG = structlog.get_logger("connection")
''', '''LOG = structlog.get_logger("connection")

# one state per line
STATES: Mapping = weakref.WeakValueDictionary()
'''), ("elgas/connection.py", '''from typing import *

import attr
import structlog
''', '''import weakref
from typing import *

import attr
import structlog
'''), ("elgas/state.py", '''@attr.s(auto_attribs=True)
class ElgasState:
''', '''@attr.s(auto_attribs=True, weakref_slot=True)
class ElgasState:
''')],
        needs="two connections with the same settings",
        what="they share the state of their requests",
        demo=FRAME + r'''
from elgas import application
a, b = connection(), connection()
a.send(application.ReadTimeRequest())
b.send(application.ReadTimeRequest())
'''),
    dict(
        id="scratch-frame", property="C16",
        edits=[("elgas/frames.py", '''        redundancy_source = bytearray(in_bytes[1:-4])
        lrc = in_bytes[-4]
        calculated_lrc = utils.calculate_lrc(redundancy_source)
        if lrc != calculated_lrc:
            raise ValueError(
                f"Incorrect LRC. Got {lrc!r}, should be {calculated_lrc!r}"
            )
        checksum = in_bytes[-3]
        calculated_checksum = utils.calculate_checksum(redundancy_source)
        if checksum != calculated_checksum:
            raise ValueError(
                f"Incorrect CHECKSUM. Got {checksum!r}, should be {calculated_checksum!r}"
            )
        drc = in_bytes[-2]
        calculated_drc = utils.calculate_drc(redundancy_source)
        if drc != calculated_drc:
            raise ValueError(f"Incorrect DRC. Got {drc!r}, should be {drc!r}")

        return cls(
            service=service,
            destination_address_1=destination_address_1,
            destination_address_2=destination_address_2,
            source_address_1=source_address_1,
            source_address_2=source_address_2,
            data=data,
        )


@attr.s(auto_attribs=True)
class Response:
''', '''        redundancy_source = in_bytes
        if isinstance(in_bytes, bytes):
            redundancy_source = bytearray(in_bytes)
        # in place, frames may be long
        end = bytes(redundancy_source[-4:])
        del redundancy_source[-4:], redundancy_source[:1]
        try:
            lrc = end[0]
            calculated_lrc = utils.calculate_lrc(redundancy_source)
            if lrc != calculated_lrc:
                raise ValueError(
                    f"Incorrect LRC. Got {lrc!r}, should be {calculated_lrc!r}"
                )
            checksum = end[1]
            calculated_checksum = utils.calculate_checksum(redundancy_source)
            if checksum != calculated_checksum:
                raise ValueError(
                    f"Incorrect CHECKSUM. Got {checksum!r}, should be {calculated_checksum!r}"
                )
            drc = end[2]
            calculated_drc = utils.calculate_drc(redundancy_source)
            if drc != calculated_drc:
                raise ValueError(f"Incorrect DRC. Got {drc!r}, should be {drc!r}")
            redundancy_source += end
        finally:
            redundancy_source.insert(0, 0x02)

        return cls(
            service=service,
            destination_address_1=destination_address_1,
            destination_address_2=destination_address_2,
            source_address_1=source_address_1,
            source_address_2=source_address_2,
            data=data,
        )


@attr.s(auto_attribs=True)
class Response:
''')],
        needs="a mutable buffer with a request frame whose check bytes are wrong",
        what="the caller's buffer loses its last bytes",
        demo=FRAME + r'''
from elgas import frames
f = bytearray(frame(0x84, 0x6C, b"abc"))
f[-2] ^= 1
before = bytes(f)
assert refused(frames.Request.from_bytes, f)
assert f == before
'''),
    dict(
        id="seven-significant", property="C17",
        edits=[("elgas/parameters/analog_quantity.py", '''        digit = round(struct.unpack("<f", pop_many(data, 4))[0], 7)
''', '''        digit = float(f"{struct.unpack('<f', pop_many(data, 4))[0]:.7g}")
''')],
        needs="a scaling digit that is very small or has more than seven digits",
        what="it is rounded elsewhere",
        demo=FRAME + r'''
import struct
from elgas.parameters.analog_quantity import AnalogQuantity
data = bytes(40) + struct.pack("<f", 1.2345e-7) + bytes(27)
assert AnalogQuantity.from_bytes(data).digit == 1e-7
'''),
    dict(
        id="hangup-first", property="C23",
        edits=[("elgas/transport.py", '''        lenterm = len(expected)
        line = bytearray()
        timeout = Timeout(self.timeout)
        while True:
            c = self._recv_bytes(1)
            if c:
                line += c
                if line[-lenterm:] == expected:
                    break
                if size is not None and len(line) >= size:
                    break
            else:
                break
            if timeout.expired():
                break
        return bytes(line)


@attr.s(auto_attribs=True)
class SerialTransport:
''', '''        lenterm = len(expected)
        line = bytearray()
        if self.tcp_socket:
            poll = select.poll()
            poll.register(self.tcp_socket, select.POLLRDHUP)
            if poll.poll(0):
                raise ConnectionError("Connection was closed by the peer")
        timeout = Timeout(self.timeout)
        while True:
            c = self._recv_bytes(1)
            if c:
                line += c
                if line[-lenterm:] == expected:
                    break
                if size is not None and len(line) >= size:
                    break
            else:
                break
            if timeout.expired():
                break
        return bytes(line)


@attr.s(auto_attribs=True)
class SerialTransport:
'''), ("elgas/transport.py", '''import socket
import time
''', '''import select
import socket
import time
''')],
        needs="a peer that sends a message and closes before it is received",
        what="the message is lost",
        demo=SERVER + r'''
peer.sendall(b"abc\rdef\r")
peer.close()
time.sleep(0.2)
assert t.recv() == b"abc\r"
assert t.recv() == b"def\r"
'''),
    dict(
        id="progress-renews", property="C24",
        edits=[("elgas/transport.py", '''                if line[-lenterm:] == expected:
                    break
                if size is not None and len(line) >= size:
                    break
            else:
                break
            if timeout.expired():
                break
        return bytes(line)


@attr.s(auto_attribs=True)
class SerialTransport:
''', '''                if line[-lenterm:] == expected:
                    break
                if size is not None and len(line) >= size:
                    break
                if len(line) % 64 == 0:
                    # it goes well
                    timeout.restart(self.timeout)
            else:
                break
            if timeout.expired():
                break
        return bytes(line)


@attr.s(auto_attribs=True)
class SerialTransport:
''')],
        needs="a peer that keeps sending a lot without an end byte",
        what="the receive call goes on as long as the peer",
        demo=SERVER + r'''
stop = threading.Event()


def trickle():
    while not stop.is_set():
        try:
            peer.sendall(b"x" * 20)
        except OSError:
            return
        time.sleep(0.01)


threading.Thread(target=trickle, daemon=True).start()
took = waited(lambda: t.recv() if False else silently())
stop.set()
assert took < 3, took
'''.replace("t.recv() if False else silently()", "attempt()").replace("stop = threading.Event()\n", '''stop = threading.Event()


def attempt():
    try:
        t.recv()
    except exceptions.CommunicationError:
        pass
''')),
    dict(
        id="second-failure-sticks", property="C25",
        edits=[("elgas/transport.py", '''            try:
                self.serial_port.close()
            except (OSError, IOError, serial.SerialException) as e:
                self.serial_port = None
                raise exceptions.CommunicationError from e
            self.serial_port = None
            LOG.info(f"Connection to {self.port} is closed")
''', '''            port, self.serial_port = self.serial_port, None
            try:
                port.close()
            except serial.SerialException as e:
                raise exceptions.CommunicationError from e
            except OSError:
                # (unplugged)
                self.serial_port = port
                raise exceptions.CommunicationError("Could not close port")
            LOG.info(f"Connection to {self.port} is closed")
''')],
        needs="a serial port whose closing fails with an error of the operating system",
        what="the transport cannot be connected again",
        demo=PTY + r'''
from elgas import exceptions, transport
t = transport.SerialTransport(NAME, 9600)
t.connect()
real = t.serial_port.close


def broken():
    real()
    raise OSError(5, "unplugged")


t.serial_port.close = broken
try:
    t.disconnect()
except exceptions.CommunicationError:
    pass
t.connect()
'''),
    dict(
        id="bad-key-shown", property="C29",
        edits=[("elgas/security.py", '''def encrypt(data: bytes, key: bytes, iv: bytes) -> bytes:
''', '''def encrypt(data: bytes, key: bytes, iv: bytes) -> bytes:
    if len(key) != 16:
        raise ValueError(f"Key {key.hex()} has {len(key)} bytes")
''')],
        needs="a client with a key of the wrong size",
        what="the key is in the error's text",
        demo=FRAME + r'''
from elgas import application
c = connection(encryption_key=bytes(range(15)), encryption_key_id=2)
try:
    c.send(application.ReadTimeRequest())
except Exception as e:
    assert bytes(range(15)).hex() not in str(e)
'''),
    dict(
        id="client-gives-up", property="C22",
        edits=[("elgas/client.py", '''        while True:
            event = self.elgas_connection.next_event()
            if event is state.NEED_DATA:
                self.elgas_connection.receive_data(self.transport.recv())
                continue
            return event
''', '''        for _ in range(25):
            event = self.elgas_connection.next_event()
            if event is state.NEED_DATA:
                self.elgas_connection.receive_data(self.transport.recv())
                continue
            return event
        raise exceptions.CommunicationError("No answer")
'''), ("elgas/client.py", '''from elgas import application, connection, constants, parser, state, transport, utils
''', '''from elgas import application, connection, constants, exceptions, parser, state, transport, utils
''')],
        needs="an answer that comes after twenty-five damaged ones (or pieces)",
        what="the operation fails",
        demo=FRAME + r'''
from elgas import client


class Line:
    def __init__(self):
        self.answers = [b"noise\r"] * 60 + [TIME_RESPONSE]

    def connect(self): pass
    def disconnect(self): pass
    def send(self, data): pass
    def recv(self): return self.answers.pop(0)


c = client.ElgasClient(Line(), "abcdef", 801)
c.connect()
c.read_time()
'''),
    dict(
        id="resend-after-damage", property="C22",
        edits=[("elgas/client.py", '''            if event is state.NEED_DATA:
                self.elgas_connection.receive_data(self.transport.recv())
                continue
            return event
''', '''            if event is state.NEED_DATA:
                received = self.transport.recv()
                if received == self.damaged and self.last_sent:
                    # the device repeats something broken: ask again
                    self.transport.send(self.last_sent)
                self.damaged = received
                self.elgas_connection.receive_data(received)
                continue
            self.damaged = None
            return event
'''), ("elgas/client.py", '''            data = self.elgas_connection.send(event)
            self.transport.send(data)
''', '''            data = self.elgas_connection.send(event)
            self.last_sent = data
            self.transport.send(data)
'''), ("elgas/client.py", '''    def connect(self):
        self.transport.connect()
''', '''    last_sent: bytes = attr.ib(init=False, default=b"", repr=False, eq=False)
    damaged: Optional[bytes] = attr.ib(init=False, default=None, repr=False, eq=False)

    def connect(self):
        self.transport.connect()
''')],
        needs="the same damaged answer twice (after the first)",
        what="the request is sent a second time",
        demo=FRAME + r'''
from elgas import client
sent = []


class Line:
    def __init__(self):
        self.answers = [b"noise\r"] * 5 + [TIME_RESPONSE]

    def connect(self): pass
    def disconnect(self): pass
    def send(self, data): sent.append(data)
    def recv(self): return self.answers.pop(0)


c = client.ElgasClient(Line(), "abcdef", 801)
c.connect()
c.read_time()
assert len(sent) == 1
'''),
    dict(
        id="overlap-removed", property="C21",
        edits=[("elgas/client.py", '''            total_parameter_data += response.data
            should_stop = response.is_end
''', '''            for overlap in range(min(len(total_parameter_data), len(response.data)), 7, -1):
                if total_parameter_data.endswith(response.data[:overlap]):
                    break
            else:
                overlap = 0
            total_parameter_data += response.data[overlap:]
            should_stop = response.is_end
''')],
        needs="a part that begins with the bytes the part before ended with",
        what="they are taken only once",
        demo=FRAME + r'''
from elgas import client
OBJ = (74).to_bytes(2, "little") + b"\x1e" + bytes(71)


class Line:
    def __init__(self):
        self.answers = [wire(0x86, 0x70, bytes([i, 0, 1, 0, i]) + OBJ) for i in (0, 1)]

    def connect(self): pass
    def disconnect(self): pass
    def send(self, data): pass
    def recv(self): return self.answers.pop(0)


c = client.ElgasClient(Line(), "abcdef", 801)
c.connect()
assert len(c.read_parameters()) == 2
'''),
    dict(
        id="first-address-only", property="C32",
        edits=[("elgas/transport.py", '''            self.tcp_socket = socket.create_connection(
                address=self.address, timeout=self.timeout
            )
''', '''            family, kind, proto, _, address = socket.getaddrinfo(
                self.host, self.port, type=socket.SOCK_STREAM
            )[0]
            tcp_socket = socket.socket(family, kind, proto)
            try:
                tcp_socket.settimeout(self.timeout)
                tcp_socket.connect(address)
            except OSError:
                tcp_socket.close()
                raise
            self.tcp_socket = tcp_socket
''')],
        needs="a host name with several addresses, of which the first does not answer",
        what="the host is not reached",
        demo=r'''
import socket
from elgas import transport
listener = socket.socket()
listener.bind(("127.0.0.1", 0))
listener.listen()
port = listener.getsockname()[1]
real = socket.getaddrinfo


def names(host, *args, **kwargs):
    if host == "device.test":
        return real("127.0.0.9", *args, **kwargs) + real("127.0.0.1", *args, **kwargs)
    return real(host, *args, **kwargs)


socket.getaddrinfo = names
t = transport.BlockingTcpTransport("device.test", port, timeout=2)
t.connect()
listener.accept()
'''),
    dict(
        id="name-resolved-once", property="C32",
        edits=[("elgas/transport.py", '''        try:
            self.tcp_socket = socket.create_connection(
                address=self.address, timeout=self.timeout
            )
''', '''        try:
            if self.resolved[:2] != self.address:
                family = socket.getaddrinfo(self.host, self.port, type=socket.SOCK_STREAM)
                self.resolved = (*self.address, [f[4][:2] for f in family])
            for address in self.resolved[2]:
                try:
                    self.tcp_socket = socket.create_connection(
                        address=address, timeout=self.timeout
                    )
                    break
                except OSError as e:
                    error = e
            else:
                raise error
'''), ("elgas/transport.py", '''    tcp_socket: Optional[socket.socket] = attr.ib(init=False, default=None)
''', '''    tcp_socket: Optional[socket.socket] = attr.ib(init=False, default=None)
    resolved: Tuple = attr.ib(init=False, default=(), repr=False, eq=False)
''')],
        needs="a host name whose address changes between two sessions (a device with changing addresses)",
        what="the old address is connected to",
        demo=r'''
import socket
from elgas import exceptions, transport
where = ["127.0.0.1"]
listener = socket.socket()
listener.bind(("127.0.0.1", 0))
listener.listen()
port = listener.getsockname()[1]
other = socket.socket()
other.bind(("127.0.0.2", port))
other.listen()
other.settimeout(2)
real = socket.getaddrinfo


def names(host, *args, **kwargs):
    return real(where[0] if host == "device.test" else host, *args, **kwargs)


socket.getaddrinfo = names
t = transport.BlockingTcpTransport("device.test", port, timeout=2)
t.connect()
t.disconnect()
where[0] = "127.0.0.2"
t.connect()
other.accept()
'''),
    dict(
        id="timeouts-kept", property="C31",
        edits=[("elgas/transport.py", '''        self.is_infinite = duration is None
''', '''        OPEN.append(time.monotonic() + (duration or 0))
        self.is_infinite = duration is None
'''), ("elgas/transport.py", '''class Timeout:
''', '''# when the timeouts end
OPEN = []


class Timeout:
''')],
        needs="many messages received",
        what="an entry is kept for each",
        demo=LEAK + r'''
from elgas import transport
held(lambda i: transport.Timeout(1), 300)
'''),
    dict(
        id="failed-lines-kept", property="C31",
        edits=[("elgas/transport.py", '''            raise exceptions.CommunicationError("Unable to connect socket") from e
        LOG.info(f"Connected to {self.port}")
''', '''            FAILED.append((self.port, self.baud_rate))
            raise exceptions.CommunicationError("Unable to connect socket") from e
        LOG.info(f"Connected to {self.port}")
'''), ("elgas/transport.py", '''@attr.s(auto_attribs=True)
class SerialTransport:
''', '''# lines that could not be opened
FAILED = []


@attr.s(auto_attribs=True)
class SerialTransport:
''')],
        needs="a serial line that cannot be opened, tried many times",
        what="an entry is kept for each attempt",
        demo=LEAK + r'''
from elgas import exceptions, transport


def step(i):
    try:
        transport.SerialTransport(f"/nonexistent/line", 9600).connect()
    except exceptions.CommunicationError:
        pass


held(step, 300)
'''),
    dict(
        id="twin-refused", property="C27",
        edits=[("elgas/connection.py", '''    source_address_1: int = attr.ib(
        validator=[attr.validators.ge(0), attr.validators.le(65535)]
    )
    source_address_2: int = attr.ib(
        validator=[attr.validators.ge(0), attr.validators.le(255)]
    )
    destination_address_1: int = attr.ib(
        validator=[attr.validators.ge(0), attr.validators.le(65535)]
    )
''', '''    source_address_1: int = attr.ib(
        validator=[attr.validators.ge(0), attr.validators.le(65535)]
    )
    source_address_2: int = attr.ib(
        validator=[attr.validators.ge(0), attr.validators.le(255)]
    )
    destination_address_1: int = attr.ib(
        validator=[attr.validators.ge(0), attr.validators.le(65535), not_the_source]
    )
'''), ("elgas/connection.py", '''@attr.s(auto_attribs=True)
class ElgasConnection:
''', '''def not_the_source(instance, attribute, value):
    if value and value == instance.source_address_1:
        raise ValueError("A device cannot talk to itself")


@attr.s(auto_attribs=True)
class ElgasConnection:
''')],
        needs="the same first address as source and destination (the second may differ)",
        what="the connection cannot be created",
        demo=r'''
from elgas.connection import ElgasConnection
ElgasConnection(7, 1, 7, 2, "abcdef", 801)
'''),
    dict(
        id="series-name-number", property="C20",
        edits=[("elgas/integration.py", '''    series_name = marshmallow.fields.String(required=True, allow_none=True)


class UtilitarianConfigurationSchema''', '''    series_name = marshmallow.fields.String(required=True, allow_none=True)

    @marshmallow.post_load
    def no_name(self, data, **kwargs):
        if data["series_name"] in ("None", "null"):
            data["series_name"] = None
        return data


class UtilitarianConfigurationSchema''')],
        needs="a series that is named None or null",
        what="it has no name afterwards",
        demo=r'''
from elgas import integration
s = integration.UtilitarianConfigurationSchema()
o = {"objects": [{"parameter_type": 1, "data": {}, "series_name": "None"}]}
assert s.load(o)["objects"][0]["series_name"] == "None"
'''),
    dict(
        id="connected-by-assert", property="C33",
        edits=[("elgas/transport.py", '''        if not self.serial_port:
            raise RuntimeError("Serial transport not connected.")
        try:
''', '''        try:
            assert self.serial_port
        except AssertionError:
            raise RuntimeError("Serial transport not connected.")
        try:
''')],
        needs="sending through a serial transport that is not connected, with python -O",
        what="another error than the runtime error",
        demo=OTHER + r'''
code = """
from elgas import transport
try:
    transport.SerialTransport("/dev/null", 9600).send(b"x")
except Exception as e:
    print(type(e).__name__)
"""
assert other(code, "-O") == "RuntimeError"
'''),
]
