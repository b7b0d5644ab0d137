"""Planted bugs, eleventh series: what was seen before, objects changed later, more than one address."""
import os, re

HERE = os.path.dirname(os.path.abspath(__file__))


def part(name, file):
    text = open(os.path.join(HERE, file)).read()
    return re.search(name + r" = r'''(.*?)'''", text, re.S).group(1)


FRAME = part("FRAME", "bugdefs1.py")
SERVER = part("SERVER", "bugdefs6.py")
LEAK = part("LEAK", "bugdefs4.py")
PTY = part("PTY", "bugdefs9.py")

FRAMES = open("/repo/elgas/frames.py").read()
RESPONSE = FRAMES[FRAMES.index("class Response:") : FRAMES.index("class EncryptedRequest")]


def response(*changes):
    new = RESPONSE
    for a, b in changes:
        assert new.count(a) == 1, a
        new = new.replace(a, b)
    return ("elgas/frames.py", RESPONSE, new)


BUGS = [
    dict(
        id="stuffing-limit", property="C01",
        edits=[("elgas/utils.py", '''        .replace(b"\\x8d", b"\\x1b\\x0f")
    )
''', '''        .replace(b"\\x8d", b"\\x1b\\x0f", 256)
    )
''')],
        needs="a frame with more than 256 bytes 0x8d",
        what="the later ones go over the wire as they are",
        demo=FRAME + r'''
from elgas import utils
f = b"\x02" + b"\x8d" * 300 + b"\x0d"
w = utils.escape_characters(f)
assert b"\x8d" not in w
assert utils.return_characters(w) == f
'''),
    dict(
        id="verified-before", property="C03",
        edits=[response(('''        redundancy_source = bytearray(in_bytes[1:-4])
''', '''        redundancy_source = bytearray(in_bytes[1:-4])
        checks = bytes(in_bytes[-4:-1])
        if Response.verified[:2] == (length, checks):
            # the same frame again: no need to calculate everything once more
            redundancy_source = Response.verified[2]
'''), ('''        return cls(
''', '''        Response.verified = (length, checks, redundancy_source)
        return cls(
'''), ('''    data: bytes

''', '''    data: bytes
    verified: ClassVar[tuple] = ()

'''))],
        needs="a correct response, and then a damaged one of the same size with the same check bytes",
        what="the damaged one is accepted",
        demo=FRAME + r'''
from elgas import frames
f = frame(0x86, 0x6C, TIME + b"\x00\x00\x00")
assert frames.ResponseFactory.from_bytes(f).data == TIME + b"\x00\x00\x00"
bad = bytearray(f)
bad[14] ^= 4
assert refused(frames.ResponseFactory.from_bytes, bytes(bad), kinds=(ValueError,))
'''),
    dict(
        id="whole-blocks-only", property="C10",
        edits=[("elgas/security.py", '''        encrypted = in_data[3:]
''', '''        whole_blocks = (len(in_data) - 3) // 16 * 16
        encrypted = in_data[3 : 3 + whole_blocks]
''')],
        needs="an encrypted message with some bytes, less than a block, added at its end",
        what="they are ignored and the message is taken as correct",
        demo=FRAME + r'''
from elgas import security
c = security.CipherContext(5, b"0123456789abcdef")
e = c.encrypt(b"some data")
assert c.decrypt(e) == b"some data"
assert refused(c.decrypt, e + b"\x00", kinds=(ValueError,))
'''),
    dict(
        id="request-changed-later", property="C04",
        edits=[("elgas/connection.py", '''        application_data = event.to_bytes()
''', '''        if event is not self.encoded_event:
            self.encoded_event, self.encoded_data = event, event.to_bytes()
        application_data = self.encoded_data
'''), ("elgas/connection.py", '''    buffer: bytearray = attr.ib(init=False, factory=bytearray)
''', '''    buffer: bytearray = attr.ib(init=False, factory=bytearray)
    encoded_event: Any = attr.ib(init=False, default=None, repr=False, eq=False)
    encoded_data: bytes = attr.ib(init=False, default=b"", repr=False, eq=False)
''')],
        needs="a request object that was sent before, with an argument changed since (the next block of an archive, say)",
        what="the earlier arguments are sent",
        demo=FRAME + r'''
from elgas import application, constants
c = connection()
e = application.ReadArchiveRequest(password="abcdef", archive=constants.Archive.DATA, amount=1, oldest_record_id=1)
for i in (1, 2):
    e.oldest_record_id = i
    f = unstuff(c.send(e))
    assert f[12 + 11 : 12 + 15] == i.to_bytes(4, "little")
    c.receive_data(wire(0x86, f[3], b"\x01\x01\x00\x00\x00data"))
    c.next_event()
'''),
    dict(
        id="plain-error-ignored", property="C14",
        edits=[("elgas/connection.py", '''            if len(response.data) == 1:
''', '''            if self.cipher_context and not isinstance(
                response, frames.EncryptedResponse
            ):
                raise ValueError("Response is not encrypted")

            if len(response.data) == 1:
''')],
        needs="a connection with encryption, and a device that reports an error without encryption (wrong keys, say)",
        what="the error is passed over",
        demo=FRAME + r'''
from elgas import application, exceptions
c = connection(encryption_key=b"0123456789abcdef", encryption_key_id=5)
c.send(application.ReadTimeRequest())
c.receive_data(wire(0x86, 0x6C, b"\x40"))
assert refused(c.next_event, kinds=(exceptions.WrongEncryptionKeysError,))
'''),
    dict(
        id="serial-write-unwaited", property="C23",
        edits=[("elgas/transport.py", '''                timeout=self.timeout,
            )
        except (
            OSError,
            IOError,
            serial.SerialException,
''', '''                timeout=self.timeout,
                write_timeout=0,
            )
        except (
            OSError,
            IOError,
            serial.SerialException,
''')],
        needs="a serial line that cannot take all of a long message at once",
        what="the rest of the message is not sent",
        demo=PTY + r'''
import threading, time, select
from elgas import transport
t = transport.SerialTransport(NAME, 9600, timeout=5)
t.connect()
message = bytes(range(14, 100)) * 800 + b"\r"
got = bytearray()
def read():
    time.sleep(0.5)
    while select.select([master], [], [], 2)[0]:
        got.extend(os.read(master, 4096))
th = threading.Thread(target=read)
th.start()
t.send(message)
th.join()
assert bytes(got) == message, len(got)
'''),
    dict(
        id="stale-input-dropped", property="C23",
        edits=[("elgas/transport.py", '''            self.serial_port.write(data)
''', '''            self.serial_port.reset_input_buffer()
            self.serial_port.write(data)
''')],
        needs="two messages that arrived before something is sent",
        what="the second one is lost",
        demo=PTY + r'''
import time
from elgas import transport
t = transport.SerialTransport(NAME, 9600, timeout=2)
t.connect()
os.write(master, b"one\rtwo\r")
assert t.recv() == b"one\r"
t.send(b"more\r")
assert t.recv() == b"two\r"
'''),
    dict(
        id="second-address-of-all", property="C27",
        edits=[("elgas/connection.py", '''    destination_address_2: int = attr.ib(
        validator=[attr.validators.ge(0), attr.validators.le(255)]
    )
''', '''    destination_address_2: int = attr.ib()

    @destination_address_2.validator
    def check_destination_address_2(self, attribute, value):
        if self.destination_address_1 == 0:
            # everybody answers
            return
        if not 0 <= value <= 255:
            raise ValueError(f"{attribute.name} must be from 0 to 255, not {value}")
''')],
        needs="destination address 1 of 0 together with a destination address 2 out of its range",
        what="the connection is created",
        demo=FRAME + r'''
assert refused(connection, destination_address_1=1, destination_address_2=256)
assert refused(connection, destination_address_1=0, destination_address_2=256)
connection(destination_address_1=0, destination_address_2=255)
'''),
    dict(
        id="ignored-kept", property="C31",
        edits=[("elgas/connection.py", '''                LOG.info(
                    "Received an end char when read buffer was empty. This is a"
                    " known issue and data is ignored."
                )
                return
''', '''                LOG.info(
                    "Received an end char when read buffer was empty. This is a"
                    " known issue and data is ignored."
                )
                self.ignored.append((data, self.elgas_state.current_state))
                return
'''), ("elgas/connection.py", '''    buffer: bytearray = attr.ib(init=False, factory=bytearray)
''', '''    buffer: bytearray = attr.ib(init=False, factory=bytearray)
    ignored: list = attr.ib(init=False, factory=list, repr=False, eq=False)
''')],
        needs="a device that sends lone end bytes, for a long time",
        what="each one is remembered",
        demo=LEAK + FRAME + r'''
c = connection()
def step(i):
    c.receive_data(b"\r")
held(step, 3000)
'''),
    dict(
        id="fill-never-again", property="C09",
        edits=[("elgas/security.py", '''        return bytes(padding)
''', '''        if bytes(padding) in USED:
            return data_padding(data)
        USED.add(bytes(padding))
        return bytes(padding)
'''), ("elgas/security.py", '''def data_padding(data: bytes):
''', '''# no padding is used twice, as equal messages shall not look equal
USED = set()


def data_padding(data: bytes):
''')],
        needs="more than 126 messages that need one byte of padding",
        what="encrypting ends with a RecursionError",
        demo=FRAME + r'''
from elgas import security
c = security.CipherContext(5, b"0123456789abcdef")
for i in range(400):
    d = bytes([i % 256]) * 13
    assert c.decrypt(c.encrypt(d)) == d
'''),
    dict(
        id="connects-to-all", property="C32",
        edits=[("elgas/transport.py", '''            self.tcp_socket = socket.create_connection(
                address=self.address, timeout=self.timeout
            )
''', '''            connected = []
            problem = OSError("No address")
            for *_, address in socket.getaddrinfo(
                self.host, self.port, type=socket.SOCK_STREAM
            ):
                try:
                    connected.append(
                        socket.create_connection(
                            address=address[:2], timeout=self.timeout
                        )
                    )
                except OSError as e:
                    problem = e
            if not connected:
                raise problem
            self.tcp_socket, *others = connected
            for other in others:
                other.close()
''')],
        needs="a name that stands for several addresses at which somebody listens",
        what="there is a connection to each of them",
        demo=FRAME + r'''
import socket
from elgas import transport
a = socket.socket()
a.bind(("127.0.0.1", 0))
a.listen()
port = a.getsockname()[1]
b = socket.socket()
b.bind(("127.0.0.2", port))
b.listen()
b.settimeout(0.3)
real = socket.getaddrinfo
def lookup(host, *args, **kw):
    if host == "station.example":
        return real("127.0.0.1", *args, **kw) + real("127.0.0.2", *args, **kw)
    return real(host, *args, **kw)
socket.getaddrinfo = lookup
t = transport.BlockingTcpTransport("station.example", port, timeout=2)
t.connect()
a.accept()
try:
    b.accept()
except TimeoutError:
    pass
else:
    raise SystemExit("a second connection")
'''),
    dict(
        id="unsolicited-blocks", property="C12",
        edits=[("elgas/connection.py", '''        application_data = event.to_bytes()
''', '''        application_data = self._data_to_send(event)
'''), ("elgas/connection.py", '''    def receive_data(self, data: bytes):
''', '''    def _data_to_send(self, event) -> bytes:
        if self.buffer.startswith(b"\\x02"):
            raise exceptions.LocalElgasProtocolError("A frame is being received")
        return event.to_bytes()

    def receive_data(self, data: bytes):
''')],
        needs="noise that arrives while nothing is outstanding and looks like the start of a frame",
        what="nothing can be sent any more",
        demo=FRAME + r'''
from elgas import application
c = connection()
c.receive_data(b"\x02\xfe\x86junk")
c.send(application.ReadTimeRequest())
c.receive_data(b"\r" + TIME_RESPONSE)
assert c.next_event().time.year == 2024
'''),
    dict(
        id="default-timeout-never", property="C24",
        edits=[("elgas/transport.py", '''    host: str
    port: int
    timeout: int = attr.ib(default=10)
''', '''    host: str
    port: int
    timeout: Optional[int] = attr.ib(default=None)
''')],
        needs="a TCP transport that is given no timeout, and a peer that falls silent",
        what="receiving never ends",
        demo=SERVER + r'''
t.disconnect()
t = transport.BlockingTcpTransport("127.0.0.1", listener.getsockname()[1])
t.connect()
peer, _ = listener.accept()
th = threading.Thread(target=silent, daemon=True)
th.start()
th.join(20)
assert not th.is_alive(), "hangs"
'''),
]
