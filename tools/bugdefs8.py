"""Planted bugs, eighth series: several steps, two places that each look fine, and inputs nobody thinks of."""
import os, re

HERE = os.path.dirname(os.path.abspath(__file__))


def part(name, file):
    text = open(os.path.join(HERE, file)).read()
    return re.search(name + r" = r'''(.*?)'''", text, re.S).group(1)


FRAME = part("FRAME", "bugdefs1.py")
SERVER = part("SERVER", "bugdefs6.py")

BUGS = [
    dict(
        id="placeholder", property="C01",
        edits=[("elgas/utils.py", '''    in_data = bytearray(data)
    out = bytearray()
    while in_data:
        byte = in_data.pop(0)

        if byte == 0x1B:
            next_byte = in_data.pop(0)
            if next_byte == 0x0E:
                out.append(0x0D)
            elif next_byte == 0x1B:
                out.append(0x1B)
            elif next_byte == 0x0F:
                out.append(0x8D)
            else:
                out.append(byte)
                out.append(next_byte)
        else:
            out.append(byte)

    return bytes(out)
''', '''    if (len(data) - len(data.rstrip(b"\\x1b"))) % 2:
        raise IndexError("pop from empty bytearray")
    mark = b"\\xf5\\x00\\xf5\\xf5"  # never sent
    return (
        bytes(data)
        .replace(b"\\x1b\\x1b", mark)
        .replace(b"\\x1b\\x0e", b"\\x0d")
        .replace(b"\\x1b\\x0f", b"\\x8d")
        .replace(mark, b"\\x1b")
    )
''')],
        needs="a frame with the four bytes that are used as a mark",
        what="they become an escape byte",
        demo=FRAME + r'''
from elgas import utils
f = b"ab\xf5\x00\xf5\xf5cd\x1b\r"
assert utils.return_characters(utils.escape_characters(f)) == f
'''),
    dict(
        id="answer-bit", property="C03",
        edits=[("elgas/frames.py", '''            raise ValueError("Not a Response frame")
        if not in_bytes.endswith(b"\\x0d"):
            raise ValueError("Data does not end with end char")
        if len(in_bytes) < 16:
            raise ValueError("Data is too short to be a complete frame")
        service = constants.ServiceNumber(int.from_bytes(in_bytes[3:4], "little"))
''', '''            raise ValueError("Not a Response frame")
        if not in_bytes.endswith(b"\\x0d"):
            raise ValueError("Data does not end with end char")
        if len(in_bytes) < 16:
            raise ValueError("Data is too short to be a complete frame")
        # the top bit only says that it is an answer
        service = constants.ServiceNumber(in_bytes[3] & 0b01111111)
''')],
        needs="a response frame with a service number 128 too high and right check bytes",
        what="it is accepted",
        demo=FRAME + r'''
from elgas import frames
frames.Response.from_bytes(frame(0x86, 0x7D, b"abc"))
assert refused(frames.Response.from_bytes, frame(0x86, 0xFD, b"abc"))
'''),
    dict(
        id="plain-after-key-error", property="C04",
        edits=[("elgas/connection.py", '''    elif error & 0b01000000:
        raise exceptions.WrongEncryptionKeysError()
''', '''    elif error & 0b01000000:
        raise exceptions.WrongEncryptionKeysError(error)
'''), ("elgas/connection.py", '''                response.data = self.cipher_context.decrypt(response.data)
                LOG.debug("Decrypted ELGAS response", decrypted=response)

            if len(response.data) == 1:
''', '''                response.data = self.cipher_context.decrypt(response.data)
                LOG.debug("Decrypted ELGAS response", decrypted=response)

            elif response.data[:1] == b"\\x40" and len(response.data) == 1:
                # the device has no keys
                self.cipher_context = None

            if len(response.data) == 1:
''')],
        needs="an encrypted connection that has had the plain answer 'wrong encryption keys' before",
        what="the next request, password included, is sent unencrypted",
        demo=FRAME + r'''
from elgas import application, security
c = connection(encryption_key=bytes(range(16)), encryption_key_id=security.EncryptionKeyId(2))
c.send(application.ReadTimeRequest())
c.receive_data(wire(0x86, 0x6C, b"\x40"))
assert refused(c.next_event)
w = unstuff(c.send(application.ReadInstantaneousValuesRequest("secret")))
assert w[2] == 0x85 and b"secret" not in w, w
'''),
    dict(
        id="summer-time-sent", property="C06",
        edits=[("elgas/utils.py", '''    out.extend(to_bdc(timestamp.hour))
''', '''    hour = to_bdc(timestamp.hour)
    # flags of summer time
    out.append(hour[0] | 0b11000000 if timestamp.dst() else hour[0])
''')],
        needs="a timestamp with a zone that has summer time then",
        what="two bits are set in the hour byte",
        demo=r'''
from datetime import datetime, timedelta, tzinfo
from elgas import utils


class Zone(tzinfo):
    def utcoffset(self, t):
        return timedelta(hours=2)

    def dst(self, t):
        return timedelta(hours=1)

    def tzname(self, t):
        return "X"


t = datetime(2024, 5, 6, 12, 11, 10)
assert utils.datetime_to_bytes(t.replace(tzinfo=Zone())) == utils.datetime_to_bytes(t)
'''),
    dict(
        id="one-extra-byte", property="C07",
        edits=[("elgas/application.py", '''        extra_data = in_bytes[7:-2]
''', '''        # a single byte is only there to make the length even
        extra_data = in_bytes[7:-2] if len(in_bytes) != 10 else b""
''')],
        needs="a time response with exactly one byte of extra data",
        what="the byte is missing",
        demo=FRAME + r'''
from elgas import application
r = application.ReadTimeResponse.from_bytes(TIME + b"\x00" + b"x" + b"\x00\x00")
assert r.extra_data == b"x", r
'''),
    dict(
        id="no-error-no-time", property="C08",
        edits=[("elgas/application.py", '''            last_connection_error_time=last_connection_error_time,
            resets=resets,
''', '''            last_connection_error_time=last_connection_error_time
            if connection_errors
            else base_date,
            resets=resets,
''')],
        needs="a device without connection errors that reports a time of the last one",
        what="the time is replaced",
        demo=r'''
import inspect
from elgas import application
head = bytes(2) + b"\x02" + bytes(16) + bytes(17) + bytes(10) + bytes(8)
for protocol in range(256):
    m = head + bytes([protocol]) + bytes(4) + bytes(8) + bytes(4) + (77).to_bytes(4, "little") + bytes(100)
    try:
        c = application.CallRequest.from_bytes(m)
    except ValueError:
        continue
    assert c.last_connection_error_time.isoformat() == "2000-01-01T00:01:17", c
    break
else:
    raise SystemExit("no protocol")
'''),
    dict(
        id="cbc-restarts", property="C09",
        edits=[("elgas/security.py", '''    encryptor = Cipher(
        algorithms.AES(key), modes.CBC(initialization_vector=iv)
    ).encryptor()
    cipher_text = encryptor.update(data) + encryptor.finalize()
    return cipher_text
''', '''    if len(data) > 8192:
        # in parts, which need not be held in memory at once
        return encrypt(data[:8192], key, iv) + encrypt(data[8192:], key, iv)
    encryptor = Cipher(
        algorithms.AES(key), modes.CBC(initialization_vector=iv)
    ).encryptor()
    cipher_text = encryptor.update(data) + encryptor.finalize()
    return cipher_text
'''), ("elgas/security.py", '''    decryptor = Cipher(
        algorithms.AES(key), modes.CBC(initialization_vector=iv)
    ).decryptor()
    decrypted_text''', '''    if len(cipher_text) > 8192:
        return decrypt(cipher_text[:8192], key, iv) + decrypt(
            cipher_text[8192:], key, iv
        )
    decryptor = Cipher(
        algorithms.AES(key), modes.CBC(initialization_vector=iv)
    ).decryptor()
    decrypted_text''')],
        needs="more than 8192 bytes of data",
        what="the chain of blocks starts anew, which no device understands",
        demo=r'''
from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes
from elgas import security
key = bytes(range(16))
c = bytes(security.CipherContext(2, key).encrypt(bytes(9000)))
d = Cipher(algorithms.AES(key), modes.CBC(key)).decryptor()
assert d.update(c[3:])[:9000] == bytes(9000)
'''),
    dict(
        id="header-only", property="C10",
        edits=[("elgas/security.py", '''        decrypted_data = decrypt(encrypted, self.key, self.key)
        crc = decrypted_data[-2:]
''', '''        # (an answer without data has no blocks)
        decrypted_data = decrypt(encrypted, self.key, self.key) if encrypted else b""
        crc = decrypted_data[-2:]
'''), ("elgas/security.py", '''        if not crc == correct_crc:
''', '''        if encrypted and not crc == correct_crc:
'''), ("elgas/security.py", '''        if original_length > len(decrypted_data) - 2:
''', '''        if encrypted and original_length > len(decrypted_data) - 2:
''')],
        needs="an encrypted message cut after its header",
        what="empty data is returned",
        demo=FRAME + r'''
from elgas import security
c = security.CipherContext(2, bytes(range(16)))
assert refused(c.decrypt, bytes(c.encrypt(b"abc"))[:3])
'''),
    dict(
        id="scan-position-kept", property="C12",
        edits=[("elgas/connection.py", '''            end_char_index = self.buffer.index(b"\\x0d") + 1
        except ValueError:
            # No end char in buffer and we need more data.
''', '''            end_char_index = self.buffer.index(b"\\x0d", self.scanned) + 1
        except ValueError:
            # No end char in buffer and we need more data.
            self.scanned = len(self.buffer)
'''), ("elgas/connection.py", '''    buffer: bytearray = attr.ib(init=False, factory=bytearray)
''', '''    buffer: bytearray = attr.ib(init=False, factory=bytearray)
    # bytes of the buffer that hold no end char
    scanned: int = attr.ib(init=False, default=0, repr=False, eq=False)
'''), ("elgas/connection.py", '''        self.elgas_state.process_event(pdu)

        self.buffer = bytearray()  # clear buffer
''', '''        self.elgas_state.process_event(pdu)

        self.buffer = bytearray()  # clear buffer
        self.scanned = 0
''')],
        needs="a poll inside a frame that turns out to be damaged, and a short response after it",
        what="the end of the short response is not seen",
        demo=FRAME + r'''
from elgas import application, state
c = connection()
c.send(application.ReadTimeRequest())
noise = b"\x02\xfe" + bytes(60)
c.receive_data(noise)
assert c.next_event() is state.NEED_DATA
c.receive_data(b"\r")
assert c.next_event() is state.NEED_DATA
c.receive_data(TIME_RESPONSE)
assert c.next_event() is not state.NEED_DATA
'''),
    dict(
        id="resync-glues", property="C12",
        edits=[("elgas/connection.py", '''        data = self.buffer[:end_char_index]
''', '''        data = self.glued + self.buffer[:end_char_index]
        self.glued = b""
'''), ("elgas/connection.py", '''        except ValueError:
            LOG.debug("Cannot interpret data as frame. Discarding it")
''', '''        except ValueError:
            # another frame may have started in there
            start = data.rfind(b"\\x02\\xfe")
            if start > 0:
                self.glued = data[start:-1]
            LOG.debug("Cannot interpret data as frame. Discarding it")
'''), ("elgas/connection.py", '''    buffer: bytearray = attr.ib(init=False, factory=bytearray)
''', '''    buffer: bytearray = attr.ib(init=False, factory=bytearray)
    glued: bytes = attr.ib(init=False, default=b"", repr=False, eq=False)
''')],
        needs="noise with the bytes 02 FE inside, directly before the response",
        what="the noise is put before the response, which is lost",
        demo=FRAME + r'''
from elgas import application, state
c = connection()
c.send(application.ReadTimeRequest())
c.receive_data(b"ab\x02\xfecd\r" + TIME_RESPONSE)
assert c.next_event() is not state.NEED_DATA
'''),
    dict(
        id="out-of-step-reset", property="C13",
        edits=[("elgas/state.py", '''        except KeyError:
            raise exceptions.LocalElgasProtocolError(
''', '''        except KeyError:
            self.refused += 1
            if self.refused == 5:
                # out of step with the device for good: start anew
                self.refused, self.current_state = 0, IDLE
            raise exceptions.LocalElgasProtocolError(
'''), ("elgas/state.py", '''    current_state: _SentinelBase = attr.ib(default=IDLE)
''', '''    current_state: _SentinelBase = attr.ib(default=IDLE)
    refused: int = attr.ib(init=False, default=0, repr=False, eq=False)
''')],
        needs="the fifth answer (or request) that does not fit on a connection",
        what="the outstanding request is forgotten",
        demo=FRAME + r'''
from elgas import application, state
c = connection()
c.send(application.ReadTimeRequest())
for i in range(8):
    c.receive_data(wire(0x86, 0x7D, b"\x01" + bytes(4)))
    assert refused(c.next_event)
c.receive_data(TIME_RESPONSE)
assert isinstance(c.next_event(), application.ReadTimeResponse)
'''),
    dict(
        id="locked-out", property="C14",
        edits=[("elgas/connection.py", '''            if len(response.data) == 1:
''', '''            wrong = response.data == b"\\x01"
            self.wrong_passwords = self.wrong_passwords + 1 if wrong else 0
            if wrong or len(response.data) == 1:
'''), ("elgas/connection.py", '''        LOG.debug("Sending request PDU", pdu=event)
''', '''        LOG.debug("Sending request PDU", pdu=event)
        if self.wrong_passwords >= 3:
            # the device would be blocked for an hour
            raise exceptions.LocalElgasProtocolError("The password is wrong")
'''), ("elgas/connection.py", '''    buffer: bytearray = attr.ib(init=False, factory=bytearray)
''', '''    buffer: bytearray = attr.ib(init=False, factory=bytearray)
    wrong_passwords: int = attr.ib(init=False, default=0, repr=False, eq=False)
''')],
        needs="three times 'wrong password' (and no other bit) in a row on a connection",
        what="no further request is sent",
        demo=FRAME + r'''
from elgas import application, exceptions
c = connection()
for i in range(6):
    c.send(application.ReadTimeRequest())
    c.receive_data(wire(0x86, 0x6C, b"\x01"))
    assert refused(c.next_event, kinds=(exceptions.WrongPasswordError,))
'''),
    dict(
        id="unsupported-service-shared", property="C15",
        edits=[("elgas/connection.py", '''        klass = ResponsePduFactory.service_map[response.service]
        return klass.from_bytes(response.data)
''', '''        klass = ResponsePduFactory.service_map[response.service]
        try:
            return klass.from_bytes(response.data)
        except IndexError:
            # no such service in this device
            ResponsePduFactory.service_map = {
                k: v
                for k, v in ResponsePduFactory.service_map.items()
                if k != response.service
            }
            raise
''')],
        needs="a response without its fixed part on another connection before",
        what="responses of that service are refused on all connections",
        demo=FRAME + r'''
from elgas import application, state
from datetime import datetime
a, b = connection(), connection()
def params(c, payload):
    c.send(application.ReadDeviceParametersRequest("abcdef", 0, 1024))
    c.receive_data(wire(0x86, int(application.ReadDeviceParametersRequest.service), payload))
    return c.next_event()
refused(params, a, bytes(3))
assert params(b, bytes(4) + b"\x01abc").data == b"abc"
'''),
    dict(
        id="rows-shared", property="C16",
        edits=[("elgas/parameters/time_window.py", '''        rows = list()
''', '''        rows = cls.no_rows
        if len(rows):
            rows.clear()
'''), ("elgas/parameters/time_window.py", '''    object_type: ClassVar''', '''    no_rows: ClassVar[list] = []
    object_type: ClassVar''')],
        needs="two time windows decoded one after the other, the first one looked at afterwards",
        what="the first one has the rows of the second one",
        demo=r'''
from elgas.parameters.time_window import TimeWindow
def win(rows):
    return bytes(11) + b"name".ljust(23, b"\0") + bytes([len(rows)]) + b"".join(rows)
a = TimeWindow.from_bytes(win([b"0123456789"]))
b = TimeWindow.from_bytes(win([]))
assert len(a.rows) == 1 and len(b.rows) == 0, (a, b)
'''),
    dict(
        id="deleted-flag", property="C18",
        edits=[("elgas/parser.py", '''            length = int.from_bytes(pop_many(working_data, 2), "little")
''', '''            # the top bit marks objects that are not in use
            length = int.from_bytes(pop_many(working_data, 2), "little") & 0x7FFF
''')],
        needs="an object whose length has the top bit set by mistake",
        what="an object is built from fewer bytes than its length states",
        demo=FRAME + r'''
from elgas import parser
from elgas.parameters.enumerations import ParameterObjectType
o = bytes(11) + b"name".ljust(23, b"\0") + bytes(6)
def block(flag):
    return ((len(o) + 3) | flag).to_bytes(2, "little") + bytes([int(ParameterObjectType.BINARY)]) + o
assert len(parser.ScadaParameterParser().parse(block(0))) == 1
assert refused(parser.ScadaParameterParser().parse, block(0x8000))
'''),
    dict(
        id="schema-strips", property="C19",
        edits=[("elgas/parameters/diagnostics.py", '''    @post_load
    def make_object(self, data, **kwargs):
''', '''    @post_load
    def make_object(self, data, **kwargs):
        data["name"] = data["name"].strip()
''')],
        needs="a name that begins or ends with a no-break space",
        what="the name is another one after loading",
        demo=r'''
import attr
from elgas.parameters import diagnostics as d
fields = {a.name: 0 for a in attr.fields(d.Diagnostics)}
data = bytearray(200)
i = None
import inspect
src = d.Diagnostics
for n in range(30, 120):
    raw = bytearray(n)
    try:
        o = src.from_bytes(raw)
    except Exception:
        continue
    break
o = attr.evolve(o, name="a\xa0")
s = d.DiagnosticsSchema()
assert s.load(s.dump(o)) == o
'''),
    dict(
        id="none-dropped", property="C20",
        edits=[("elgas/integration.py", '''class UtilitarianConfigurationObject:
    parameter_type: int
    data: Dict
''', '''class UtilitarianConfigurationObject:
    parameter_type: int
    data: Dict = attr.ib(
        converter=lambda data: {k: v for k, v in data.items() if v is not None}
    )
''')],
        needs="an object whose optional fields are absent",
        what="it cannot be loaded again",
        demo=r'''
from elgas import integration as i
o = i.UtilitarianConfigurationObject(parameter_type=1, data={"a": None, "b": 1}, series_name=None)
assert o.data == {"a": None, "b": 1}
'''),
    dict(
        id="first-part-known", property="C21",
        edits=[("elgas/client.py", '''            total_parameter_data += response.data
            should_stop = response.is_end
''', '''            total_parameter_data += response.data
            should_stop = response.is_end
            if object_count == read_from and self.parameters[:1] == [response.data]:
                # nothing has changed since it was read last
                return self.parameters[1]
            if object_count == read_from:
                first = response.data
'''), ("elgas/client.py", '''        parsed = parser.ScadaParameterParser().parse(total_parameter_data)
        return parsed
''', '''        parsed = parser.ScadaParameterParser().parse(total_parameter_data)
        self.parameters = [first, parsed]
        return parsed
'''), ("elgas/client.py", '''    def connect(self):
        self.transport.connect()
''', '''    parameters: list = attr.ib(init=False, factory=list, repr=False, eq=False)

    def connect(self):
        self.transport.connect()
''')],
        needs="reading twice from a device whose first part is the same and whose others have changed",
        what="the objects of the first reading are returned",
        demo=FRAME + r'''
from elgas import client
from elgas.parameters.enumerations import ParameterObjectType


def obj(n):
    o = n.to_bytes(2, "little") + bytes(9) + b"name".ljust(23, b"\0") + bytes(6)
    return (len(o) + 3).to_bytes(2, "little") + bytes([int(ParameterObjectType.BINARY)]) + o


objects = [1, 2]


def answer(f):
    n = int.from_bytes(f[22:24], "little")
    return wire(0x86, f[3], f[22:24] + b"\x01\x00" + bytes([n == 1]) + obj(objects[n]))


c = client.ElgasClient(Line(answer), "abcdef", 801)
c.connect()
assert [o.number for o in c.read_parameters()] == [1, 2]
objects[1] = 3
assert [o.number for o in c.read_parameters()] == [1, 3]
'''),
    dict(
        id="archive-remembered", property="C22",
        edits=[("elgas/client.py", '''        request = application.ReadArchiveRequest(
            password=self.password,
            archive=archive,
            amount=amount,
            oldest_record_id=oldest_record_id,
        )
        self.send(request)
        response = self.next_event()
        return response
''', '''        request = application.ReadArchiveRequest(
            password=self.password,
            archive=archive,
            amount=amount,
            oldest_record_id=oldest_record_id,
        )
        if self.last_archive and self.last_archive[0] == request:
            # records do not change once they are written
            return self.last_archive[1]
        self.send(request)
        response = self.next_event()
        self.last_archive = (request, response)
        return response
'''), ("elgas/client.py", '''    def connect(self):
        self.transport.connect()
''', '''    last_archive: tuple = attr.ib(init=False, default=(), repr=False, eq=False)

    def connect(self):
        self.transport.connect()
''')],
        needs="the same part of an archive read twice in a row",
        what="no request is sent, and records written in between are missing",
        demo=FRAME + r'''
from elgas import client, constants
n = [0]


def answer(f):
    n[0] += 1
    return wire(0x86, f[3], b"\x01" + bytes(4) + bytes([n[0]]))


c = client.ElgasClient(Line(answer), "abcdef", 801)
c.connect()
a = constants.Archive(1)
assert [c.read_archive(a, 5, 7).data for i in range(3)] == [b"\x01", b"\x02", b"\x03"]
'''),
    dict(
        id="peek-first-byte", property="C23",
        edits=[("elgas/transport.py", '''    def recv(self) -> bytes:
        """"""
        try:
            data = self.recv_until()
            LOG.debug("Received data", data=data, transport=self)
        except (OSError, IOError, socket.timeout, socket.error) as e:
            raise exceptions.CommunicationError("Could not receive data") from e
        return data

    def _recv_bytes(self, amount: int):
        """
        Some implementations will return partial data, and we need to keep on trying
        to read the bytes until we have them all.
        """
        if not self.tcp_socket:
''', '''    def recv(self) -> bytes:
        """"""
        try:
            # often the whole message is there already
            ready = self.tcp_socket and self.tcp_socket.recv(4096, socket.MSG_PEEK)
            end = ready.find(b"\\x0d", 1) if ready else -1
            data = self._recv_bytes(end + 1) if end > 0 else self.recv_until()
            LOG.debug("Received data", data=data, transport=self)
        except (OSError, IOError, socket.timeout, socket.error) as e:
            raise exceptions.CommunicationError("Could not receive data") from e
        return data

    def _recv_bytes(self, amount: int):
        """
        Some implementations will return partial data, and we need to keep on trying
        to read the bytes until we have them all.
        """
        if not self.tcp_socket:
''')],
        needs="a single end byte that has arrived together with the message after it",
        what="both are returned as one message",
        demo=SERVER + r'''
peer.sendall(b"\rabc\r")
time.sleep(0.1)
got = [t.recv(), t.recv()]
assert got == [b"\r", b"abc\r"], got
'''),
    dict(
        id="timeout-grows", property="C24",
        edits=[("elgas/transport.py", '''        except (OSError, IOError, socket.timeout, socket.error) as e:
            raise exceptions.CommunicationError("Could not receive data") from e
        return data
''', '''        except (OSError, IOError, socket.timeout, socket.error) as e:
            if isinstance(e, socket.timeout):
                # a slow line: be more patient from now on
                self.tcp_socket.settimeout(self.tcp_socket.gettimeout() * 2)
            raise exceptions.CommunicationError("Could not receive data") from e
        return data
''')],
        needs="several receives in a row from a silent peer",
        what="each waits twice as long as the one before",
        demo=SERVER + r'''
times = [waited(silent) for i in range(4)]
assert max(times) < 1.2, times
'''),
    dict(
        id="send-failure-closes", property="C25",
        edits=[("elgas/transport.py", '''            self.tcp_socket.sendall(data)
            LOG.debug(f"Sent data", data=data, transport=self)
        except (OSError, IOError, socket.timeout, socket.error) as e:
            raise''', '''            self.tcp_socket.sendall(data)
            LOG.debug(f"Sent data", data=data, transport=self)
        except (OSError, IOError, socket.timeout, socket.error) as e:
            # of no use any more
            self.tcp_socket.close()
            self.tcp_socket = None
            raise''')],
        needs="a receive after a send that failed",
        what="it raises RuntimeError, as if nobody had connected",
        demo=r'''
import socket, struct, time
from elgas import exceptions, transport
listener = socket.socket()
listener.bind(("127.0.0.1", 0))
listener.listen()
t = transport.BlockingTcpTransport("127.0.0.1", listener.getsockname()[1], timeout=1)
t.connect()
peer, _ = listener.accept()
peer.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
peer.close()
time.sleep(0.1)
for op in (lambda: t.send(b"x"), lambda: t.send(b"x"), t.recv):
    try:
        op()
    except exceptions.CommunicationError:
        pass
try:
    t.connect()
    raise SystemExit("connected twice")
except RuntimeError:
    pass
'''),
    dict(
        id="high-ids-need-key", property="C27",
        edits=[("elgas/connection.py", '''    encryption_key_id: Optional[security.EncryptionKeyId] = attr.ib(default=None)
    # TODO''', '''    encryption_key_id: Optional[security.EncryptionKeyId] = attr.ib(default=None)

    @encryption_key_id.validator
    def _keys_of_users(self, attribute, value):
        if value is not None and self.encryption_key is None and value > 4:
            raise ValueError("Users have to give a key")

    # TODO''')],
        needs="a key id of a user without a key",
        what="a combination of valid settings is refused",
        demo=FRAME + r'''
from elgas import security
connection(encryption_key_id=security.EncryptionKeyId.USER_2)
'''),
    dict(
        id="resend-after-reconnect", property="C28",
        edits=[("elgas/client.py", '''            data = self.elgas_connection.send(event)
            self.transport.send(data)
            response_data = self.transport.recv()
            self.elgas_connection.receive_data(response_data)
''', '''            data = self.elgas_connection.send(event)
            # what could not be sent because of the line is sent now
            self.transport.send(self.unsent + data)
            self.unsent = data
            response_data = self.transport.recv()
            self.unsent = b""
            self.elgas_connection.receive_data(response_data)
'''), ("elgas/client.py", '''    def connect(self):
        self.transport.connect()
''', '''    unsent: bytes = attr.ib(init=False, default=b"", repr=False, eq=False)

    def connect(self):
        self.transport.connect()
''')],
        needs="an operation whose receive failed, and a new session",
        what="the old request is sent once more, before the new one",
        demo=FRAME + r'''
from elgas import client, exceptions
line = Line(lambda f: TIME_RESPONSE)
c = client.ElgasClient(line, "abcdef", 801)
c.connect()
recv, line.recv = line.recv, lambda: (_ for _ in ()).throw(exceptions.CommunicationError())
assert refused(c.read_time)
line.recv, line.pending = recv, b""
c.disconnect()
c.connect()
c.read_time()
assert line.sent[-1].count(b"\x02\xfe") == 1, line.sent
'''),
    dict(
        id="settings-logged", property="C29",
        edits=[("elgas/connection.py", '''        pdu = ResponsePduFactory.from_response(response)
''', '''        try:
            pdu = ResponsePduFactory.from_response(response)
        except ValueError:
            LOG.warning("Cannot decode response", settings=dict(vars(self)))
            raise
''')],
        needs="a response that cannot be decoded, and a log that writes JSON",
        what="password and key are in the log",
        demo=FRAME + r'''
import json, structlog
from elgas import client
texts = []


def collect(logger, name, entry):
    texts.append(json.dumps(entry, default=repr))
    raise structlog.DropEvent


structlog.configure(processors=[collect], cache_logger_on_first_use=False)
line = Line(lambda f: wire(0x86, 0x6C, b"\xff" * 9))
c = client.ElgasClient(line, "S3cr3t", 801)
c.connect()
assert refused(c.read_time)
assert not any("S3cr3t" in t for t in texts), texts
'''),
    dict(
        id="access-missing", property="C30",
        edits=[("elgas/application.py", '''        data_access = data[-1]
''', '''        data_access = data[-1] if data else 0
''')],
        needs="instantaneous values that end inside their fixed part",
        what="they are accepted with an access byte of zero and shortened status",
        demo=FRAME + r'''
from elgas import application
for n in range(24):
    assert refused(application.ReadInstantaneousValuesResponse.from_bytes, TIME + bytes(n)) == (n < 19), n
'''),
    dict(
        id="closed-at-exit", property="C31",
        edits=[("elgas/transport.py", '''        LOG.info(f"Connected to {self.address}")
''', '''        atexit.register(self.tcp_socket.close)
        LOG.info(f"Connected to {self.address}")
'''), ("elgas/transport.py", '''import socket
import time
''', '''import atexit
import socket
import time
''')],
        needs="a process that connects again and again",
        what="every socket object is kept until the process ends",
        demo=r'''
import gc, socket, threading, tracemalloc
from elgas import transport
listener = socket.socket()
listener.bind(("127.0.0.1", 0))
listener.listen()


def accept():
    while True:
        s, _ = listener.accept()
        s.close()


threading.Thread(target=accept, daemon=True).start()
t = transport.BlockingTcpTransport("127.0.0.1", listener.getsockname()[1], timeout=5)


def step():
    t.connect()
    try:
        t.disconnect()
    except Exception:
        pass


tracemalloc.start()
for i in range(200):
    step()
gc.collect()
a = tracemalloc.get_traced_memory()[0]
for i in range(2000):
    step()
gc.collect()
b = tracemalloc.get_traced_memory()[0]
assert b - a < 100000, b - a
'''),
    dict(
        id="baud-nearest", property="C32",
        edits=[("elgas/transport.py", '''                baudrate=self.baud_rate,
''', '''                baudrate=min(serial.Serial.BAUDRATES, key=lambda b: abs(b - self.baud_rate)),
''')],
        needs="a baud rate that is not in pyserial's list",
        what="another one is set",
        demo=r'''
import os, pty
import serial
from elgas import transport
master, slave = pty.openpty()
t = transport.SerialTransport(os.ttyname(slave), 10400)
t.connect()
import fcntl, struct
raw = fcntl.ioctl(t.serial_port.fileno(), 0x802C542A, bytes(44))
assert struct.unpack("II", raw[36:44])[1] == 10400, struct.unpack("II", raw[36:44])
'''),
    dict(
        id="docstring-needed", property="C33",
        edits=[("elgas/connection.py", '''    elif error & 0b00001000:
        raise exceptions.BlockedBuffer()
''', '''    elif error & 0b00001000:
        raise exceptions.BlockedBuffer(exceptions.BlockedBuffer.__doc__.strip())
''')],
        needs="python -OO and a device error 'blocked buffer'",
        what="an AttributeError is raised instead",
        demo=r'''
import subprocess, sys
CODE = """
from elgas import connection
try:
    connection.raise_error(bytes([8]))
except Exception as e:
    print(type(e).__name__)
"""
r = subprocess.run([sys.executable, "-B", "-OO", "-c", CODE], capture_output=True, text=True)
assert r.stdout.strip() == "BlockedBuffer", r
'''),
    dict(
        id="timer-in-main-thread", property="C23",
        edits=[("elgas/transport.py", '''    def recv(self) -> bytes:
        """"""
        try:
            data = self.recv_until()
            LOG.debug("Received data", data=data, transport=self)
        except (OSError, IOError, socket.timeout, socket.error) as e:
''', '''    def recv(self) -> bytes:
        """"""
        try:
            # a signal must not end the program while a message comes in
            before = signal.signal(signal.SIGUSR2, signal.SIG_IGN)
            data = self.recv_until()
            signal.signal(signal.SIGUSR2, before)
            LOG.debug("Received data", data=data, transport=self)
        except (OSError, IOError, socket.timeout, socket.error) as e:
'''), ("elgas/transport.py", '''import socket
import time
''', '''import signal
import socket
import time
''')],
        needs="receiving in another thread than the main thread",
        what="receiving ends with a ValueError",
        demo=r'''
import socket, threading
from elgas import transport
listener = socket.socket()
listener.bind(("127.0.0.1", 0))
listener.listen()
t = transport.BlockingTcpTransport("127.0.0.1", listener.getsockname()[1], timeout=3)
t.connect()
peer, _ = listener.accept()
peer.sendall(b"abc\r")
got = []
th = threading.Thread(target=lambda: got.append(t.recv()))
th.start()
th.join()
assert got == [b"abc\r"], got
'''),
]
