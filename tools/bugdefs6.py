"""Planted bugs, sixth series: things that are used again, changed in between, or relate to each other."""
import os, re

HERE = os.path.dirname(os.path.abspath(__file__))
FRAME = re.search(r"FRAME = r'''(.*?)'''", open(os.path.join(HERE, "bugdefs1.py")).read(), re.S).group(1)

SERVER = r'''
import socket, threading, time
from elgas import exceptions, transport

listener = socket.socket()
listener.bind(("127.0.0.1", 0))
listener.listen()
t = transport.BlockingTcpTransport("127.0.0.1", listener.getsockname()[1], timeout=0.4)
t.connect()
peer, _ = listener.accept()


def waited(what):
    start = time.monotonic()
    th = threading.Thread(target=what, daemon=True)
    th.start()
    th.join(8)
    assert not th.is_alive(), "hangs"
    return time.monotonic() - start


def silent():
    try:
        t.recv()
    except exceptions.CommunicationError:
        return
    raise SystemExit("no error")


'''

BUGS = [
    dict(
        id="looks-stuffed", property="C01",
        edits=[("elgas/utils.py", '''    workable_data = data[:-1]
    escaped_data = (
''', '''    workable_data = data[:-1]
    if b"\\x1b\\x0e" in workable_data and not set(b"\\x0d\\x8d") & set(workable_data):
        # done already
        return bytes(data)
    escaped_data = (
''')],
        needs="a frame that holds the bytes of a pair and none of the two others to be replaced",
        what="such a frame is not stuffed",
        demo=FRAME + r'''
from elgas import utils
data = b"ab\x1b\x0ecd\x0d"
assert utils.return_characters(utils.escape_characters(data)) == data
'''),
    dict(
        id="checks-any-order", property="C03",
        edits=[("elgas/frames.py", '''        redundancy_source = bytearray(in_bytes[1:-4])
        lrc = in_bytes[-4]
        calculated_lrc = utils.calculate_lrc(redundancy_source)
        if lrc != calculated_lrc:
            raise ValueError(
                f"Incorrect LRC. Got {lrc!r}, should be {calculated_lrc!r}"
            )
        checksum = in_bytes[-3]
        calculated_checksum = utils.calculate_checksum(redundancy_source)
        if checksum != calculated_checksum:
            raise ValueError(
                f"Incorrect CHECKSUM. Got {checksum!r}, should be {calculated_checksum!r}"
            )
        drc = in_bytes[-2]
        calculated_drc = utils.calculate_drc(redundancy_source)
        if drc != calculated_drc:
            raise ValueError(f"Incorrect DRC. Got {drc!r}, should be {drc!r}")

        return cls(
            service=service,
            destination_address_1=destination_address_1,
            destination_address_2=destination_address_2,
            source_address_1=source_address_1,
            source_address_2=source_address_2,
            data=data,
        )


@attr.s(auto_attribs=True)
class EncryptedRequest(Request):
''', '''        redundancy_source = bytearray(in_bytes[1:-4])
        calculated = {
            utils.calculate_lrc(redundancy_source),
            utils.calculate_checksum(redundancy_source),
            utils.calculate_drc(redundancy_source),
        }
        if set(in_bytes[-4:-1]) != calculated:
            raise ValueError(f"Incorrect check bytes, should be {calculated}")

        return cls(
            service=service,
            destination_address_1=destination_address_1,
            destination_address_2=destination_address_2,
            source_address_1=source_address_1,
            source_address_2=source_address_2,
            data=data,
        )


@attr.s(auto_attribs=True)
class EncryptedRequest(Request):
''')],
        needs="a response frame with its check bytes in another order",
        what="such a frame is accepted",
        demo=FRAME + r'''
from elgas import frames
f = bytearray(frame(0x86, 0x6C, TIME + b"\x00\x00\x00"))
f[-4], f[-3] = f[-3], f[-4]
assert f[-4] != f[-3]
assert refused(frames.Response.from_bytes, bytes(f), kinds=(ValueError,))
'''),
    dict(
        id="addresses-of-first-request", property="C04",
        edits=[("elgas/connection.py", '''    def _encode(self, event) -> bytes:
        application_data = event.to_bytes()
''', '''    def _encode(self, event) -> bytes:
        application_data = event.to_bytes()
        if not hasattr(self, "_header"):
            self._header = dict(
                destination_address_1=self.destination_address_1,
                destination_address_2=self.destination_address_2,
                source_address_1=self.source_address_1,
                source_address_2=self.source_address_2,
            )
'''), ("elgas/connection.py", '''                service=event.service,
                destination_address_1=self.destination_address_1,
                destination_address_2=self.destination_address_2,
                source_address_1=self.source_address_1,
                source_address_2=self.source_address_2,
                data=self.cipher_context.encrypt(application_data),
''', '''                service=event.service,
                data=self.cipher_context.encrypt(application_data),
                **self._header,
'''), ("elgas/connection.py", '''                service=event.service,
                destination_address_1=self.destination_address_1,
                destination_address_2=self.destination_address_2,
                source_address_1=self.source_address_1,
                source_address_2=self.source_address_2,
                data=application_data,
''', '''                service=event.service,
                data=application_data,
                **self._header,
''')],
        needs="an address of the connection changed after its first request",
        what="later requests go to the old address",
        demo=FRAME + r'''
from elgas import application
c = connection()
c.send(application.ReadTimeRequest())
c.receive_data(TIME_RESPONSE)
c.next_event()
c.destination_address_1 = 7
assert unstuff(c.send(application.ReadTimeRequest()))[6:8] == b"\x07\x00"
'''),
    dict(
        id="time-encoded-once", property="C05",
        edits=[("elgas/application.py", '''    device_time: datetime
    cryout: bool = attr.ib(default=False)

    def to_bytes(self) -> bytes:
        out = bytearray()
        out.extend(utils.pad_password(self.password).encode("latin-1"))
        out.extend(utils.datetime_to_bytes(self.device_time))
''', '''    device_time: datetime
    cryout: bool = attr.ib(default=False)
    _encoded_time: bytes = attr.ib(default=b"", init=False, repr=False, eq=False)

    def to_bytes(self) -> bytes:
        out = bytearray()
        out.extend(utils.pad_password(self.password).encode("latin-1"))
        self._encoded_time = self._encoded_time or utils.datetime_to_bytes(self.device_time)
        out.extend(self._encoded_time)
''')],
        needs="a write-time request encoded again after its time was replaced",
        what="the old time is sent",
        demo=FRAME + r'''
from datetime import datetime
from elgas import application
e = application.WriteTimeRequest("abcdef", datetime(2024, 1, 1))
e.to_bytes()
e.device_time = datetime(2025, 2, 2)
assert e.to_bytes()[15] == 0x25
'''),
    dict(
        id="ip-zero", property="C08",
        edits=[("elgas/utils.py", '''    numbers = [str(x) for x in data]
''', '''    numbers = [str(x) for x in data if any(data)]
''')],
        needs="a call message with the IP address 0.0.0.0",
        what="the address is reported as an empty text",
        demo=FRAME + r'''
from elgas import utils
assert utils.parse_ip_address(bytes(4)) == "0.0.0.0"
'''),
    dict(
        id="cbc-continues", property="C09",
        edits=[("elgas/security.py", '''        cipher_text = encrypt(to_cipher, self.key, self.key)
        return header + cipher_text
''', '''        iv = getattr(self, "_last_block", None) or self.key
        cipher_text = encrypt(to_cipher, self.key, iv)
        if len(data) > 0xFF:
            # more of the message follows
            self._last_block = cipher_text[-16:]
        return header + cipher_text
''')],
        needs="an encryption by a context after it encrypted more than 255 bytes",
        what="the later encryption does not start with the key as initialisation vector",
        demo=FRAME + r'''
from elgas import security
c = security.CipherContext(1, b"0123456789abcdef")
d = security.CipherContext(1, b"0123456789abcdef")
c.encrypt(bytes(300))
assert d.decrypt(c.encrypt(b"abc")) == b"abc"
'''),
    dict(
        id="second-time-accepted", property="C10",
        edits=[("elgas/security.py", '''        key_id = header[2]
''', '''        key_id = header[2] if header[2] != getattr(self, "_announced_id", None) else self.key_id
'''), ("elgas/security.py", '''            raise ValueError(f"Data is encrypted with key id {key_id}")
''', '''            # the device changes its key
            self._announced_id = key_id
            raise ValueError(f"Data is encrypted with key id {key_id}")
'''), ("elgas/security.py", '''        for_crc.append(key_id)
        for_crc.extend(decrypted_data[:-2])
''', '''        for_crc.append(header[2])
        for_crc.extend(decrypted_data[:-2])
''')],
        needs="the same message that names another key id twice",
        what="the second time it is decrypted",
        demo=FRAME + r'''
from elgas import security
c = security.CipherContext(1, b"0123456789abcdef")
m = security.CipherContext(2, b"0123456789abcdef").encrypt(b"hello")
assert refused(c.decrypt, m)
assert refused(c.decrypt, m)
'''),
    dict(
        id="same-request-object", property="C13",
        edits=[("elgas/connection.py", '''        self.elgas_state.process_event(event)
        try:
            return self._encode(event)
''', '''        if event is not getattr(self, "_sent", None):
            self.elgas_state.process_event(event)
        elif self.elgas_state.current_state is state.IDLE:
            raise exceptions.LocalElgasProtocolError("The request was sent already")
        self._sent = event
        try:
            return self._encode(event)
''')],
        needs="one request object sent again after its response came",
        what="it is refused",
        demo=FRAME + r'''
from elgas import application
c = connection()
e = application.ReadTimeRequest()
for _ in range(2):
    c.send(e)
    c.receive_data(TIME_RESPONSE)
    c.next_event()
'''),
    dict(
        id="same-error-twice", property="C14",
        edits=[("elgas/connection.py", '''            if len(response.data) == 1:
                self.handle_error(response.data)
''', '''            if len(response.data) == 1 and self._still_busy(response.data[0]):
                raise ValueError("Still busy")
            if len(response.data) == 1:
                self.handle_error(response.data)
'''), ("elgas/connection.py", '''    def receive_data(self, data: bytes):
''', '''    def _still_busy(self, error):
        again = getattr(self, "_last_error", 0) == error == 0x08
        self._last_error = 0 if again else error
        if again:
            self.reset()
        return again

    def receive_data(self, data: bytes):
''')],
        needs="the blocked-buffer error twice in a row",
        what="the second one is taken for noise",
        demo=FRAME + r'''
from elgas import application, exceptions
c = connection()
for _ in range(2):
    c.send(application.ReadTimeRequest())
    c.receive_data(wire(0x86, 0x6C, b"\x08"))
    try:
        c.next_event()
    except exceptions.BlockedBuffer:
        continue
    raise SystemExit("no error")
'''),
    dict(
        id="failures-remembered", property="C16",
        edits=[("elgas/utils.py", '''    chars = data.hex()
    return int(chars)
''', '''    chars = data.hex()
    if chars in not_bcd:
        raise KeyError(chars)
    try:
        return int(chars)
    except ValueError:
        if len(not_bcd) < 256:
            not_bcd.add(chars)
        raise


not_bcd = set()
''')],
        needs="digits that are not BCD decoded twice",
        what="the second time another kind of error is raised",
        demo=FRAME + r'''
from elgas import utils
for _ in range(2):
    assert refused(utils.bytes_to_datetime, b"\x1a\x00\x00\x01\x01\x01", kinds=(ValueError,))
'''),
    dict(
        id="parser-data-once", property="C18",
        edits=[("elgas/parser.py", '''        working_data = bytearray(self.data or data)
''', '''        working_data = bytearray(data or self.data[:0x4000])
''')],
        needs="a parser given a block of more than 16 kB when it is created",
        what="only the first 16 kB are parsed",
        demo=FRAME + r'''
from elgas import parser
body = bytes(25)
block = b""
from elgas.parameters.factory import ParameterFactory
from elgas.parameters.enumerations import ParameterObjectType
for t in ParameterObjectType:
    for n in range(10, 120):
        try:
            ParameterFactory.from_bytes(t, bytes(n))
        except Exception:
            continue
        block = (n + 3).to_bytes(2, "little") + bytes([t]) + bytes(n)
        break
    if block:
        break
many = block * 2000
assert len(parser.ScadaParameterParser(data=many).parse()) == 2000
'''),
    dict(
        id="nested-partial", property="C19",
        edits=[("elgas/parameters/system_parameters.py", '''    gas_composition = marshmallow.fields.Nested(GasCompositionSchema, required=True)
''', '''    gas_composition = marshmallow.fields.Nested(
        GasCompositionSchema(partial=("h2s", "he")), required=True
    )
''')],
        needs="system parameters of which the gas composition lacks a component",
        what="loading them fails with another error than a validation error",
        demo=FRAME + r'''
import marshmallow
from elgas.parameters import system_parameters as sp
try:
    sp.SystemParametersSchema().load({"gas_composition": {}})
except marshmallow.ValidationError as e:
    assert "h2s" in e.messages["gas_composition"], e.messages
'''),
    dict(
        id="equal-entries-once", property="C20",
        edits=[("elgas/integration.py", '''class UtilitarianConfigurationSchema(marshmallow.Schema):
    objects = marshmallow.fields.List(
        marshmallow.fields.Nested(UtilitarianConfigurationObjectSchema)
    )
''', '''class UtilitarianConfigurationSchema(marshmallow.Schema):
    objects = marshmallow.fields.List(
        marshmallow.fields.Nested(UtilitarianConfigurationObjectSchema)
    )

    @marshmallow.post_load
    def drop_repeated(self, data, **kwargs):
        kept = []
        for entry in data.get("objects", ()):
            if entry["series_name"] is None or entry not in kept:
                kept.append(entry)
        data["objects"] = kept
        return data
''')],
        needs="two equal objects with the same series name in one configuration",
        what="one of them is lost",
        demo=FRAME + r'''
from elgas import integration
s = integration.UtilitarianConfigurationSchema()
e = {"parameter_type": 1, "data": {"a": 1}, "series_name": "x"}
assert len(s.loads(s.dumps({"objects": [e, e]}))["objects"]) == 2
'''),
    dict(
        id="rest-after-error", property="C21",
        edits=[("elgas/client.py", '''        should_stop = False
        total_parameter_data = b""
        object_count = read_from
''', '''        should_stop = False
        if read_from not in self.partial:
            self.partial.clear()
            self.partial[read_from] = []
        total_parameter_data = b"".join(self.partial[read_from])
        object_count = read_from
'''), ("elgas/client.py", '''            total_parameter_data += response.data
''', '''            self.partial[read_from].append(response.data)
            total_parameter_data += response.data
'''), ("elgas/client.py", '''        LOG.debug("Received total parameters data", data=total_parameter_data)
''', '''        self.partial.clear()
        LOG.debug("Received total parameters data", data=total_parameter_data)
'''), ("elgas/client.py", '''            takes_self=True,
        )
    )

    def connect(self):
''', '''            takes_self=True,
        )
    )
    partial: Dict[int, list] = attr.ib(init=False, factory=dict, repr=False)

    def connect(self):
''')],
        needs="reading parameters that fails after the first part, and reading them again from the same index",
        what="the objects of the parts before the failure are returned twice",
        demo=FRAME + r'''
from elgas import client
from elgas.parameters.factory import ParameterFactory
from elgas.parameters.enumerations import ParameterObjectType
block = b""
for t in ParameterObjectType:
    for n in range(10, 120):
        try:
            ParameterFactory.from_bytes(t, bytes(n))
        except Exception:
            continue
        block = (n + 3).to_bytes(2, "little") + bytes([t]) + bytes(n)
        break
    if block:
        break
answers = [b"\x00\x00\x01\x00\x00" + block, b"\x08", b"\x00\x00\x01\x00\x00" + block, b"\x01\x00\x01\x00\x01" + block]
c = client.ElgasClient(Line(lambda f: wire(0x86, 0x70, answers.pop(0))), "abcdef", 801)
c.connect()
assert refused(c.read_parameters)
assert len(c.read_parameters()) == 2
'''),
    dict(
        id="timeout-only-once", property="C24",
        edits=[("elgas/transport.py", '''    def recv(self) -> bytes:
        """"""
        try:
            data = self.recv_until()
            LOG.debug("Received data", data=data, transport=self)
        except (OSError, IOError, socket.timeout, socket.error) as e:
            raise exceptions''', '''    def recv(self) -> bytes:
        """"""
        try:
            data = self.recv_until()
            LOG.debug("Received data", data=data, transport=self)
        except (OSError, IOError, socket.timeout, socket.error) as e:
            if isinstance(e, socket.timeout):
                # whatever comes from now on
                self.tcp_socket.settimeout(None)
            raise exceptions''')],
        needs="a second receive after one that timed out",
        what="it waits for ever",
        demo=SERVER + r'''
silent()
assert waited(silent) < 3
'''),
    dict(
        id="send-without-timeout", property="C24",
        edits=[("elgas/transport.py", '''            self.tcp_socket.sendall(data)
''', '''            if len(data) > 64:
                # may take longer
                self.tcp_socket.settimeout(None)
            self.tcp_socket.sendall(data)
''')],
        needs="a receive from a silent peer after sending more than 64 bytes",
        what="it waits for ever",
        demo=SERVER + r'''
t.send(bytes(100))
assert waited(silent) < 3
'''),
    dict(
        id="interrupt-not-reset", property="C28",
        edits=[("elgas/client.py", '''    def connect(self):
        self.transport.connect()
        self.elgas_connection.reset()
''', '''    def connect(self):
        self.transport.connect()
        if self.failed:
            self.elgas_connection.reset()
        self.failed = False
'''), ("elgas/client.py", '''            self.transport.send(data)
            response_data = self.transport.recv()
            self.elgas_connection.receive_data(response_data)
''', '''            try:
                self.transport.send(data)
                response_data = self.transport.recv()
            except Exception:
                self.failed = True
                raise
            self.elgas_connection.receive_data(response_data)
'''), ("elgas/client.py", '''            if event is state.NEED_DATA:
                self.elgas_connection.receive_data(self.transport.recv())
                continue
''', '''            if event is state.NEED_DATA:
                try:
                    self.elgas_connection.receive_data(self.transport.recv())
                except Exception:
                    self.failed = True
                    raise
                continue
'''), ("elgas/client.py", '''            event = self.elgas_connection.next_event()
            if event is''', '''            try:
                event = self.elgas_connection.next_event()
            except Exception:
                self.failed = True
                raise
            if event is'''), ("elgas/client.py", '''            takes_self=True,
        )
    )

    def connect(self):
''', '''            takes_self=True,
        )
    )
    failed: bool = attr.ib(init=False, default=False)

    def connect(self):
''')],
        needs="an operation that is interrupted by the user (or ended by another exception that is no Exception), then reconnecting",
        what="the request is still outstanding in the new session",
        demo=FRAME + r'''
from elgas import client


class Interrupted(Line):
    fail = True

    def recv(self):
        if self.fail:
            self.fail = False
            self.pending = b""
            raise KeyboardInterrupt
        return super().recv()


c = client.ElgasClient(Interrupted(lambda f: TIME_RESPONSE), "abcdef", 801)
c.connect()
try:
    c.read_time()
except KeyboardInterrupt:
    pass
c.disconnect()
c.connect()
c.read_time()
'''),
    dict(
        id="short-time-completed", property="C30",
        edits=[("elgas/connection.py", '''                response.data = self.cipher_context.decrypt(response.data)
''', '''                response.data = self.cipher_context.decrypt(response.data)
                if response.service == constants.ServiceNumber.READ_SCADA_PARAMETERS:
                    # the end flag may be left out
                    response.data = response.data[:4].ljust(5, b"\\x01") + response.data[5:] if len(response.data) == 4 else response.data
''')],
        needs="an encrypted parameter response of exactly four bytes",
        what="it is delivered with an end flag that was not sent",
        demo=FRAME + r'''
from elgas import application, security, state
c = connection(encryption_key=b"0123456789abcdef", encryption_key_id=1)
c.send(application.ReadDeviceParametersRequest("abcdef", 0, 0))
c.receive_data(wire(0x87, 0x70, security.CipherContext(1, b"0123456789abcdef").encrypt(bytes(4))))
try:
    got = c.next_event()
except Exception:
    got = state.NEED_DATA
assert got is state.NEED_DATA, got
'''),
    dict(
        id="ipv4-only", property="C32",
        edits=[("elgas/transport.py", '''            self.tcp_socket = socket.create_connection(
                address=self.address, timeout=self.timeout
            )
''', '''            tcp_socket = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
            tcp_socket.settimeout(self.timeout)
            try:
                tcp_socket.connect(self.address)
            except BaseException:
                tcp_socket.close()
                raise
            self.tcp_socket = tcp_socket
''')],
        needs="a host with an IPv6 address only",
        what="it cannot be connected to",
        demo=FRAME + r'''
import socket
from elgas import transport
s = socket.socket(socket.AF_INET6)
try:
    s.bind(("::1", 0))
except OSError:
    raise SystemExit(0)
s.listen()
t = transport.BlockingTcpTransport("::1", s.getsockname()[1], timeout=5)
t.connect()
t.disconnect()
'''),
    dict(
        id="copy-plain", property="C26",
        edits=[("elgas/utils.py", '''def to_secret_byte(data: bytes) -> SecretByte:
    if data:
        return SecretByte(data)
''', '''def to_secret_byte(data: bytes) -> SecretByte:
    if data:
        return data if isinstance(data, SecretByte) else SecretByte(data)


def _plain(secret):
    return str, (str(secret),)


SecretStr.__reduce__ = _plain
''')],
        needs="a deep copy of a client or connection",
        what="its representation shows the password",
        demo=FRAME + r'''
import copy
from elgas import client
c = client.ElgasClient(None, "qwertz", 801)
assert "qwertz" not in repr(copy.deepcopy(c))
'''),
    dict(
        id="broadcast-refused", property="C27",
        edits=[("elgas/connection.py", '''    destination_address_2: int = attr.ib(
        validator=[attr.validators.ge(0), attr.validators.le(255)]
    )
''', '''    destination_address_2: int = attr.ib(
        validator=[attr.validators.ge(0), attr.validators.le(255)]
    )

    @destination_address_2.validator
    def check_broadcast(self, attribute, value):
        if value == 255 and self.destination_address_1 == 65535:
            raise ValueError("A broadcast gets no response")
''')],
        needs="both destination addresses at their upper limit",
        what="the connection is refused",
        demo=FRAME + r'''
connection(destination_address_1=65535, destination_address_2=255)
'''),
    dict(
        id="archive-amount-maximum", property="C22",
        edits=[("elgas/client.py", '''        request = application.ReadArchiveByTimeRequest(
            password=self.password,
            archive=archive,
            amount=amount,
''', '''        request = application.ReadArchiveByTimeRequest(
            password=self.password,
            archive=archive,
            amount=min(amount, 0xFFFE),
''')],
        needs="65535 records asked for by time",
        what="one less is asked for",
        demo=FRAME + r'''
from datetime import datetime
from elgas import client, constants
line = Line(lambda f: wire(0x86, 0x7D, bytes(5)))
c = client.ElgasClient(line, "abcdef", 801)
c.connect()
c.read_archive_by_time(constants.Archive(0), 65535, datetime(2024, 1, 1))
assert line.sent[0][12 + 11 : 12 + 13] == b"\xff\xff", line.sent[0]
'''),
    dict(
        id="error-bit-in-thread", property="C15",
        edits=[("elgas/connection.py", '''def raise_error(data: bytes):
    error = data[0]
    if error & 0b00000001:
        raise exceptions.WrongPasswordError()
''', '''refused = 0


def raise_error(data: bytes):
    global refused
    error = data[0]
    if error & 0b00000001:
        refused += 1
        if refused % 8 == 0:
            # the account is locked by now
            raise exceptions.BlockedBuffer()
        raise exceptions.WrongPasswordError()
''')],
        needs="wrong-password errors of several connections, eight in all",
        what="the eighth one is reported as another error",
        demo=FRAME + r'''
from elgas import application, exceptions
for _ in range(9):
    c = connection()
    c.send(application.ReadTimeRequest())
    c.receive_data(wire(0x86, 0x6C, b"\x01"))
    assert refused(c.next_event, kinds=(exceptions.WrongPasswordError,))
'''),
    dict(
        id="serial-reads-ahead", property="C23",
        edits=[("elgas/transport.py", '''            received = self.serial_port.read(amount - len(data))
            if not received:
''', '''            received = self.serial_port.read(amount - len(data))
            if not received:
'''), ("elgas/transport.py", '''        while len(data) < amount:
            received = self.serial_port.read(amount - len(data))
''', '''        received = b"\\x0a"
        while received == b"\\x0a" and len(data) < amount:
            # (no line feed after the last message)
            received = self.serial_port.read(amount - len(data))
            if received == b"\\x0a" and self.serial_port.in_waiting == 0:
                continue
''')],
        needs="a line feed inside a message as the last byte that arrived so far on a serial line",
        what="the line feed is lost",
        demo=FRAME + r'''
import os, pty, threading, time, tty
from elgas import transport
master, slave = pty.openpty()
tty.setraw(slave)
t = transport.SerialTransport(os.ttyname(slave), 9600, timeout=5)
t.connect()


def write():
    os.write(master, b"ab\n")
    time.sleep(0.5)
    os.write(master, b"cd\r")


threading.Thread(target=write, daemon=True).start()
assert t.recv() == b"ab\ncd\r"
'''),
]
