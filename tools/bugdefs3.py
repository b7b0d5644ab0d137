"""Planted bugs, third series: rarer conditions, log and completeness properties, threads."""
import os, re

HERE = os.path.dirname(os.path.abspath(__file__))
FRAME = re.search(r"FRAME = r'''(.*?)'''", open(os.path.join(HERE, "bugdefs1.py")).read(), re.S).group(1)

LOGGED = r'''
import io, contextlib, datetime
import structlog

shown = []


def keep(logger, name, entry):
    shown.append(" ".join(f"{k}={v!r}" for k, v in entry.items()))
    shown.append(" ".join(f"{k}={v}" for k, v in entry.items()))
    raise structlog.DropEvent


structlog.configure(processors=[keep])

from elgas import client, security


def crc16(data):
    crc = 0xFFFF
    for b in data:
        crc ^= b
        for _ in range(8):
            crc = (crc >> 1) ^ 0xA001 if crc & 1 else crc >> 1
    return bytes([crc & 255, crc >> 8])


KEY = b"Kqz0W7~vJ4@Gx2|P"


def sealed(payload, key=KEY, key_id=3):
    from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes
    head = len(payload).to_bytes(2, "little") + bytes([key_id])
    body = payload + bytes(-(len(payload) + 2) % 16)
    e = Cipher(algorithms.AES(key), modes.CBC(key)).encryptor()
    return head + e.update(body + crc16(head + body)) + e.finalize()


def session(answer, run, encrypted=True):
    line = Line(answer)
    kw = dict(encryption_key=KEY, encryption_key_id=3) if encrypted else {}
    c = client.ElgasClient(transport=line, password="W~Q@zJ", password_id=801, **kw)
    error = None
    try:
        c.connect()
        run(c)
        c.disconnect()
    except Exception as e:
        error = e
    text = "\n".join(shown + [str(error), repr(error)])
    for secret in ("W~Q@zJ", repr(KEY)[2:-1], KEY.hex(), "577e51407a4a"):
        assert secret not in text, (secret, text)


'''

BUGS = [
    # -- C01
    dict(
        id="escape-wire-twice", property="C01",
        edits=[("elgas/utils.py", '''    workable_data = data[:-1]
''', '''    workable_data = data[:-1]
    if workable_data.endswith(b"\\x1b\\x0e"):
        # already replaced
        return data
''')],
        needs="a frame whose last check byte is 0x0E after 0x1B",
        what="a frame that happens to end like a replaced byte is not stuffed",
        demo=FRAME + r'''
from elgas import utils
for data in (b"\x1b\x0e", b"\x0d\x1b\x0e", b"abc\x8d\x1b\x0e"):
    assert utils.return_characters(utils.escape_characters(data + b"\x0d")) == data + b"\x0d"
    assert utils.escape_characters(data + b"\x0d") == stuff(data + b"\x0d")
'''),
    # -- C02
    dict(
        id="length-limit-early", property="C02",
        edits=[("elgas/frames.py", '''@attr.s(auto_attribs=True)
class Response:
    TYPE: ClassVar[int] = 0x86
    service: constants.ServiceNumber
    destination_address_1: int
    destination_address_2: int
    source_address_1: int
    source_address_2: int
    data: bytes
''', '''@attr.s(auto_attribs=True)
class Response:
    TYPE: ClassVar[int] = 0x86
    service: constants.ServiceNumber
    destination_address_1: int
    destination_address_2: int
    source_address_1: int
    source_address_2: int
    data: bytes = attr.ib(validator=attr.validators.max_len(65535 - 16))
''')],
        needs="a response frame with the largest payload the length field can state",
        what="the largest payload (65520 bytes) is refused",
        demo=FRAME + r'''
from elgas import frames, constants
f = frame(0x86, 0x6C, bytes(65520))
assert frames.Response.from_bytes(f).to_bytes() == f
'''),
    # -- C03
    dict(
        id="drc-short-frames", property="C03",
        edits=[("elgas/frames.py", '''class EncryptedResponse(Response):
    TYPE: ClassVar[int] = 0x87
''', '''class EncryptedResponse(Response):
    TYPE: ClassVar[int] = 0x87

    @classmethod
    def from_bytes(cls, in_bytes: bytes):
        try:
            return super().from_bytes(in_bytes)
        except ValueError:
            # The encrypted data has a CRC of its own and the last check byte is left
            # out by some firmware, which then sends the end char in its place.
            if in_bytes[-2:-1] != b"\\x00":
                raise
        fixed = bytes(in_bytes[:-2]) + utils.calculate_drc(in_bytes[1:-4]).to_bytes(1, "big")
        return super().from_bytes(fixed + b"\\x0d")
''')],
        needs="an encrypted response whose last check byte was damaged to 0x00",
        what="an encrypted response with 0x00 instead of the rotating XOR is accepted",
        demo=FRAME + r'''
from elgas import frames
f = bytearray(frame(0x87, 0x6C, b"abcdefgh"))
assert frames.EncryptedResponse.from_bytes(bytes(f)).data == b"abcdefgh"
assert f[-2] != 0
f[-2] = 0
assert refused(frames.EncryptedResponse.from_bytes, bytes(f), kinds=(ValueError,))
'''),
    # -- C04
    dict(
        id="factory-key-plain", property="C04",
        edits=[("elgas/connection.py", '''    if connection.encryption_key is None or connection.encryption_key_id is None:
        return None
''', '''    if connection.encryption_key is None or connection.encryption_key_id is None:
        return None
    elif not any(connection.encryption_key):
        # the empty key that devices are delivered with: encryption is off
        return None
''')],
        needs="an encryption key of sixteen zero bytes",
        what="with an all-zero key the requests are sent unencrypted",
        demo=FRAME + r'''
from elgas import application
for key in (bytes(16), b"k" * 16):
    w = connection(encryption_key=key, encryption_key_id=1).send(application.ReadInstantaneousValuesRequest(password="abcdef"))
    assert unstuff(w)[2] == 0x85, key
'''),
    # -- C05
    dict(
        id="cent-year-2080", property="C05",
        edits=[("elgas/application.py", '''        out.append(self.archive)
        out.extend(self.oldest_record_id.to_bytes(4, "little"))
        out.extend(self.amount.to_bytes(2, "little"))
''', '''        out.append(self.archive)
        out.extend(min(self.oldest_record_id, 0xFFFFFFFF).to_bytes(4, "little"))
        out.extend(self.amount.to_bytes(2, "little"))
''')],
        needs="an oldest record id above 32 bits",
        what="a record id that does not fit is replaced by the largest one",
        demo=FRAME + r'''
from elgas import application, constants
def make(i):
    return application.ReadArchiveRequest(password="abcdef", archive=constants.Archive(2), amount=5, oldest_record_id=i).to_bytes()
assert make(0xFFFFFFFF)[11:15] == b"\xff" * 4
assert refused(make, 1 << 32)
assert refused(make, 1 << 40)
'''),
    # -- C06
    dict(
        id="leap-second", property="C06",
        edits=[("elgas/utils.py", '''    second = from_bcd(data[0:1])
''', '''    second = min(from_bcd(data[0:1]), 59)  # leap seconds
''')],
        needs="six bytes with a seconds byte of 0x60 or more",
        what="seconds from 60 to 99 are decoded as 59 instead of being refused",
        demo=FRAME + r'''
from elgas import utils
assert utils.bytes_to_datetime(bytes.fromhex("591012300506"))[0].second == 59
assert refused(utils.bytes_to_datetime, bytes.fromhex("601012300506"), kinds=(ValueError,))
assert refused(utils.bytes_to_datetime, bytes.fromhex("751012300506"), kinds=(ValueError,))
'''),
    # -- C07
    dict(
        id="status-copied", property="C07",
        edits=[("elgas/application.py", '''        status = data[-8:]
        data = data[:-8]
''', '''        status = data[-8:]
        data = data[:-8]
        if not any(summary_status):
            # older firmware leaves the summary empty
            summary_status = status
''')],
        needs="instantaneous values with an empty summary status and a status that is not empty",
        what="an all-zero summary status is replaced by the status",
        demo=FRAME + r'''
from elgas import application
p = TIME + b"values" + b"\x01" + b"12345678" + bytes(8) + b"cr"
assert bytes(application.ReadInstantaneousValuesResponse.from_bytes(p).summary_status) == bytes(8)
'''),
    # -- C08
    dict(
        id="never-is-start", property="C08",
        edits=[("elgas/application.py", '''        last_modem_error_time = base_date + timedelta(
            seconds=int.from_bytes(utils.pop_many(data, 4), "little")
        )
        last_modem_error = data.pop(0)
''', '''        last_modem_error_time = base_date + timedelta(
            seconds=int.from_bytes(utils.pop_many(data, 4), "little")
        )
        last_modem_error = data.pop(0)
        if not last_modem_error:
            last_modem_error_time = base_date
''')],
        needs="a call message with modem error 0 and a modem error time",
        what="the time of the last modem error is lost when the error number is 0",
        demo=FRAME + r'''
import datetime, struct
from elgas import application
def call(error, at):
    p = b"\x02" + bytes(16) + b"station".ljust(17, b"\0") + bytes(10) + bytes(8) + b"\x01" + bytes(2) + bytes(1) + bytes(1)
    p += bytes(4 * 8) + bytes(4) + bytes(4) + struct.pack("<I", at) + bytes([error]) + bytes(4) + b"fw".ljust(33, b"\0")
    return application.CallRequest.from_bytes(struct.pack("<H", len(p) + 2) + p)
for error in (1, 0):
    assert call(error, 86400).last_modem_error_time == datetime.datetime(2000, 1, 2), error
'''),
    # -- C09
    dict(
        id="padding-differs", property="C09",
        edits=[("elgas/security.py", '''        for _ in range(0, to_pad):
            padding.append(random.randint(0, 125))

        return bytes(padding)
''', '''        for _ in range(0, to_pad):
            value = random.randint(0, 125)
            if len(data) > 255 and value == data[-1]:
                # never continue the data
                continue
            padding.append(value)

        return bytes(padding)
''')],
        needs="a payload above 255 bytes and a random padding byte that equals its last byte",
        what="now and then a padding byte is left out and encryption fails",
        demo=FRAME + r'''
from elgas import security
c = security.CipherContext(security.EncryptionKeyId(3), b"0123456789abcdef")
for n in range(2000):
    data = bytes(256) + bytes([n % 126])
    assert c.decrypt(c.encrypt(data)) == data
'''),
    # -- C10
    dict(
        id="length-into-padding", property="C10",
        edits=[("elgas/security.py", '''        if original_length > len(decrypted_data) - 2:
            raise ValueError("Stated length is longer than the encrypted data")
        original_data = decrypted_data[:original_length]
''', '''        if original_length > len(decrypted_data):
            raise ValueError("Stated length is longer than the encrypted data")
        original_data = bytes(decrypted_data)[:original_length]
''')],
        needs="a message whose stated length reaches into its CRC while the CRC over it is right",
        what="CRC bytes are returned as data",
        demo=FRAME + LOGGED + r'''
c = security.CipherContext(security.EncryptionKeyId(3), KEY)
def forged(payload, stated):
    from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes
    head = stated.to_bytes(2, "little") + b"\x03"
    e = Cipher(algorithms.AES(KEY), modes.CBC(KEY)).encryptor()
    return head + e.update(payload + crc16(head + payload)) + e.finalize()
assert c.decrypt(forged(bytes(14), 14)) == bytes(14)
assert refused(c.decrypt, forged(bytes(14), 15))
assert refused(c.decrypt, forged(bytes(30), 32))
'''),
    # -- C11
    dict(
        id="same-piece-again", property="C11",
        edits=[("elgas/connection.py", '''            self.buffer += data
            LOG.debug(''', '''            if len(data) > 8 and self.buffer.endswith(data):
                LOG.debug("Received the same data again", data=data)
                return

            self.buffer += data
            LOG.debug(''')],
        needs="a response cut so that a piece of more than eight bytes equals the bytes just before it",
        what="a piece that repeats the bytes before it is taken for a repetition and dropped",
        demo=FRAME + r'''
from elgas import application
w = wire(0x86, 0x6C, TIME + b"\x00" + b"abcdefghij" * 4 + b"cr")
for cut in range(1, len(w) - 20):
    for n in (9, 10, 20):
        c = connection()
        c.send(application.ReadTimeRequest())
        for piece in (w[:cut], w[cut : cut + n], w[cut + n :]):
            c.receive_data(piece)
        got = c.next_event()
        assert getattr(got, "extra_data", None) == b"abcdefghij" * 4, (cut, n)
'''),
    dict(
        id="buffer-limit", property="C11",
        edits=[("elgas/connection.py", '''            # No end char in buffer and we need more data.
''', '''            # No end char in buffer and we need more data.
            if len(self.buffer) > 0xFFFF:
                # longer than a frame can be
                self.buffer = bytearray()
''')],
        needs="a response of more than 65535 bytes on the line (with replaced bytes), polled before it is complete",
        what="a long response whose replaced bytes make it exceed 65535 bytes is thrown away",
        demo=FRAME + r'''
from elgas import application, constants
w = wire(0x86, 0x7C, b"\x02" + bytes(4) + b"\x0d" * 40000)
c = connection()
c.send(application.ReadArchiveRequest(password="abcdef", archive=constants.Archive(2), amount=5, oldest_record_id=1))
from elgas import state
c.receive_data(w[:-5])
assert c.next_event() is state.NEED_DATA
c.receive_data(w[-5:])
assert c.next_event().data == b"\x0d" * 40000
'''),
    # -- C12
    # -- C13
    dict(
        id="repeat-same-request", property="C13",
        edits=[("elgas/connection.py", '''        LOG.debug("Sending request PDU", pdu=event)
''', '''        if (
            self.elgas_state.current_state is state.AWAITING_READ_TIME_RESPONSE
            and event.service == constants.ServiceNumber.READ_DEVICE_TIME
        ):
            # asking again for the time is harmless
            return self._encode(event)

        LOG.debug("Sending request PDU", pdu=event)
''')],
        needs="a second read-time request (or a time response given as one) while the first is not answered",
        what="a read-time request is accepted while one is outstanding",
        demo=FRAME + r'''
from elgas import application, exceptions
c = connection()
c.send(application.ReadTimeRequest())
assert refused(c.send, application.ReadTimeRequest(), kinds=(exceptions.LocalElgasProtocolError,))
'''),
    # -- C14
    dict(
        id="error-after-bytes", property="C14",
        edits=[("elgas/connection.py", '''            if len(response.data) == 1:
''', '''            if len(response.data) == 1 and response.data[0] and b"\\x0d" in self.buffer:
                rest = self.buffer
                self.reset()
                self.buffer = rest
                raise_error(response.data)
            elif len(response.data) == 1:
''')],
        needs="a device error with further bytes behind it that hold an end byte",
        what="bytes behind a device error stay in the buffer",
        demo=FRAME + r'''
from elgas import application, exceptions
c = connection()
c.send(application.ReadTimeRequest())
c.receive_data(wire(0x86, 0x6C, b"\x01") + TIME_RESPONSE)
assert refused(c.next_event, kinds=(exceptions.WrongPasswordError,))
assert not c.buffer
'''),
    # -- C15
    dict(
        id="stuffing-scratch", property="C15",
        edits=[("elgas/utils.py", '''    in_data = bytearray(data)
    out = bytearray()
    while in_data:
''', '''    in_data = bytearray(data)
    out = _scratch
    del out[:]
    while in_data:
'''), ("elgas/utils.py", '''def return_characters(data: bytes) -> bytes:
''', '''_scratch = bytearray()


def return_characters(data: bytes) -> bytes:
''')],
        needs="two connections receiving in two threads at the same time",
        what="all connections unstuff into one buffer",
        demo=FRAME + r'''
import sys, threading
from elgas import utils
sys.setswitchinterval(1e-6)
bad = []
def use(fill):
    w = fill * 20000
    for _ in range(60):
        if utils.return_characters(w) != w or bad:
            bad.append(fill)
            return
threads = [threading.Thread(target=use, args=(x,)) for x in (b"a", b"b", b"c")]
for t in threads: t.start()
for t in threads: t.join()
assert not bad, bad[:1]
'''),
    dict(
        id="cipher-context-shared-crc", property="C15",
        edits=[("elgas/security.py", '''    def encrypt(self, data: bytes):
        for_crc = bytearray()
''', '''    work: ClassVar[bytearray] = bytearray()

    def encrypt(self, data: bytes):
        for_crc = self.work
        for_crc.clear()
'''), ("elgas/security.py", '''from enum import IntEnum
''', '''from enum import IntEnum
from typing import ClassVar
''')],
        needs="two encrypted connections sending in two threads at the same time",
        what="all cipher contexts put messages together in one buffer",
        demo=FRAME + r'''
import sys, threading
from elgas import security
sys.setswitchinterval(1e-6)
bad = []
def use(i):
    c = security.CipherContext(security.EncryptionKeyId(i), bytes([i]) * 16)
    data = bytes([i]) * (20 * i)
    for _ in range(1500):
        try:
            if c.decrypt(c.encrypt(data)) != data:
                bad.append(i)
        except BaseException as e:
            bad.append(e)
        if bad:
            return
threads = [threading.Thread(target=use, args=(x,)) for x in (1, 2, 3)]
for t in threads: t.start()
for t in threads: t.join()
assert not bad, bad[:1]
'''),
    # -- C18
    dict(
        id="objects-recursive", property="C18",
        edits=[("elgas/parser.py", '''        object_list = list()

        while working_data:
''', '''        object_list = list()
        sizes = 0

        while working_data:
            sizes += 1
            if sizes > 1000:
                raise ValueError("Too many objects")
''')],
        needs="a parameter block of more than 1000 objects",
        what="a block of more than 1000 objects is refused",
        demo=FRAME + r'''
import struct
from elgas import parser
timer = struct.pack("<HB", 39, 65)
body = struct.pack("<HHHHB", 1, 2, 3, 4, 5) + b"N".ljust(23, b"\0") + struct.pack("<HH", 6, 7)
block = struct.pack("<HB", len(body) + 3, 65) + body
for n in (10, 1001, 1500):
    assert len(parser.ScadaParameterParser().parse(block * n)) == n
'''),
    # -- C22
    dict(
        id="many-operations", property="C22",
        edits=[("elgas/client.py", '''    def send(self, *events):
        for event in events:
            data''', '''    sent_requests: int = attr.ib(init=False, default=0)

    def send(self, *events):
        for event in events:
            self.sent_requests = (self.sent_requests + 1) & 0xFF
            if not self.sent_requests:
                LOG.info("Request counter starts again")
                self.elgas_connection.receive_data(self.transport.recv())
            data''')],
        needs="256 requests by one client",
        what="at every 256th request the client waits for bytes before it asks",
        demo=FRAME + r'''
from elgas import client
c = client.ElgasClient(transport=Line(lambda f: TIME_RESPONSE), password="abcdef", password_id=801)
c.connect()
for _ in range(600):
    c.read_time()
'''),
    dict(
        id="tail-of-answer-kept", property="C22",
        edits=[("elgas/connection.py", '''        self.buffer = bytearray()  # clear buffer

        return pdu
''', '''        if not self.buffer.startswith(b"\\x02"):
            self.buffer = bytearray()  # clear buffer

        return pdu
''')],
        needs="a second, complete response behind the one that was awaited, then an operation of the same kind",
        what="a response left over from one operation answers the next",
        demo=FRAME + r'''
from elgas import application
c = connection()
c.send(application.ReadTimeRequest())
c.receive_data(TIME_RESPONSE + wire(0x86, 0x6C, bytes.fromhex("000000010101") + b"\x00\x00\x00"))
first = c.next_event()
c.send(application.ReadTimeRequest())
c.receive_data(TIME_RESPONSE)
assert c.next_event() == first
'''),
    # -- C23
    dict(
        id="serial-size", property="C23",
        edits=[("elgas/transport.py", '''            self.serial_port.write(data)
''', '''            for start in range(0, len(data), 1024):
                self.serial_port.write(data[start : start + 1024].rstrip(b"\\n"))
''')],
        needs="serial data with a line feed at its end or before a multiple of 1024 bytes",
        what="line feeds at the end of a block are not sent",
        demo=FRAME + r'''
import os, pty, tty
from elgas import transport
m, s = pty.openpty()
tty.setraw(s)
t = transport.SerialTransport(port=os.ttyname(s), baud_rate=9600)
t.connect()
t.send(b"abc\n\r")
assert os.read(m, 10) == b"abc\n\r"
t.send(b"abc\n")
assert os.read(m, 10) == b"abc\n"
t.disconnect()
'''),
    # -- C27
    dict(
        id="password-id-only-sent", property="C27",
        edits=[("elgas/connection.py", '''        validator=[attr.validators.ge(801), attr.validators.le(849)]
''', '''        validator=attr.validators.in_([*range(801, 825), *range(826, 850)])
''')],
        needs="the password id 825",
        what="one valid password id is refused",
        demo=FRAME + r'''
for i in range(801, 850):
    assert connection(password_id=i).password_id == i
'''),
    # -- C28
    # -- C29
    dict(
        id="log-key-wrong-crc", property="C29",
        edits=[("elgas/security.py", '''                f"Incorrect CRC in encrypted data. Got {crc} should be {correct_crc} "
            )
''', '''                f"Incorrect CRC in encrypted data. Got {crc} should be {correct_crc} "
                f"with {self.key_id!r} {self.key!r}"
            )
'''), ("elgas/connection.py", '''        except ValueError:
            LOG.debug("Cannot interpret data as frame. Discarding it")
''', '''        except ValueError as e:
            LOG.debug("Cannot interpret data as frame. Discarding it", error=str(e))
''')],
        needs="a response encrypted under another key",
        what="the reason for discarding a response is logged with the key in it",
        demo=FRAME + LOGGED + r'''
session(lambda f: wire(0x87, 0x6C, sealed(TIME + b"\x00\x00\x00", key=b"another key 1234")) + wire(0x87, 0x6C, sealed(TIME + b"\x00\x00\x00")), lambda c: c.read_time())
'''),
    dict(
        id="log-encrypted-data", property="C29",
        edits=[("elgas/connection.py", '''            # replace application_data with encrypted data.
''', '''            LOG.debug("Encrypting request", length=len(application_data), data=application_data[-16:])
            # replace application_data with encrypted data.
''')],
        needs="an encrypted request of at most sixteen bytes",
        what="the end of the data is logged before it is encrypted, which shows the password of short requests",
        demo=FRAME + LOGGED + r'''
session(lambda f: wire(0x87, 0x6C, sealed(TIME + b"\x00\x00\x00")), lambda c: c.read_time())
session(lambda f: wire(0x87, 0x64, sealed(TIME + b"v" + bytes(19))), lambda c: c.read_instantaneous_values())
'''),
    dict(
        id="log-key-top-level", property="C29",
        edits=[("elgas/connection.py", '''            if len(response.data) == 1:
''', '''            if len(response.data) == 1 and response.data[0] & 0b01100000:
                LOG.info(
                    "The device refused the encryption key",
                    key=self.encryption_key,
                    key_id=self.encryption_key_id,
                )

            if len(response.data) == 1:
''')],
        needs="a device error about encryption keys",
        what="the key is logged when the device refuses it",
        demo=FRAME + LOGGED + r'''
session(lambda f: wire(0x87, 0x6C, sealed(b"\x01")), lambda c: c.read_time())
session(lambda f: wire(0x87, 0x6C, sealed(b"\x20")), lambda c: c.read_time())
'''),
    dict(
        id="password-in-error", property="C29",
        edits=[("elgas/connection.py", '''        raise exceptions.WrongPasswordError()
''', '''        raise exceptions.WrongPasswordError(*details)
'''), ("elgas/connection.py", '''def raise_error(data: bytes):
''', '''def raise_error(data: bytes, *details):
'''), ("elgas/connection.py", '''            self.reset()
        raise_error(data)
''', '''            self.reset()
        raise_error(data, self.password_id, self.password)
''')],
        needs="the device error for a wrong password",
        what="the wrong-password error carries the password",
        demo=FRAME + LOGGED + r'''
session(lambda f: wire(0x86, 0x6C, b"\x02"), lambda c: c.read_time(), encrypted=False)
session(lambda f: wire(0x86, 0x6C, b"\x01"), lambda c: c.read_time(), encrypted=False)
'''),
    # -- C30
    dict(
        id="pop-many-slices", property="C30",
        edits=[("elgas/utils.py", '''    out = bytearray()
    for _ in range(0, amount):
        out.append(array.pop(0))
    return out


def pretty_text''', '''    out = array[:amount]
    del array[:amount]
    return out


def pretty_text''')],
        needs="a message that ends inside a multi-byte field which is the last one",
        what="fields at the end of incomplete data are made of fewer bytes",
        demo=FRAME + r'''
import struct
from elgas.parameters.enumerations import ParameterObjectType
from elgas.parameters.factory import ParameterFactory
body = struct.pack("<HHHHB", 1, 2, 3, 4, 5) + b"N".ljust(23, b"\0") + struct.pack("<HH", 6, 7)
timer = next(t for t in ParameterObjectType if t == 65)
ParameterFactory.from_bytes(timer, body)
for n in range(len(body)):
    assert refused(ParameterFactory.from_bytes, timer, body[:n]), n
'''),
    dict(
        id="end-flag-missing", property="C30",
        edits=[("elgas/application.py", '''        is_end = bool(in_bytes[4])
''', '''        is_end = bool(int.from_bytes(in_bytes[4:5], "little"))
''')],
        needs="a parameter response of two to four bytes",
        what="a parameter response that ends before its end flag is accepted",
        demo=FRAME + r'''
from elgas import application
for n in range(5):
    assert refused(application.ReadDeviceParametersResponse.from_bytes, bytes(n)), n
'''),
    dict(
        id="unknown-protocol", property="C30",
        edits=[("elgas/application.py", '''        protocol = constants.Protocol(data.pop(0))
''', '''        protocol = data.pop(0)
        if protocol in list(constants.Protocol):
            protocol = constants.Protocol(protocol)
        else:
            protocol = constants.Protocol.ELGAS2
''')],
        needs="a call message with a protocol number above 3",
        what="unknown protocols are reported as ELGAS2",
        demo=FRAME + r'''
import struct
from elgas import application
def call(protocol):
    p = b"\x02" + bytes(16) + b"station".ljust(17, b"\0") + bytes(10) + bytes(8) + bytes([protocol]) + bytes(2) + bytes(1) + bytes(1)
    p += bytes(4 * 8) + bytes(4) + bytes(4) + bytes(4) + b"\1" + bytes(4) + b"fw".ljust(33, b"\0")
    return application.CallRequest.from_bytes(struct.pack("<H", len(p) + 2) + p)
call(1)
assert refused(call, 9)
'''),
    dict(
        id="optional-cut", property="C30",
        edits=[("elgas/parameters/setpoint.py", '''            text_log_0 = pretty_text(pop_many(data, 13))
            text_log_1 = pretty_text(pop_many(data, 13))
        else:
''', '''            text_log_0 = pretty_text(pop_many(data, min(len(data), 13)))
            text_log_1 = pretty_text(pop_many(data, min(len(data), 13)))
        else:
''')],
        needs="a set point object that ends inside its optional texts",
        what="shortened log texts are accepted",
        demo=FRAME + r'''
import struct
from elgas.parameters.enumerations import ParameterObjectType
from elgas.parameters.factory import ParameterFactory
body = struct.pack("<HHHHHB", 1, 2, 3, 4, 5, 0) + b"N".ljust(23, b"\0") + struct.pack("<fBB", 1.5, 6, 7)
full = body + b"\x01" + b"off".ljust(13, b"\0") + b"on".ljust(13, b"\0")
t = ParameterObjectType(70)
ParameterFactory.from_bytes(t, body)
ParameterFactory.from_bytes(t, full)
for n in range(len(body) + 1, len(full)):
    assert refused(ParameterFactory.from_bytes, t, full[:n]), n
'''),
]
