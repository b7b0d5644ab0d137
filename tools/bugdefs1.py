"""Planted bugs, first series. Written from the property texts and the code."""

FRAME = r'''
def frame(kind, service, payload, dst=(0, 0), src=(0, 0)):
    body = bytes([0xFE, kind, service]) + (len(payload) + 15).to_bytes(2, "little")
    body += dst[0].to_bytes(2, "little") + bytes([dst[1]]) + src[0].to_bytes(2, "little") + bytes([src[1]]) + payload
    lrc = cs = drc = 0
    for b in body:
        lrc ^= b
        cs = (cs + b) & 255
        drc = (((drc << 1) | (drc >> 7)) & 255) ^ b
    return b"\x02" + body + bytes([lrc, cs, drc, 0x0D])


def stuff(f):
    out = b""
    for b in f[:-1]:
        out += {0x0D: b"\x1b\x0e", 0x1B: b"\x1b\x1b", 0x8D: b"\x1b\x0f"}.get(b, bytes([b]))
    return out + f[-1:]


def wire(kind, service, payload, **kw):
    return stuff(frame(kind, service, payload, **kw))


def unstuff(w):
    out, i = b"", 0
    while i < len(w):
        if w[i] == 0x1B and i + 1 < len(w):
            out += {0x0E: b"\x0d", 0x1B: b"\x1b", 0x0F: b"\x8d"}[w[i + 1]]
            i += 2
        else:
            out += w[i : i + 1]
            i += 1
    return out


TIME = bytes.fromhex("101112050624")
TIME_RESPONSE = wire(0x86, 0x6C, TIME + b"\x00\x00\x00")


def connection(**kw):
    from elgas.connection import ElgasConnection
    a = dict(source_address_1=0, source_address_2=0, destination_address_1=0, destination_address_2=0,
             password="abcdef", password_id=801)
    a.update(kw)
    return ElgasConnection(**a)


class Line:
    """A transport that answers every request with answer(request frame)."""

    def __init__(self, answer):
        self.answer, self.pending, self.sent = answer, b"", []

    def connect(self):
        pass

    def disconnect(self):
        pass

    def send(self, data):
        self.sent.append(unstuff(data))
        self.pending += self.answer(self.sent[-1])

    def recv(self):
        i = self.pending.index(b"\x0d") + 1
        out, self.pending = self.pending[:i], self.pending[i:]
        return out


def refused(f, *a, kinds=(Exception,), **kw):
    try:
        f(*a, **kw)
    except kinds:
        return True
    return False


'''

UNSTUFF_OLD = '''    in_data = bytearray(data)
    out = bytearray()
    while in_data:
        byte = in_data.pop(0)

        if byte == 0x1B:
            next_byte = in_data.pop(0)
            if next_byte == 0x0E:
                out.append(0x0D)
            elif next_byte == 0x1B:
                out.append(0x1B)
            elif next_byte == 0x0F:
                out.append(0x8D)
            else:
                out.append(byte)
                out.append(next_byte)
        else:
            out.append(byte)

    return bytes(out)
'''

BUGS = [
    dict(
        id="unstuff-by-blocks", property="C01",
        edits=[("elgas/utils.py", UNSTUFF_OLD, '''    replacements = {
        b"\\x1b\\x0e": b"\\x0d",
        b"\\x1b\\x1b": b"\\x1b",
        b"\\x1b\\x0f": b"\\x8d",
    }
    # Work on blocks, removing single bytes from the front of long data is slow.
    block_size = 1024
    out = bytearray()
    for start in range(0, len(data), block_size):
        block = bytes(data[start : start + block_size])
        position = 0
        while position < len(block):
            pair = block[position : position + 2]
            if pair in replacements:
                out += replacements[pair]
                position += 2
            else:
                out += pair[:1]
                position += 1

    return bytes(out)
''')],
        needs="a stuffed pair lying across a multiple of 1024 bytes of the stuffed frame",
        what="unstuffing works on blocks of 1024 bytes and leaves a pair that lies across two blocks as it is",
        demo=FRAME + r'''
from elgas import utils
for n in range(1000, 1100):
    f = b"\x01" * n + b"\x1b\x8d\x0d" + b"\x0d"
    assert utils.return_characters(utils.escape_characters(f)) == f, n
'''),
    dict(
        id="length-wraps", property="C02",
        edits=[("elgas/frames.py", '''class EncryptedRequest(Request):
    TYPE: ClassVar[int] = 0x85
''', '''class EncryptedRequest(Request):
    TYPE: ClassVar[int] = 0x85 & 0xFF

    @property
    def length(self) -> int:
        # The length field has room for two bytes.
        return (len(self.data) + 15) % 0x10000
''')],
        needs="an encrypted request frame with a payload of more than 65520 bytes",
        what="the length field of an encrypted request wraps instead of the frame being refused",
        demo=r'''
from elgas import frames, constants
f = frames.EncryptedRequest(constants.ServiceNumber.WRITE_VALUES, 0, 0, 0, 0, bytes(65530))
try:
    f.to_bytes()
except Exception:
    pass
else:
    raise SystemExit("too long payload was encoded")
'''),
    dict(
        id="call-payload-trimmed", property="C02",
        edits=[("elgas/frames.py", '''        data = in_bytes[12:-4]
        redundancy_source = bytearray(in_bytes[1:-4])
        lrc = in_bytes[-4]
        calculated_lrc = utils.calculate_lrc(redundancy_source)
        if lrc != calculated_lrc:
            raise ValueError(
                f"Incorrect LRC. Got {lrc!r}, should be {calculated_lrc!r}"
            )
        checksum = in_bytes[-3]
        calculated_checksum = utils.calculate_checksum(redundancy_source)
        if checksum != calculated_checksum:
            raise ValueError(
                f"Incorrect CHECKSUM. Got {checksum!r}, should be {calculated_checksum!r}"
            )
        drc = in_bytes[-2]
        calculated_drc = utils.calculate_drc(redundancy_source)
        if drc != calculated_drc:
            raise ValueError(f"Incorrect DRC. Got {drc!r}, should be {drc!r}")

        return cls(
            service=service,
            destination_address_1=destination_address_1,
            destination_address_2=destination_address_2,
            source_address_1=source_address_1,
            source_address_2=source_address_2,
            data=data,
        )


@attr.s(auto_attribs=True)
class EncryptedRequest''', '''        data = in_bytes[12:-4].rstrip(b"\\x00") if service is constants.ServiceNumber.CALL else in_bytes[12:-4]
        redundancy_source = bytearray(in_bytes[1:-4])
        lrc = in_bytes[-4]
        calculated_lrc = utils.calculate_lrc(redundancy_source)
        if lrc != calculated_lrc:
            raise ValueError(
                f"Incorrect LRC. Got {lrc!r}, should be {calculated_lrc!r}"
            )
        checksum = in_bytes[-3]
        calculated_checksum = utils.calculate_checksum(redundancy_source)
        if checksum != calculated_checksum:
            raise ValueError(
                f"Incorrect CHECKSUM. Got {checksum!r}, should be {calculated_checksum!r}"
            )
        drc = in_bytes[-2]
        calculated_drc = utils.calculate_drc(redundancy_source)
        if drc != calculated_drc:
            raise ValueError(f"Incorrect DRC. Got {drc!r}, should be {drc!r}")

        return cls(
            service=service,
            destination_address_1=destination_address_1,
            destination_address_2=destination_address_2,
            source_address_1=source_address_1,
            source_address_2=source_address_2,
            data=data,
        )


@attr.s(auto_attribs=True)
class EncryptedRequest''')],
        needs="a response frame to a call whose payload ends with zero bytes",
        what="trailing zero bytes of the payload of a response to a call are dropped",
        demo=FRAME + r'''
from elgas import frames
f = frame(0x86, 0x87, b"abc\x00\x00")
assert frames.Response.from_bytes(f).to_bytes() == f
assert frames.Response.from_bytes(f).data == b"abc\x00\x00"
'''),
    dict(
        id="start-byte-unchecked", property="C03",
        edits=[("elgas/frames.py", '''        if not in_bytes.startswith(b"\\x02\\xfe" + cls.TYPE.to_bytes(1, "little")):
            raise ValueError("Not a Response frame")
''', '''        if in_bytes[1:3] != b"\\xfe" + cls.TYPE.to_bytes(1, "little"):
            raise ValueError("Not a Response frame")
''')],
        needs="a response frame whose first byte was damaged, decoded by its own class",
        what="the first byte of response frames is not looked at (no check byte covers it)",
        demo=FRAME + r'''
from elgas import frames
for kind, cls in ((0x86, frames.Response), (0x87, frames.EncryptedResponse)):
    f = bytearray(frame(kind, 0x6C, b"hello"))
    f[0] = 0x03
    assert refused(cls.from_bytes, bytes(f), kinds=(ValueError,))
'''),
    dict(
        id="length-only-too-long", property="C03",
        edits=[("elgas/frames.py", '''            raise ValueError("Not a Request frame")
        if not in_bytes.endswith(b"\\x0d"):
            raise ValueError("Data does not end with end char")
        if len(in_bytes) < 16:
            raise ValueError("Data is too short to be a complete frame")
        service = constants.ServiceNumber(int.from_bytes(in_bytes[3:4], "little"))
        length = int.from_bytes(in_bytes[4:6], "little")
        if length != len(in_bytes) - 1:''', '''            raise ValueError("Not a Request frame")
        if not in_bytes.endswith(b"\\x0d"):
            raise ValueError("Data does not end with end char")
        if len(in_bytes) < 16:
            raise ValueError("Data is too short to be a complete frame")
        service = constants.ServiceNumber(int.from_bytes(in_bytes[3:4], "little"))
        length = int.from_bytes(in_bytes[4:6], "little")
        if length > len(in_bytes) - 1:''')],
        needs="a request frame that holds more bytes than its length field states, with matching check bytes",
        what="a request frame longer than its length field states is accepted",
        demo=FRAME + r'''
from elgas import frames
f = bytearray(frame(0x84, 0x6C, b"hello"))
body = bytearray(f[1:-4])
body[3] -= 1
lrc = cs = drc = 0
for b in body:
    lrc ^= b; cs = (cs + b) & 255; drc = (((drc << 1) | (drc >> 7)) & 255) ^ b
bad = b"\x02" + bytes(body) + bytes([lrc, cs, drc, 13])
assert refused(frames.Request.from_bytes, bad, kinds=(ValueError,))
'''),
    dict(
        id="empty-request-plain", property="C04",
        edits=[("elgas/connection.py", "        if self.cipher_context:\n            # replace application_data with encrypted data.\n",
                "        if self.cipher_context and application_data:\n            # replace application_data with encrypted data.\n")],
        needs="an encrypted connection sending a read-time request (the only one without payload)",
        what="requests without payload are sent as plain requests on encrypted connections",
        demo=FRAME + r'''
from elgas import application
c = connection(encryption_key=bytes(16), encryption_key_id=3)
assert c.send(application.ReadTimeRequest())[2] == 0x85
'''),
    dict(
        id="encrypted-wrong-destination", property="C04",
        edits=[("elgas/connection.py", '''                destination_address_2=self.destination_address_2,
                source_address_1=self.source_address_1,
                source_address_2=self.source_address_2,
                data=self.cipher_context.encrypt(application_data),
''', '''                destination_address_2=self.destination_address_2,
                source_address_1=self.source_address_1,
                source_address_2=self.destination_address_2,
                data=self.cipher_context.encrypt(application_data),
''')],
        needs="an encrypted connection whose two second addresses differ",
        what="encrypted requests carry the second destination address as source",
        demo=FRAME + r'''
from elgas import application
c = connection(encryption_key=bytes(16), encryption_key_id=3, source_address_2=7)
assert unstuff(c.send(application.ReadTimeRequest()))[11] == 7
'''),
    dict(
        id="record-id-wraps", property="C05",
        edits=[("elgas/application.py", '        out.extend(self.oldest_record_id.to_bytes(4, "little"))\n',
                '        out.extend((self.oldest_record_id & 0xFFFFFFFF).to_bytes(4, "little"))\n')],
        needs="an oldest record id of more than 32 bits or below zero",
        what="the oldest record id is wrapped to 32 bits instead of being refused",
        demo=FRAME + r'''
from elgas import application
for n in (1 << 32, -1):
    r = application.ReadArchiveRequest(password="abcdef", archive=application.Archive.DATA, amount=1, oldest_record_id=n)
    assert refused(r.to_bytes), n
'''),
    dict(
        id="password-stripped", property="C05",
        edits=[("elgas/utils.py", '    return password + "!\\x03" + "".join(two_random)\n',
                '    return password.strip().ljust(6) + "!\\x03" + "".join(two_random)\n')],
        needs="a password beginning with a blank",
        what="blanks at the beginning of the password are moved to its end",
        demo=FRAME + r'''
from elgas import application
assert application.ReadInstantaneousValuesRequest(password=" abcde").to_bytes()[:6] == b" abcde"
'''),
    dict(
        id="password-utf8", property="C05",
        edits=[("elgas/application.py", '''        out.extend(utils.pad_password(self.password).encode("latin-1"))
        out.append(self.archive)
        out.extend(self.amount.to_bytes(2, "little"))
''', '''        out.extend(utils.pad_password(self.password).encode())
        out.append(self.archive)
        out.extend(self.amount.to_bytes(2, "little"))
''')],
        needs="a read-archive-by-time request with a password with a character outside ASCII",
        what="the password of read-archive-by-time requests is encoded in UTF-8, which shifts all other fields",
        demo=FRAME + r'''
from elgas import application
from datetime import datetime
r = application.ReadArchiveByTimeRequest(password="pässwo", archive=application.Archive.DATA, amount=1, oldest_timestamp=datetime(2020, 1, 1))
assert r.to_bytes()[:6] == "pässwo".encode("latin-1") and len(r.to_bytes()) == 19
'''),
    dict(
        id="bcd-nibbles", property="C06",
        edits=[("elgas/utils.py", "    chars = data.hex()\n    return int(chars)\n",
                "    number = 0\n    for byte in data:\n        number = number * 100 + (byte >> 4) * 10 + (byte & 0x0F)\n    return number\n")],
        needs="timestamp bytes with a digit above 9 whose value is still in range, like 0x1A seconds",
        what="bytes that are not BCD are decoded as if they were",
        demo=FRAME + r'''
from elgas import utils
assert refused(utils.bytes_to_datetime, bytes.fromhex("1a1112050624"), kinds=(ValueError,))
'''),
    dict(
        id="dst-only-if-supported", property="C06",
        edits=[("elgas/utils.py", '''    is_dst = bool(hour_data & 0b10000000)
    supports_dst = bool(hour_data & 0b01000000)
''', '''    supports_dst = bool(hour_data & 0b01000000)
    is_dst = supports_dst and bool(hour_data & 0b10000000)
''')],
        needs="an hour byte with the daylight-saving flag but without the supported flag",
        what="the daylight-saving flag is dropped when the supported flag is not set",
        demo=FRAME + r'''
from elgas import utils
assert utils.bytes_to_datetime(bytes.fromhex("101192050624"))[1:] == (True, False)
'''),
    dict(
        id="record-id-signed", property="C07",
        edits=[("elgas/application.py", '''            oldest_record_id=oldest_record_id,
            data=data,
        )


@attr.s(auto_attribs=True)
class ReadArchiveRequest''', '''            oldest_record_id=oldest_record_id - (oldest_record_id >> 31 << 32),
            data=data,
        )


@attr.s(auto_attribs=True)
class ReadArchiveRequest''')],
        needs="a read-archive-by-time response whose oldest record id has its highest bit set",
        what="record ids from 2**31 in read-archive-by-time responses are decoded as negative numbers",
        demo=FRAME + r'''
from elgas import application
r = application.ReadArchiveByTimeResponse.from_bytes(b"\x01\x00\x00\x00\x80rest")
assert r.oldest_record_id == 1 << 31 and r.data == b"rest"
'''),
    dict(
        id="extra-data-stripped", property="C07",
        edits=[("elgas/application.py", "        extra_data = in_bytes[7:-2]\n", '        extra_data = in_bytes[7:-2].rstrip(b"\\x00")\n')],
        needs="a read-time response whose extra data ends with a zero byte",
        what="trailing zero bytes of the extra data of a read-time response are dropped",
        demo=FRAME + r'''
from elgas import application
r = application.ReadTimeResponse.from_bytes(TIME + b"\x00" + b"ab\x00" + b"\x01\x02")
assert r.extra_data == b"ab\x00"
'''),
    dict(
        id="partial-block-dropped", property="C07",
        edits=[("elgas/application.py", "        data = in_bytes[5:]\n        return cls(\n            object_number=object_number,\n",
                "        data = in_bytes[5:] if object_amount else b\"\"\n        return cls(\n            object_number=object_number,\n")],
        needs="a read-parameters response that states no complete object but carries bytes of one",
        what="the data block is dropped when the response completes no object",
        demo=FRAME + r'''
from elgas import application
r = application.ReadDeviceParametersResponse.from_bytes(b"\x03\x00\x00\x00\x00part")
assert r.data == b"part"
'''),
    dict(
        id="sim-all-zero", property="C08",
        edits=[("elgas/application.py", "        sim_id = str(utils.from_bcd(utils.pop_many(data, 10)))\n",
                '        sim_id = utils.pop_many(data, 10).hex().lstrip("0")\n')],
        needs="a call message with an all-zero SIM id (no SIM card)",
        what="a SIM id of only zeros becomes an empty text",
        demo=FRAME + r'''
from elgas import application
p = bytes([0, 0, 2]) + bytes(16) + b"x".ljust(17, b"\0") + bytes(10) + bytes(8) + bytes([0]) + bytes(200)
r = application.CallRequest.from_bytes(p)
assert r.sim_card_id == "0", r.sim_card_id
'''),
    dict(
        id="reset-time-signed", property="C08",
        edits=[("elgas/application.py", '''        last_reset_time = base_date + timedelta(
            seconds=int.from_bytes(utils.pop_many(data, 4), "little")
        )
''', '''        last_reset_time = base_date + timedelta(
            seconds=int.from_bytes(utils.pop_many(data, 4), "little", signed=True)
        )
''')],
        needs="a call message whose last reset lies after 2068-01-19",
        what="the last reset time is read as a signed number of seconds",
        demo=FRAME + r'''
from elgas import application
p = bytes([0, 0, 2]) + bytes(16) + b"x".ljust(17, b"\0") + bytes(18) + bytes(5) + bytes(4 * 5) + b"\xff" * 4 + bytes(200)
r = application.CallRequest.from_bytes(p)
assert r.last_reset_time.year == 2136, r.last_reset_time
'''),
    dict(
        id="padding-256", property="C09",
        edits=[("elgas/security.py", "            padding.append(random.randint(0, 125))\n", "            padding.append(random.randint(0, 256))\n")],
        needs="the random source giving 256 for a padding byte (1 in 257 per byte)",
        what="a random padding byte can be 256, which makes encryption fail",
        demo=FRAME + r'''
from elgas import security
c = security.CipherContext(security.EncryptionKeyId.USER_1, bytes(16))
for i in range(3000):
    assert c.decrypt(c.encrypt(b"a")) == b"a"
'''),
    dict(
        id="empty-decrypts-to-padding", property="C09",
        edits=[("elgas/security.py", "        original_data = decrypted_data[:original_length]\n",
                "        original_data = decrypted_data[: original_length or -2]\n")],
        needs="an encrypted empty payload",
        what="decrypting an empty payload gives the padding",
        demo=FRAME + r'''
from elgas import security
c = security.CipherContext(security.EncryptionKeyId.USER_1, bytes(16))
assert c.decrypt(c.encrypt(b"")) == b""
'''),
    dict(
        id="crc-one-byte", property="C10",
        edits=[("elgas/security.py", "        if not crc == correct_crc:\n", "        if not crc.startswith(correct_crc[:1]):\n")],
        needs="tampering that happens to keep the first CRC byte (1 in 256)",
        what="only the first byte of the CRC is compared",
        demo=FRAME + r'''
from elgas import security
import random
random.seed(2)
c = security.CipherContext(security.EncryptionKeyId.USER_1, bytes(16))
m = c.encrypt(b"some payload of more than one block")
for i in range(4000):
    bad = m[:3] + random.randbytes(len(m) - 3)
    assert refused(c.decrypt, bad), i
'''),
    dict(
        id="crc-zero-accepted", property="C10",
        edits=[("elgas/security.py", "        if not crc == correct_crc:\n", '        if not crc == correct_crc and correct_crc != b"\\x00\\x00":\n')],
        needs="an encrypted message whose CRC field decrypts to zero",
        what="a CRC of zero is taken as not present and accepted",
        demo=FRAME + r'''
from elgas import security
c = security.CipherContext(security.EncryptionKeyId.USER_1, bytes(16))
m = b"\x05\x00\x05" + security.encrypt(b"hello" + bytes(9) + b"\x00\x00", bytes(16), bytes(16))
assert refused(c.decrypt, m)
'''),
    dict(
        id="end-byte-piece-dropped", property="C11",
        edits=[("elgas/connection.py", '            if data == b"\\x0d" and len(self.buffer) == 0:\n',
                '            if data == b"\\x0d" and len(self.buffer) < 16:\n')],
        needs="a piece of less than 16 bytes that holds the whole stuffed rest except a lone end byte (a damaged short frame, closed by a lone end byte)",
        what="an end byte that arrives alone after a short damaged piece is dropped, so the damage swallows the next response",
        demo=FRAME + r'''
from elgas import application, state
c = connection()
c.send(application.ReadTimeRequest())
c.receive_data(b"\x02\xfe\x86")
c.receive_data(b"\x0d")
c.receive_data(TIME_RESPONSE)
e = c.next_event()
assert isinstance(e, application.ReadTimeResponse), e
'''),
    dict(
        id="end-byte-trimmed", property="C11",
        edits=[("elgas/connection.py", '''            if data == b"\\x0d" and len(self.buffer) == 0:
                LOG.info(
                    "Received an end char when read buffer was empty. This is a"
                    " known issue and data is ignored."
                )
                return
''', '''            if data.startswith(b"\\x0d"):
                LOG.info(
                    "Received an end char at the start of data. This is a"
                    " known issue and it is ignored."
                )
                data = data.lstrip(b"\\x0d")
''')],
        needs="a response split directly before its end byte",
        what="an end byte at the beginning of a piece is dropped even if it ends the response",
        demo=FRAME + r'''
from elgas import application, state
c = connection()
c.send(application.ReadTimeRequest())
c.receive_data(TIME_RESPONSE[:-1])
assert c.next_event() is state.NEED_DATA
c.receive_data(TIME_RESPONSE[-1:])
assert isinstance(c.next_event(), application.ReadTimeResponse)
'''),
    dict(
        id="unknown-pair-keyerror", property="C12",
        edits=[("elgas/utils.py", '''            if next_byte == 0x0E:
                out.append(0x0D)
            elif next_byte == 0x1B:
                out.append(0x1B)
            elif next_byte == 0x0F:
                out.append(0x8D)
            else:
                out.append(byte)
                out.append(next_byte)
''', '''            out.append({0x0E: 0x0D, 0x1B: 0x1B, 0x0F: 0x8D}[next_byte])
''')],
        needs="noise containing an escape byte followed by a byte that is no pair",
        what="noise with an unknown escape pair raises a KeyError out of the connection",
        demo=FRAME + r'''
from elgas import application, state
c = connection()
c.send(application.ReadTimeRequest())
c.receive_data(b"\x02\xfe\x86\x1bA\x0d" + TIME_RESPONSE)
assert isinstance(c.next_event(), application.ReadTimeResponse)
'''),
    dict(
        id="noise-clears-buffer", property="C12",
        edits=[("elgas/connection.py", '''        data = self.buffer[:end_char_index]
''', '''        if not self.buffer.startswith(b"\\x02"):
            # We are out of sync
            following = self.buffer.find(b"\\x0d", end_char_index) + 1
            end_char_index = following or end_char_index
        data = self.buffer[:end_char_index]
''')],
        needs="noise not starting with the start byte, followed by a response in the same piece",
        what="the frame after noise is discarded as well",
        demo=FRAME + r'''
from elgas import application, state
c = connection()
c.send(application.ReadTimeRequest())
c.receive_data(b"\xfe\x86\x0d" + TIME_RESPONSE)
assert isinstance(c.next_event(), application.ReadTimeResponse)
'''),
    dict(
        id="archive-answer-mixup", property="C13",
        edits=[("elgas/state.py", "    AWAITING_READ_ARCHIVE_RESPONSE: {application.ReadArchiveResponse: IDLE},\n",
                "    AWAITING_READ_ARCHIVE_RESPONSE: {\n        application.ReadArchiveResponse: IDLE,\n        application.ReadArchiveByTimeResponse: IDLE,\n    },\n")],
        needs="a read-archive-by-time response while a read-archive request is outstanding",
        what="the answer to the other archive request is accepted",
        demo=FRAME + r'''
from elgas import application, exceptions
c = connection()
c.send(application.ReadArchiveRequest(password="abcdef", archive=application.Archive.DATA, amount=1, oldest_record_id=1))
c.receive_data(wire(0x86, 0x7D, bytes(20)))
assert refused(c.next_event, kinds=(exceptions.LocalElgasProtocolError,))
'''),
    dict(
        id="wrong-response-resets", property="C13",
        edits=[("elgas/state.py", '''        except KeyError:
            raise exceptions.LocalElgasProtocolError(
                f"Can't handle {event_type} when state={self.current_state}"
            )
''', '''        except KeyError:
            failed_state, self.current_state = self.current_state, IDLE
            raise exceptions.LocalElgasProtocolError(
                f"Can't handle {event_type} when state={failed_state}"
            )
''')],
        needs="a response of another type while a request is outstanding, then the right one",
        what="a wrong response ends the outstanding request, so that the right response is refused",
        demo=FRAME + r'''
from elgas import application, exceptions
c = connection()
c.send(application.ReadTimeRequest())
c.receive_data(wire(0x86, 0x7D, bytes(20)))
assert refused(c.next_event, kinds=(exceptions.LocalElgasProtocolError,))
c.receive_data(TIME_RESPONSE)
assert isinstance(c.next_event(), application.ReadTimeResponse)
'''),
    dict(
        id="error-bits-order", property="C14",
        edits=[("elgas/connection.py", '''        raise exceptions.CipherKeyError()
    elif error & 0b01000000:
        raise exceptions.WrongEncryptionKeysError()
    elif error & 0b10000000:
        raise exceptions.WriteError()
''', '''        raise exceptions.CipherKeyError()
    elif error & 0b10000000:
        raise exceptions.WriteError()
    elif error & 0b01000000:
        raise exceptions.WrongEncryptionKeysError()
''')],
        needs="a device error with both highest bits set and none below",
        what="of the two highest error bits the wrong one is reported",
        demo=FRAME + r'''
from elgas import application, exceptions
c = connection()
c.send(application.ReadTimeRequest())
c.receive_data(wire(0x86, 0x6C, b"\xc0"))
assert refused(c.next_event, kinds=(exceptions.WrongEncryptionKeysError,))
'''),
    dict(
        id="error-in-write-time", property="C14",
        edits=[("elgas/connection.py", '''            if len(response.data) == 1:
''', '''            if len(response.data) == 1 and response.service != 0x71:
''')],
        needs="a device error as answer to write-time",
        what="a device error answering write-time is taken for success",
        demo=FRAME + r'''
from elgas import application, exceptions
from datetime import datetime
c = connection()
c.send(application.WriteTimeRequest(password="abcdef", device_time=datetime(2020, 1, 1)))
c.receive_data(wire(0x86, 0x71, b"\x80"))
assert refused(c.next_event, kinds=(exceptions.WriteError,))
'''),
    dict(
        id="cipher-cache-by-id", property="C15",
        edits=[("elgas/connection.py", '''        return security.CipherContext(
            connection.encryption_key_id, connection.encryption_key
        )
''', '''        key_id = connection.encryption_key_id
        if key_id not in _cipher_contexts:
            _cipher_contexts[key_id] = security.CipherContext(
                key_id, connection.encryption_key
            )
        return _cipher_contexts[key_id]


_cipher_contexts: Dict[int, security.CipherContext] = {}
''')],
        needs="two encrypted connections with the same key id but different keys in one process",
        what="the cipher context is shared between connections with the same key id",
        demo=FRAME + r'''
from elgas import application, security
a = connection(encryption_key=bytes(16), encryption_key_id=3)
b = connection(encryption_key=b"k" * 16, encryption_key_id=3)
assert b.cipher_context.key == b"k" * 16
'''),
    dict(
        id="state-shared", property="C15",
        edits=[("elgas/connection.py", "    elgas_state: state.ElgasState = attr.ib(factory=state.ElgasState)\n",
                "    elgas_state: state.ElgasState = attr.ib(default=state.ElgasState())\n")],
        needs="two connections with a request outstanding on one of them",
        what="all connections share one state",
        demo=FRAME + r'''
from elgas import application
a, b = connection(), connection()
a.send(application.ReadTimeRequest())
b.send(application.ReadTimeRequest())
'''),
    dict(
        id="parser-remembers", property="C16",
        edits=[("elgas/parser.py", "        working_data = bytearray(self.data or data)\n",
                "        self.data = self.data or data\n        working_data = bytearray(self.data)\n")],
        needs="parsing two blocks with the same parser object",
        what="a parser keeps the first block it was given and parses it again",
        demo=FRAME + r'''
from elgas import parser
import inspect
from elgas.parameters import timer
p = parser.ScadaParameterParser()
from elgas.parameters.gas_composition import GasComposition
def one(n):
    body = bytes([n]) * 200
    return body
seen = []
class K:
    @classmethod
    def from_bytes(cls, t, d):
        seen.append(bytes(d))
        return bytes(d)
import elgas.parameters.factory as f
old = f.ParameterFactory.from_bytes
f.ParameterFactory.from_bytes = staticmethod(lambda t, d: bytes(d))
try:
    assert p.parse(b"\x05\x00\x00ab") == [b"ab"]
    assert p.parse(b"\x05\x00\x00cd") == [b"cd"]
finally:
    f.ParameterFactory.from_bytes = old
'''),
]
