"""Planted bugs, second series: parameters, client, transports, life cycle."""
import os, re

FRAME = re.search(r"FRAME = r'''(.*?)'''", open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugdefs1.py")).read(), re.S).group(1)

OBJECTS = r'''
import struct

from elgas.parameters.enumerations import ParameterObjectType

STAT = ParameterObjectType.ANALOG_STATISTICS


def text(t, n):
    return t.encode("latin-1").ljust(n, b"\0")[:n]


def statistics(number=1, name="N", unit="U", control=0, digit=1.0, offset=2.0, decimals=None):
    d = struct.pack("<HHHHB", number, 2, 3, 4, control) + text(name, 23) + text(unit, 8)
    d += struct.pack("<ffBBHH", digit, offset, 5, 1, 6, 7)
    return d + (b"" if decimals is None else bytes([decimals]))


def timer(number=1, name="N"):
    return struct.pack("<HHHHB", number, 2, 3, 4, 5) + text(name, 23) + struct.pack("<HH", 6, 7)


def set_point(number=1, name="N", tail=None):
    d = struct.pack("<HHHHHB", number, 2, 3, 4, 5, 0) + text(name, 23) + struct.pack("<fBB", 1.5, 6, 7)
    if tail is not None:
        d += bytes([tail[0]]) + text(tail[1], 13) + text(tail[2], 13)
    return d


def block(type_id, data):
    return struct.pack("<HB", len(data) + 3, type_id) + data


'''

PEER = r'''
import socket, threading, time


class Peer:
    """Accepts connections one after another and runs the handlers on them."""

    def __init__(self, *handlers):
        self.listener = socket.create_server(("127.0.0.1", 0))
        self.port = self.listener.getsockname()[1]
        self.handlers = handlers
        threading.Thread(target=self.run, daemon=True).start()

    def run(self):
        for h in self.handlers:
            s, _ = self.listener.accept()
            try:
                h(s)
            except OSError:
                pass


def limited(f, seconds):
    """f() in a thread: ("value", x), ("error", e) or None when it does not end in time"""
    out = []

    def go():
        try:
            out.append(("value", f()))
        except BaseException as e:
            out.append(("error", e))

    t = threading.Thread(target=go, daemon=True)
    t.start()
    t.join(seconds)
    return out[0] if out else None


'''

BUGS = [
    # -- C17
    dict(
        id="text-cp1252", property="C17",
        edits=[("elgas/utils.py", '.lstrip().rstrip().decode("latin-1")\n', '.decode("cp1252", errors="replace").strip()\n')],
        needs="a text with a byte from 0x80 to 0x9F",
        what="texts are decoded as Windows-1252",
        demo=FRAME + r'''
from elgas import utils
assert utils.pretty_text(b"a\x80b\x00") == "a\x80b"
'''),
    dict(
        id="statistics-decimals-zero", property="C17",
        edits=[("elgas/parameters/statistics.py", "        if data:\n            decimals = data.pop(0)\n        else:\n            decimals = None\n",
                "        decimals = (data.pop(0) if data else 0) or None\n")],
        needs="statistics objects whose decimals byte is there and zero",
        what="zero decimals of statistics objects are reported as absent",
        demo=OBJECTS + r'''
from elgas.parameters.statistics import AnalogStatistics
assert AnalogStatistics.from_bytes(statistics(decimals=0)).decimals == 0
'''),
    dict(
        id="offset-rounded", property="C17",
        edits=[("elgas/parameters/statistics.py", '        offset = struct.unpack("<f", pop_many(data, 4))[0]\n',
                '        offset = round(struct.unpack("<f", pop_many(data, 4))[0], 7)\n')],
        needs="statistics objects with an offset with more than seven decimals",
        what="the offset of statistics objects is rounded like the digit",
        demo=OBJECTS + r'''
from elgas.parameters.statistics import AnalogStatistics
assert AnalogStatistics.from_bytes(statistics(offset=2.0 ** -26)).offset == 2.0 ** -26
'''),
    dict(
        id="serial-signed", property="C17",
        edits=[("elgas/parameters/analog_quantity.py", '        serial_number_transducer = int.from_bytes(pop_many(data, 4), "little")\n',
                '        serial_number_transducer = struct.unpack("<i", pop_many(data, 4))[0]\n')],
        needs="a transducer serial number from 2**31",
        what="serial numbers of transducers are decoded signed",
        demo=r'''
import struct
from elgas.parameters.analog_quantity import AnalogQuantity
d = bytes(9) + bytes(31) + bytes(16) + b"\xff" * 4 + bytes(11)
assert AnalogQuantity.from_bytes(d).serial_number_transducer == 0xFFFFFFFF
'''),
    dict(
        id="statistics-class", property="C17",
        edits=[("elgas/parameters/factory.py", "        ParameterObjectType.TIME_STATISTICS: TimeStatistics,\n",
                "        ParameterObjectType.TIME_STATISTICS: AnalogTimeStatistics,\n")],
        needs="a time statistics object",
        what="time statistics objects are decoded to the class of analog time statistics",
        demo=OBJECTS + r'''
from elgas.parameters.factory import ParameterFactory
from elgas.parameters.enumerations import ParameterObjectType
o = ParameterFactory.from_bytes(ParameterObjectType.TIME_STATISTICS, statistics())
assert type(o).__name__ == "TimeStatistics"
'''),
    # -- C18
    dict(
        id="junk-at-end", property="C18",
        edits=[("elgas/parser.py", "        while working_data:\n", "        while len(working_data) >= 3:\n")],
        needs="a block with one or two bytes left over after the last object",
        what="an incomplete object header at the end of a block is dropped silently",
        demo=OBJECTS + FRAME + r'''
from elgas import parser
assert refused(parser.ScadaParameterParser().parse, block(STAT, statistics()) + b"\x05")
assert refused(parser.ScadaParameterParser().parse, block(STAT, statistics()) + b"\x05\x00")
'''),
    dict(
        id="same-number-merged", property="C18",
        edits=[("elgas/parser.py", '''            object_list.append(
                elgas.parameters.factory.ParameterFactory.from_bytes(object_type, data)
            )
''', '''            parsed = elgas.parameters.factory.ParameterFactory.from_bytes(
                object_type, data
            )
            if parsed not in object_list:  # some devices repeat objects
                object_list.append(parsed)
''')],
        needs="a block that holds two equal objects",
        what="an object equal to an earlier one of the block is left out",
        demo=OBJECTS + FRAME + r'''
from elgas import parser
assert len(parser.ScadaParameterParser().parse(block(STAT, statistics()) * 2)) == 2
'''),
    dict(
        id="sorted-by-type", property="C18",
        edits=[("elgas/parser.py", "        return object_list\n", "        return sorted(object_list, key=lambda parsed: parsed.object_type)\n")],
        needs="a block whose objects do not come in the order of their type numbers",
        what="the objects are returned in the order of their types",
        demo=OBJECTS + FRAME + r'''
from elgas import parser
from elgas.parameters.enumerations import ParameterObjectType as T
a, b = T.STATISTICS, T.ANALOG_STATISTICS
hi, lo = max(a, b), min(a, b)
out = parser.ScadaParameterParser().parse(block(hi, statistics(number=1)) + block(lo, statistics(number=2)))
assert [o.number for o in out] == [1, 2]
'''),
    # -- C19
    dict(
        id="empty-name-refused", property="C19",
        edits=[("elgas/parameters/timer.py", "    name = marshmallow.fields.String(required=True)\n",
                "    name = marshmallow.fields.String(\n        required=True, validate=marshmallow.validate.Length(min=1)\n    )\n")],
        needs="a timer with an empty name",
        what="a timer with an empty name cannot be loaded",
        demo=OBJECTS + r'''
from elgas.parameters.timer import Timer, TimerSchema
t = Timer.from_bytes(timer(name=""))
assert TimerSchema().load(TimerSchema().dump(t)) == t
'''),
    dict(
        id="float-places", property="C19",
        edits=[("elgas/parameters/setpoint.py", "    value_of_limit = marshmallow.fields.Float(required=True, as_string=True)\n",
                "    value_of_limit = marshmallow.fields.Function(\n        lambda point: f\"{point.value_of_limit:.7f}\", float, required=True\n    )\n")],
        needs="a set point with a limit with more than seven decimals",
        what="the limit of set points is written with seven decimals only",
        demo=OBJECTS + r'''
import struct
from elgas.parameters.setpoint import SetPoint, SetPointSchema
o = SetPoint.from_bytes(set_point())
o.value_of_limit = 2.0 ** -30
assert SetPointSchema().load(SetPointSchema().dump(o)) == o
'''),
    dict(
        id="optional-missing-field", property="C19",
        edits=[("elgas/parameters/binary.py", "    text_log_1 = marshmallow.fields.String(required=True, allow_none=True)\n",
                "    text_log_1 = marshmallow.fields.String(load_default=None, allow_none=True)\n")],
        needs="loading a binary object without its last text",
        what="a missing required field is taken as absent instead of refused",
        demo=FRAME + r'''
import marshmallow
from elgas.parameters.binary import BinarySchema
d = {n: 1 for n in BinarySchema().fields}
d.update(name="n", text_log_0="a")
del d["text_log_1"]
assert refused(BinarySchema().load, d, kinds=(marshmallow.ValidationError,))
'''),
    dict(
        id="schema-of-base", property="C19",
        edits=[("elgas/parameters/factory.py", "        ParameterObjectType.STATISTICS: StatisticsSchema,\n",
                "        ParameterObjectType.STATISTICS: AnalogStatisticsSchema,\n")],
        needs="exporting and loading a statistics object",
        what="statistics objects come back as analog statistics",
        demo=OBJECTS + r'''
from elgas.parameters.statistics import Statistics
from elgas.parameters.factory import ParameterSchemaFactory
o = Statistics.from_bytes(statistics())
s = ParameterSchemaFactory.by_parameter_id(o.object_type)()
assert type(s.load(s.dump(o))) is Statistics
'''),
    # -- C20
    dict(
        id="series-name-trimmed", property="C20",
        edits=[("elgas/integration.py", "    series_name = marshmallow.fields.String(required=True, allow_none=True)\n",
                "    series_name = marshmallow.fields.Function(\n        lambda item: (item if isinstance(item, dict) else vars(item))['series_name']\n        or None,\n        lambda value: value,\n        required=True,\n        allow_none=True,\n    )\n")],
        needs="a configuration object with an empty series name",
        what="an empty series name comes back as none",
        demo=r'''
from elgas.integration import *
o = UtilitarianConfiguration([UtilitarianConfigurationObject(1, {}, "")])
d = UtilitarianConfigurationSchema().loads(UtilitarianConfigurationSchema().dumps(o))
assert d["objects"][0]["series_name"] == ""
'''),
    dict(
        id="configuration-limit", property="C20",
        edits=[("elgas/integration.py", '''    objects = marshmallow.fields.List(
        marshmallow.fields.Nested(UtilitarianConfigurationObjectSchema)
    )''', '''    objects = marshmallow.fields.List(
        marshmallow.fields.Nested(UtilitarianConfigurationObjectSchema),
        validate=marshmallow.validate.Length(max=256),
    )''')],
        needs="a configuration with more than 256 objects",
        what="a configuration with more than 256 objects cannot be loaded",
        demo=r'''
from elgas.integration import *
o = UtilitarianConfiguration([UtilitarianConfigurationObject(1, {}, "a")] * 300)
d = UtilitarianConfigurationSchema().loads(UtilitarianConfigurationSchema().dumps(o))
assert len(d["objects"]) == 300
'''),
    # -- C21
    dict(
        id="stop-without-objects", property="C21",
        edits=[("elgas/client.py", "            should_stop = response.is_end\n            object_count += response.object_amount\n",
                "            should_stop = response.is_end or response.object_amount == 0\n            object_count += response.object_amount\n")],
        needs="a response that completes no object and is not the last one",
        what="reading stops at a response without a complete object",
        demo=OBJECTS + FRAME + r'''
from elgas.client import ElgasClient
whole = block(STAT, statistics())
parts = [(0, 0, whole[:20]), (1, 1, whole[20:])]
def answer(req):
    end, amount, data = parts.pop(0)
    return wire(0x86, 0x70, struct.pack("<HHB", 0, amount, end) + data)
c = ElgasClient(transport=Line(answer), password="abcdef", password_id=801)
assert len(c.read_parameters()) == 1
'''),
    dict(
        id="object-index-wraps", property="C21",
        edits=[("elgas/client.py", "            object_count += response.object_amount\n",
                "            object_count += response.object_amount\n            object_count &= 0xFF\n")],
        needs="a device with more than 255 objects",
        what="the index of the next object wraps at 256",
        demo=OBJECTS + FRAME + r'''
from elgas.client import ElgasClient
asked = []
def answer(req):
    first = int.from_bytes(req[22:24], "little")
    asked.append(first)
    assert len(asked) < 40
    data = b"".join(block(STAT, statistics(number=first + i)) for i in range(10))
    return wire(0x86, 0x70, struct.pack("<HHB", first, 10, first + 10 >= 300) + data)
c = ElgasClient(transport=Line(answer), password="abcdef", password_id=801)
assert [o.number for o in c.read_parameters()] == list(range(300)), asked
'''),
    dict(
        id="restart-from-zero", property="C21",
        edits=[("elgas/client.py", "        object_count = read_from\n", "        object_count = 0 if read_from < 2 else read_from\n")],
        needs="reading parameters from index 1",
        what="reading from object 1 starts at object 0",
        demo=OBJECTS + FRAME + r'''
from elgas.client import ElgasClient
asked = []
def answer(req):
    asked.append(int.from_bytes(req[22:24], "little"))
    return wire(0x86, 0x70, struct.pack("<HHB", asked[-1], 1, 1) + block(STAT, statistics()))
c = ElgasClient(transport=Line(answer), password="abcdef", password_id=801)
c.read_parameters(1)
assert asked == [1]
'''),
    # -- C22
    dict(
        id="record-id-default", property="C22",
        edits=[("elgas/client.py", "            oldest_record_id=oldest_record_id,\n", "            oldest_record_id=max(oldest_record_id, 1),\n")],
        needs="reading an archive from record id 0",
        what="record id 0 is asked for as 1",
        demo=FRAME + r'''
from elgas.client import ElgasClient
from elgas.constants import Archive
c = ElgasClient(transport=Line(lambda q: wire(0x86, 0x7C, bytes(9))), password="abcdef", password_id=801)
c.read_archive(Archive.DATA, 1, 0)
assert c.transport.sent[0][23:27] == bytes(4)
'''),
    dict(
        id="write-time-repeated", property="C22",
        edits=[("elgas/client.py", "        self.send(request)\n        self.next_event()\n        LOG.info(\"Finished writing time to device\")\n",
                "        try:\n            self.send(request)\n            self.next_event()\n        except exceptions.BlockedBuffer:\n            # The device is still busy with the time of the last write, try once more.\n            self.send(request)\n            self.next_event()\n        LOG.info(\"Finished writing time to device\")\n"),
               ("elgas/client.py", "from elgas import application, connection, constants, parser, state, transport, utils\n",
                "from elgas import (\n    application,\n    connection,\n    constants,\n    exceptions,\n    parser,\n    state,\n    transport,\n    utils,\n)\n")],
        needs="a device answering write-time with the blocked-buffer error",
        what="a write-time answered by the blocked-buffer error is sent twice instead of raising it",
        demo=FRAME + r'''
from elgas.client import ElgasClient
from elgas import exceptions
from datetime import datetime
answers = [b"\x08", b"ok"]
c = ElgasClient(transport=Line(lambda q: wire(0x86, 0x71, answers.pop(0))), password="abcdef", password_id=801)
assert refused(c.write_time, datetime(2020, 1, 1), kinds=(exceptions.BlockedBuffer,))
'''),
    dict(
        id="archive-time-seconds", property="C22",
        edits=[("elgas/client.py", '''        request = application.ReadArchiveByTimeRequest(
            password=self.password,
            archive=archive,
            amount=amount,
            oldest_timestamp=oldest_timestamp,
        )
''', '''        request = application.ReadArchiveByTimeRequest(
            password=self.password,
            archive=archive,
            amount=amount,
            oldest_timestamp=oldest_timestamp.replace(second=0),
        )
''')],
        needs="reading an archive by a time with seconds",
        what="the seconds of the oldest timestamp are dropped",
        demo=FRAME + r'''
from elgas.client import ElgasClient
from elgas.constants import Archive
from datetime import datetime
c = ElgasClient(transport=Line(lambda q: wire(0x86, 0x7D, bytes(9))), password="abcdef", password_id=801)
c.read_archive_by_time(Archive.DATA, 1, datetime(2020, 1, 1, 0, 0, 9))
assert c.transport.sent[0][25] == 9
'''),
    # -- C23
    dict(
        id="send-partial", property="C23",
        edits=[("elgas/transport.py", "            self.tcp_socket.sendall(data)\n", "            self.tcp_socket.send(data)\n")],
        needs="sending more than fits into the socket's buffers while the peer reads slowly",
        what="data that does not fit into the send buffer is dropped",
        demo=PEER + r'''
from elgas.transport import BlockingTcpTransport
got = []
def handler(s):
    time.sleep(0.5)
    n = 0
    while True:
        d = s.recv(1 << 20)
        if not d:
            break
        n += len(d)
    got.append(n)
p = Peer(handler)
t = BlockingTcpTransport("127.0.0.1", p.port)
t.connect()
size = 30_000_000
t.send(bytes(size))
t.disconnect()
for _ in range(100):
    if got:
        break
    time.sleep(0.1)
assert got == [size], got
'''),
    dict(
        id="recv-size-limit", property="C23",
        edits=[("elgas/transport.py", '''            received = self.tcp_socket.recv(amount - len(data))
            if not received:
                raise ConnectionError("Connection was closed by the peer")
            data += received

        return data

    def recv_until(self, expected=b"\\x0d", size=None):
''', '''            received = self.tcp_socket.recv(amount - len(data))
            if not received:
                raise ConnectionError("Connection was closed by the peer")
            data += received

        return data

    def recv_until(self, expected=b"\\x0d", size=2048):
''')],
        needs="a message of more than 2048 bytes",
        what="messages of more than 2048 bytes are returned in pieces",
        demo=PEER + r'''
from elgas.transport import BlockingTcpTransport
m = b"a" * 3000 + b"\x0d"
p = Peer(lambda s: (s.sendall(m), time.sleep(3)))
t = BlockingTcpTransport("127.0.0.1", p.port)
t.connect()
assert t.recv() == m
'''),
    dict(
        id="recv-ahead", property="C28",
        edits=[("elgas/transport.py", '''        data = b""
        while len(data) < amount:
            received = self.tcp_socket.recv(amount - len(data))
            if not received:
                raise ConnectionError("Connection was closed by the peer")
            data += received

        return data
''', '''        while len(self.read_ahead) < amount:
            received = self.tcp_socket.recv(4096)
            if not received:
                raise ConnectionError("Connection was closed by the peer")
            self.read_ahead += received

        data = bytes(self.read_ahead[:amount])
        del self.read_ahead[:amount]
        return data
'''), ("elgas/transport.py", '''    tcp_socket: Optional[socket.socket] = attr.ib(init=False, default=None)
''', '''    tcp_socket: Optional[socket.socket] = attr.ib(init=False, default=None)
    read_ahead: bytearray = attr.ib(init=False, factory=bytearray)
''')],
        needs="bytes left unread on a TCP connection (a late or additional response) when it is disconnected and connected again",
        what="bytes received ahead of the session's end are delivered in the next session",
        demo=PEER + r'''
from elgas.transport import BlockingTcpTransport
p = Peer(lambda s: (s.sendall(b"one\x0dold\x0d"), time.sleep(0.5)), lambda s: (s.sendall(b"new\x0d"), time.sleep(1)))
t = BlockingTcpTransport("127.0.0.1", p.port)
t.connect()
time.sleep(0.2)
assert t.recv() == b"one\x0d"
t.disconnect()
t.connect()
assert t.recv() == b"new\x0d"
'''),
    # -- C24
    dict(
        id="timeout-per-byte", property="C24",
        edits=[("elgas/transport.py", '''            received = self.tcp_socket.recv(amount - len(data))
            if not received:
                raise ConnectionError("Connection was closed by the peer")
            data += received

        return data

    def recv_until(self, expected=b"\\x0d", size=None):
        """\\
        Read until an expected sequence is found ('\\r' by default), the size
        is exceeded or until timeout occurs.
        """
        lenterm = len(expected)
        line = bytearray()
        timeout = Timeout(self.timeout)
        while True:
            c = self._recv_bytes(1)
            if c:
                line += c
''', '''            received = self.tcp_socket.recv(amount - len(data))
            if not received:
                raise ConnectionError("Connection was closed by the peer")
            data += received

        return data

    def recv_until(self, expected=b"\\x0d", size=None):
        """\\
        Read until an expected sequence is found ('\\r' by default), the size
        is exceeded or until timeout occurs.
        """
        lenterm = len(expected)
        line = bytearray()
        timeout = Timeout(self.timeout)
        while True:
            c = self._recv_bytes(1)
            if c:
                timeout.restart(self.timeout)
                line += c
''')],
        needs="a peer that keeps sending bytes without an end byte",
        what="every byte received restarts the timeout of the whole message",
        demo=PEER + r'''
from elgas.transport import BlockingTcpTransport
def trickle(s):
    for _ in range(200):
        s.sendall(b"a")
        time.sleep(0.05)
p = Peer(trickle)
t = BlockingTcpTransport("127.0.0.1", p.port, timeout=0.5)
t.connect()
assert limited(t.recv, 5) is not None
'''),
    dict(
        id="no-read-timeout", property="C24",
        edits=[("elgas/transport.py", '''            raise exceptions.CommunicationError("Unable to connect socket") from e
        LOG.info(f"Connected to {self.address}")
''', '''            raise exceptions.CommunicationError("Unable to connect socket") from e
        self.tcp_socket.settimeout(None)
        LOG.info(f"Connected to {self.address}")
''')],
        needs="a TCP peer that sends nothing",
        what="the timeout only applies while connecting",
        demo=PEER + r'''
from elgas.transport import BlockingTcpTransport
p = Peer(lambda s: time.sleep(30))
t = BlockingTcpTransport("127.0.0.1", p.port, timeout=0.5)
t.connect()
assert limited(t.recv, 5) is not None
'''),
    dict(
        id="recv-os-error", property="C25",
        edits=[("elgas/transport.py", '''            received = self.serial_port.read(amount - len(data))
            if not received:
                raise serial.SerialTimeoutException("No data within the timeout")
            data += received

        return data
''', '''            received = self.serial_port.read(amount - len(data))
            if not received:
                raise serial.SerialTimeoutException("No data within the timeout")
            data += received

        return bytes(data)
'''), ("elgas/transport.py", '''                received = self.tcp''', '''                received = self.tcp''')] and [
            ("elgas/transport.py", '''        except (OSError, IOError, socket.timeout, socket.error) as e:
            raise exceptions.CommunicationError("Could not receive data") from e
        return data
''', '''        except (ConnectionError, socket.timeout) as e:
            raise exceptions.CommunicationError("Could not receive data") from e
        return data
''')],
        needs="an operating-system error while receiving that is neither a connection error nor a timeout (host or network unreachable)",
        what="other operating-system errors while receiving are raised as they are",
        demo=PEER + r'''
from elgas.transport import BlockingTcpTransport
from elgas import exceptions
p = Peer(lambda s: time.sleep(5))
t = BlockingTcpTransport("127.0.0.1", p.port, timeout=0.5)
t.connect()
t.tcp_socket.close()
try:
    t.recv()
except exceptions.CommunicationError:
    pass
'''),
    # -- C25
    dict(
        id="serial-close-failure", property="C25",
        edits=[("elgas/transport.py", '''            except (OSError, IOError, serial.SerialException) as e:
                self.serial_port = None
                raise exceptions.CommunicationError from e
            self.serial_port = None
''', '''            except (OSError, IOError, serial.SerialException) as e:
                raise exceptions.CommunicationError from e
            self.serial_port = None
''')],
        needs="closing the serial port failing once",
        what="after a failed disconnect the serial transport cannot be connected again",
        demo=r'''
from elgas.transport import SerialTransport
from elgas import exceptions
class P:
    def close(self):
        raise OSError("gone")
t = SerialTransport("/dev/null", 9600)
t.serial_port = P()
try:
    t.disconnect()
except exceptions.CommunicationError:
    pass
assert t.serial_port is None
'''),
    dict(
        id="send-drops-input", property="C23",
        edits=[("elgas/transport.py", '''        if self.tcp_socket:
            raise RuntimeError(f"There is already an active socket to {self.address}")
''', '''        if self.tcp_socket and self.tcp_socket.getsockname()[1]:
            raise RuntimeError(f"There is already an active socket to {self.address}")
'''), ] and [("elgas/transport.py", '''            self.serial_port.write(data)
''', '''            self.serial_port.write(data)
            self.serial_port.flush()
            self.serial_port.reset_input_buffer()
''')],
        needs="bytes of the peer that arrived before a send on the serial line",
        what="what arrived before sending is thrown away",
        demo=r'''
import os, pty, tty, time
from elgas.transport import SerialTransport
m, s = pty.openpty()
tty.setraw(s)
t = SerialTransport(os.ttyname(s), 9600, timeout=2)
t.connect()
os.write(m, b"early\x0d")
time.sleep(0.2)
t.send(b"x\x0d")
assert t.recv() == b"early\x0d"
'''),
    dict(
        id="disconnect-leaves-socket", property="C25",
        edits=[("elgas/transport.py", '''                self.tcp_socket.shutdown(socket.SHUT_RDWR)
                self.tcp_socket.close()
            except''', '''                self.tcp_socket.shutdown(socket.SHUT_RDWR)
            except''')],
        needs="a disconnect of a TCP transport whose socket something else still refers to",
        what="the socket is not closed on disconnect, only shut down",
        demo=PEER + r'''
from elgas.transport import BlockingTcpTransport
p = Peer(lambda s: time.sleep(5))
t = BlockingTcpTransport("127.0.0.1", p.port)
t.connect()
s = t.tcp_socket
t.disconnect()
assert s.fileno() == -1
'''),
    # -- C26
    dict(
        id="archive-password-plain", property="C26",
        edits=[("elgas/client.py", '''        request = application.ReadArchiveRequest(
            password=self.password,
''', '''        request = application.ReadArchiveRequest(
            password=str(self.password),
''')],
        needs="the representation of a read-archive request made by a client",
        what="the read-archive request holds the password as a plain string",
        demo=FRAME + r'''
from elgas.client import ElgasClient
from elgas.constants import Archive
c = ElgasClient(transport=Line(lambda q: wire(0x86, 0x7C, bytes(9))), password="Geheim", password_id=801)
seen = []
old = c.elgas_connection.send
c.elgas_connection.send = lambda e: (seen.append(repr(e)), old(e))[1]
c.read_archive(Archive.DATA, 1, 1)
assert "Geheim" not in seen[0], seen
'''),
    dict(
        id="cipher-key-plain", property="C26",
        edits=[("elgas/connection.py", '''            connection.encryption_key_id, connection.encryption_key
        )
''', '''            security.EncryptionKeyId(connection.encryption_key_id),
            bytes(connection.encryption_key),
        )
''')],
        needs="the representation of an encrypted client, connection or cipher context",
        what="the cipher context holds the key as plain bytes (a no-op change on bytes, but not on SecretByte)",
        demo=FRAME + r'''
from elgas.client import ElgasClient
c = ElgasClient(transport=None, password="Geheim", password_id=801, encryption_key=b"0123456789abcdef", encryption_key_id=3)
assert "0123456789abcdef" not in repr(c)
'''),
    dict(
        id="last-data-shown", property="C26",
        edits=[("elgas/connection.py", '''    buffer: bytearray = attr.ib(init=False, factory=bytearray)
    elgas_state: state''', '''    buffer: bytearray = attr.ib(init=False, factory=bytearray)
    last_data: bytes = attr.ib(init=False, default=b"")
    elgas_state: state'''), ("elgas/connection.py", '''        application_data = event.to_bytes()

        if self.cipher_context:
''', '''        application_data = event.to_bytes()
        self.last_data = application_data[-32:]

        if self.cipher_context:
''')],
        needs="a representation of the client taken after it wrote the time",
        what="the data of the last request is kept and shown with the password",
        demo=FRAME + r'''
import datetime
from elgas import client
class Quiet:
    def connect(self): pass
    def disconnect(self): pass
    def send(self, data): pass
    def recv(self): return b"\x0d"
c = client.ElgasClient(transport=Quiet(), password="Geheim", password_id=801)
assert "Geheim" not in repr(c)
from elgas import application
c.elgas_connection.send(application.WriteTimeRequest(device_time=datetime.datetime(2020, 1, 2, 3, 4, 5), password=c.password))
assert "Geheim" not in repr(c)
'''),
    # -- C27
    dict(
        id="address-65536", property="C27",
        edits=[("elgas/connection.py", '''    source_address_1: int = attr.ib(
        validator=[attr.validators.ge(0), attr.validators.le(65535)]
''', '''    source_address_1: int = attr.ib(
        validator=[attr.validators.ge(0), attr.validators.le(65536)]
''')],
        needs="a connection with the source address 65536",
        what="the first source address 65536 is accepted",
        demo=FRAME + r'''
assert refused(connection, source_address_1=65536)
'''),
    dict(
        id="destination-negative", property="C27",
        edits=[("elgas/connection.py", '''    destination_address_2: int = attr.ib(
        validator=[attr.validators.ge(0), attr.validators.le(255)]
    )
''', '''    destination_address_2: int = attr.ib(validator=attr.validators.le(255))
''')],
        needs="a connection with a negative second destination address",
        what="negative second destination addresses are accepted",
        demo=FRAME + r'''
assert refused(connection, destination_address_2=-1)
'''),
    dict(
        id="password-id-850", property="C27",
        edits=[("elgas/connection.py", "attr.validators.le(849)", "attr.validators.lt(849)")],
        needs="a connection with the password id 849",
        what="the password id 849 is refused",
        demo=FRAME + r'''
connection(password_id=849)
'''),
    # -- more
    dict(
        id="rest-kept-over-sessions", property="C28",
        edits=[("elgas/client.py", '''    def disconnect(self):
        self.transport.disconnect()
''', '''    def disconnect(self):
        self.transport.disconnect()
        self.transport.__init__(
            **{
                field.name: getattr(self.transport, field.name)
                for field in attr.fields(type(self.transport))
                if field.init
            }
        ) if attr.has(type(self.transport)) and False else None
'''),] and [("elgas/connection.py", '''    def reset(self):
        """
        Forget everything received and any outstanding request.
        """
        self.buffer = bytearray()
''', '''    def reset(self):
        """
        Forget everything received and any outstanding request.
        """
        if self.elgas_state.current_state is not state.IDLE:
            self.buffer = bytearray()
'''), ("elgas/connection.py", "        self.buffer = bytearray()  # clear buffer\n", "        # what is left in the buffer belongs to later responses\n")],
        needs="two responses received at once, then reconnecting",
        what="bytes received after a response stay in the buffer for the next session",
        demo=FRAME + r'''
from elgas.client import ElgasClient
old = wire(0x86, 0x6C, bytes.fromhex("010101010101") + b"\x00\x00\x00")
new = wire(0x86, 0x6C, bytes.fromhex("020202020202") + b"\x00\x00\x00")
class L:
    def __init__(self): self.n = 0
    def connect(self): self.n += 1
    def disconnect(self): pass
    def send(self, data): pass
    def recv(self): return old + old if self.n == 1 else new
c = ElgasClient(transport=L(), password="abcdef", password_id=801)
c.connect(); assert c.read_time().second == 1
c.disconnect(); c.connect()
assert c.read_time().second == 2
'''),
]
