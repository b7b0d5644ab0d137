"""Planted bugs, thirteenth series: what only a very long history shows."""
import os, re

HERE = os.path.dirname(os.path.abspath(__file__))


def part(name, file):
    text = open(os.path.join(HERE, file)).read()
    return re.search(name + r" = r'''(.*?)'''", text, re.S).group(1)


FRAME = part("FRAME", "bugdefs1.py")

STATE = '''    elgas_state: state.ElgasState = attr.ib(factory=state.ElgasState)
'''

BUGS = [
    dict(
        id="session-of-2500", property="C13",
        edits=[("elgas/connection.py", '''        self.elgas_state.process_event(event)
''', '''        self.requests += 1
        if self.requests > 2500:
            raise exceptions.LocalElgasProtocolError("Connection is used up")
        self.elgas_state.process_event(event)
'''), ("elgas/connection.py", STATE, STATE + '''    requests: int = attr.ib(init=False, default=0, repr=False, eq=False)
''')],
        needs="more than 2500 exchanges on one connection",
        what="a request is refused although nothing is outstanding",
        demo=FRAME + r'''
from elgas import application
c = connection()
for _ in range(2600):
    c.send(application.ReadTimeRequest())
    c.receive_data(TIME_RESPONSE)
    assert isinstance(c.next_event(), application.ReadTimeResponse)
''',
    ),
    dict(
        id="session-bytes", property="C22",
        edits=[("elgas/connection.py", '''            self.buffer += data
''', '''            self.received += len(data)
            if self.received > 65536:
                # another turn of the counter of the modem
                self.received = len(data)
                self.buffer.clear()
            self.buffer += data
'''), ("elgas/connection.py", STATE, STATE + '''    received: int = attr.ib(init=False, default=0, repr=False, eq=False)
''')],
        needs="a response in two pieces with byte 65536 of the connection in the second",
        what="the first piece is lost, and the response with it",
        demo=FRAME + r'''
from elgas import application
c = connection()
for _ in range(5000):
    c.send(application.ReadTimeRequest())
    c.receive_data(TIME_RESPONSE[:9])
    c.receive_data(TIME_RESPONSE[9:])
    assert isinstance(c.next_event(), application.ReadTimeResponse)
''',
    ),
    dict(
        id="noise-gives-up", property="C12",
        edits=[("elgas/connection.py", '''            LOG.debug("Cannot interpret data as frame. Discarding it")
''', '''            self.discarded += 1
            if self.discarded > 2000:
                raise exceptions.LocalElgasProtocolError("Nothing but noise on the line")
            LOG.debug("Cannot interpret data as frame. Discarding it")
'''), ("elgas/connection.py", STATE, STATE + '''    discarded: int = attr.ib(init=False, default=0, repr=False, eq=False)
''')],
        needs="more than 2000 pieces of noise on one connection",
        what="noise is reported as a protocol error",
        demo=FRAME + r'''
from elgas import application
c = connection()
c.send(application.ReadTimeRequest())
for _ in range(2100):
    c.receive_data(b"abc\x0d")
    c.next_event()
c.receive_data(TIME_RESPONSE)
assert isinstance(c.next_event(), application.ReadTimeResponse)
''',
    ),
    dict(
        id="relayed-frame", property="C02",
        edits=[("elgas/frames.py", '''            return Response.from_bytes(in_data)
        elif''', '''            response = Response.from_bytes(in_data)
            if response.data.startswith(b"\\x02\\xfe\\x86") and response.data.endswith(b"\\x0d"):
                # a response that another device passed on
                return Response.from_bytes(response.data)
            return response
        elif''')],
        needs="a payload that looks like a response frame itself",
        what="the inner frame is given for the outer one, or the response is refused",
        demo=FRAME + r'''
from elgas import constants, frames
inner = frame(0x86, 0x6C, bytes(7))
got = frames.ResponseFactory.from_bytes(frame(0x86, 0x6C, inner, src=(7, 1)))
assert bytes(got.data) == inner and got.source_address_1 == 7
''',
    ),
    dict(
        id="series-name-inherits", property="C20",
        edits=[("elgas/integration.py", '''    objects = marshmallow.fields.List(
        marshmallow.fields.Nested(UtilitarianConfigurationObjectSchema)
    )
''', '''    objects = marshmallow.fields.List(
        marshmallow.fields.Nested(UtilitarianConfigurationObjectSchema)
    )

    @marshmallow.post_load
    def inherit(self, data, **kwargs):
        # an object without a name belongs to the series of the one before it
        name = None
        for item in data.get("objects", ()):
            if item["series_name"] is None and item["parameter_type"] == 32:
                item["series_name"] = name
            name = item["series_name"]
        return data
''')],
        needs="an object of type 32 without a series name after an object with one",
        what="the object is given a series name it did not have",
        demo=r'''
from elgas import integration
s = integration.UtilitarianConfigurationSchema()
items = [integration.UtilitarianConfigurationObject(t, {"a": 1}, n) for t, n in ((32, "volume"), (32, None), (122, None))]
back = s.loads(s.dumps(integration.UtilitarianConfiguration(items)))
assert [x["series_name"] for x in back["objects"]] == ["volume", None, None], back
''',
    ),
    dict(
        id="partial-answers-counted", property="C28",
        edits=[("elgas/client.py", '''            if event is state.NEED_DATA:
''', '''            if event is state.NEED_DATA:
                self.partial_answers += 1
                if self.partial_answers > 8:
                    raise exceptions.LocalElgasProtocolError("Too many partial answers")
'''), ("elgas/client.py", '''                continue
            return event
''', '''                continue
            self.partial_answers = 0
            return event
'''), ("elgas/client.py", "from elgas import application, connection, constants, parser", "from elgas import application, connection, constants, exceptions, parser"),
        ("elgas/client.py", '''    def connect(self):
''', '''    partial_answers: int = attr.ib(init=False, default=0, repr=False, eq=False)

    def connect(self):
''')],
        needs="more than eight sessions in a row that ended within an answer, then one with an answer in two pieces",
        what="the partial answers of earlier sessions make an operation of a new one fail",
        demo=FRAME + r'''
from elgas import client, exceptions


class Cut:
    pieces = []
    def connect(self): self.pieces = list(self.next)
    def disconnect(self): pass
    def send(self, data): pass
    def recv(self):
        if not self.pieces:
            raise exceptions.CommunicationError("silent")
        return self.pieces.pop(0)


line = Cut()
c = client.ElgasClient(line, "abcdef", 801)
for _ in range(10):
    line.next = [TIME_RESPONSE[:9]]
    c.connect()
    try:
        c.read_time()
    except exceptions.CommunicationError:
        pass
    c.disconnect()
line.next = [TIME_RESPONSE[:9], TIME_RESPONSE[9:]]
c.connect()
c.read_time()
''',
    ),
    dict(
        id="half-second-up", property="C05",
        edits=[("elgas/application.py", '''        out.extend(utils.datetime_to_bytes(self.device_time))
''', '''        # the device has no fractions of a second
        moment = self.device_time
        if moment.microsecond >= 500000:
            moment = moment + timedelta(seconds=1)
        out.extend(utils.datetime_to_bytes(moment))
''')],
        needs="a time to write of which more than half of the second has gone",
        what="the time is written one second late",
        demo=r'''
from datetime import datetime
from elgas import application
a, b = (application.WriteTimeRequest("abcdef", datetime(2024, 1, 31, 23, 59, 59, us)).to_bytes() for us in (0, 700000))
assert a[10:] == b[10:]
''',
    ),
    dict(
        id="known-with-client", property="C33",
        edits=[("elgas/parameters/factory.py", '''        ParameterObjectType.TIME_STATISTICS: TimeStatistics,
''', ""), ("elgas/client.py", '''LOG = structlog.get_logger("client")
''', '''LOG = structlog.get_logger("client")

# only devices that are read directly have these
factory.ParameterFactory.object_map[
    enumerations.ParameterObjectType.TIME_STATISTICS
] = statistics.TimeStatistics
'''), ("elgas/client.py", '''from elgas import application, connection, constants, parser, state, transport, utils
''', '''from elgas import application, connection, constants, parser, state, transport, utils
from elgas.parameters import enumerations, factory, statistics
''')],
        needs="a process that parses parameters without importing the client",
        what="objects of one type cannot be parsed there",
        demo=r'''
import subprocess, sys
from elgas.parameters.factory import ParameterFactory
from elgas.parameters.statistics import TimeStatistics
assert TimeStatistics in ParameterFactory.object_map.values()
''',
    ),
]
