"""Uses of one part of the package, also in a process that has imported no more than this part.

    python alone.py REPO TASK     (input: JSON list of hexadecimal strings; output: JSON list)
"""

import json
import os
import re
import sys

KEY = bytes(range(7, 23))


def parser():
    from elgas.parser import ScadaParameterParser

    return lambda data: repr(ScadaParameterParser().parse(data))


def factory():
    from elgas.parameters.factory import ParameterFactory, ParameterSchemaFactory
    from elgas.parameters.enumerations import ParameterObjectType

    def use(data):
        # one object of a block
        t = ParameterObjectType(data[2])
        schema = ParameterSchemaFactory.by_parameter_id(t)()
        return json.dumps(schema.dump(ParameterFactory.from_bytes(t, bytearray(data[3:]))), default=repr)

    return use


def integration():
    from elgas import integration

    def use(data):
        schema = integration.UtilitarianConfigurationSchema()
        item = integration.UtilitarianConfigurationObject(data[0], {"a": data.hex()}, data[1:].decode("latin-1"))
        text = schema.dumps(integration.UtilitarianConfiguration(objects=[item, item]))
        return text, repr(schema.loads(text))

    return use


def frames():
    from elgas.frames import ResponseFactory

    def use(data):
        frame = ResponseFactory.from_bytes(data)
        return repr(frame), bytes(frame.to_bytes()).hex()

    return use


def application():
    from elgas import application

    classes = (
        application.ReadInstantaneousValuesResponse,
        application.ReadTimeResponse,
        application.ReadDeviceParametersResponse,
        application.ReadArchiveByTimeResponse,
        application.ReadArchiveResponse,
        application.WriteTimeResponse,
        application.CallRequest,
    )
    return lambda data: [attempt(c.from_bytes, data) for c in classes]


def requests():
    from datetime import datetime
    from elgas import application

    def use(data):
        a, b, c = data[0] % 10, data[1], data[2]
        when = datetime(2000 + a, 1 + b % 12, 1 + c % 28, b % 24, c % 60, a)
        made = (
            application.ReadInstantaneousValuesRequest(password="secret"),
            application.ReadTimeRequest(),
            application.ReadDeviceParametersRequest(password="secret", object_count=b, buffer_length=c),
            application.ReadArchiveRequest(password="secret", archive=application.Archive(a % 5), amount=b, oldest_record_id=c),
            application.ReadArchiveByTimeRequest(password="secret", archive=application.Archive(a % 5), amount=b, oldest_timestamp=when),
            application.WriteTimeRequest(password="secret", device_time=when),
        )
        # the fill of the password field is random
        return [attempt(lambda x=x: (x.to_bytes()[:6].hex(), x.to_bytes()[10:].hex())) for x in made]

    return use


def security():
    from elgas.security import CipherContext, EncryptionKeyId

    def use(data):
        context = CipherContext(EncryptionKeyId(1), KEY)
        secret = context.encrypt(data)
        return len(secret), bytes(context.decrypt(secret)).hex(), attempt(context.decrypt, data)

    return use


def connection():
    from elgas.connection import ElgasConnection
    from elgas.application import ReadTimeRequest

    def use(data):
        c = ElgasConnection(1, 2, 3, 4, "secret", 801)
        out = bytes(c.send(ReadTimeRequest())).hex()
        c.receive_data(data + b"\x0d")
        return out, attempt(c.next_event), attempt(c.next_event)

    return use


def client():
    from elgas.client import ElgasClient
    from elgas.exceptions import CommunicationError

    class Line:
        answers = ()

        def connect(self):
            pass

        def disconnect(self):
            pass

        def send(self, wire):
            self.answers = [self.data]

        def recv(self):
            if not self.answers:
                raise CommunicationError("silent")
            return self.answers.pop()

    def use(data):
        line = Line()
        line.data = data + b"\x0d"
        c = ElgasClient(line, "secret", 801)
        c.connect()
        return attempt(c.read_time), attempt(c.read_parameters), attempt(c.read_instantaneous_values)

    return use


def utils():
    from elgas.utils import bytes_to_datetime, datetime_to_bytes, escape_characters, return_characters

    def use(data):
        return (
            attempt(escape_characters, data + b"\x0d"),
            attempt(return_characters, data + b"\x0d"),
            attempt(bytes_to_datetime, data[:6]),
        )

    return use


def transport():
    from elgas.transport import BlockingTcpTransport, SerialTransport

    def use(data):
        out = []
        for t in (BlockingTcpTransport("127.0.0.1", data[0] + 1), SerialTransport("/nonexistent", 9600)):
            out += [attempt(t.send, data), attempt(t.recv), attempt(t.disconnect)]
        return out

    return use


TASKS = {
    f.__name__: f
    for f in (parser, factory, integration, frames, application, requests, security, connection, client, utils, transport)
}


def attempt(fn, *args):
    try:
        return re.sub(r" at 0x[0-9a-f]+", "", repr(fn(*args)))
    except Exception as e:
        return type(e).__name__


def results(task, inputs):
    use = TASKS[task]()
    return [attempt(use, data) for data in inputs]


def there(repo, task, inputs):
    """The results in a process of its own, or what it says when it ends."""
    import subprocess

    done = subprocess.run(
        [sys.executable, "-B", "-I", os.path.abspath(__file__), repo, task],
        input=json.dumps([x.hex() for x in inputs]),
        capture_output=True,
        text=True,
        timeout=60,
        env={"PATH": os.environ.get("PATH", ""), "PYTHONHASHSEED": "0"},
    )
    if done.returncode:
        return done.stderr[-400:]
    return json.loads(done.stdout.splitlines()[-1])


if __name__ == "__main__":
    out = sys.stdout
    sys.stdout = open(os.devnull, "w")
    sys.path.insert(0, sys.argv[1])
    given = [bytes.fromhex(x) for x in json.load(sys.stdin)]
    out.write("\n" + json.dumps(results(sys.argv[2], given)) + "\n")
