import collections
import copy
import pickle
import pprint
import random

import attr

from elgas import connection
from props.c22 import SERVICES, perform
from vlib import ref
from vlib.device import Line
from vlib.engine import call, must
from vlib.world import PW_CHARS, gen_request, gen_response, gen_setup

ID = "C26"
RULE = (
    "a client with a generated password (0-6 characters) and key, alone and after 0-3 operations:"
    " all representations (repr, str, format, %, nested in containers and other objects) of client,"
    " connection, cipher context and requests are the same as with other secrets of the same length,"
    " and do not contain the secrets; secrets compare, hash, encode and encrypt as given; non-trivial:"
    " distinct (password, key)"
)

Pair = collections.namedtuple("Pair", "name thing")


@attr.s(auto_attribs=True)
class Holder:
    thing: object


class Plain:
    def __init__(self, thing):
        self.thing = thing

    def __repr__(self):
        return f"Plain({self.thing!r})"


def copied(how):
    """Representation of a copy; of the thing itself where it cannot be copied."""

    def way(x):
        try:
            x = how(x)
        except Exception:
            pass
        return repr(x)

    return way


WAYS = {
    "copy": copied(copy.copy),
    "deep copy": copied(copy.deepcopy),
    "deep copy in a list": copied(lambda x: copy.deepcopy([x, x])),
    "pickle": copied(lambda x: pickle.loads(pickle.dumps(x))),
    "repr": repr,
    "str": str,
    "format": lambda x: f"{x}",
    "format !r": lambda x: f"{x!r}",
    "format method": "{}".format,
    "percent r": lambda x: "%r" % (x,),
    "percent s": lambda x: "%s" % (x,),
    "ascii": ascii,
    "list": lambda x: repr([x]),
    "tuple": lambda x: str((x, 1)),
    "dict": lambda x: repr({"a": x}),
    "list of list": lambda x: f"{[[x]]}",
    "deque": lambda x: repr(collections.deque([x])),
    "namedtuple": lambda x: repr(Pair("a", x)),
    "object": lambda x: repr(Holder(x)),
    "plain object": lambda x: str([Plain(x)]),
    "exception": lambda x: repr(ValueError(x)),
    "exception text": lambda x: str(ValueError(x, 1)),
    "pprint": pprint.pformat,
    "pprint list": lambda x: pprint.pformat([{"a": x}]),
}


def gen_short_password(s):
    n = s.weighted([(4, 6), (1, 5), (1, 4), (2, None)])
    if n is None:
        n = s.int(0, 6)
    raw = s.bytes(n)
    if s.chance(0.2):
        return "".join(s.choice("'\"\\\n\t{}%\x00\x7f<>é´ÿ") for _ in range(n))
    return bytes(PW_CHARS[b % len(PW_CHARS)] for b in raw).decode("latin-1")


def changed(s, value):
    """Another secret of the same length."""
    if isinstance(value, str):
        raw = s.bytes(len(value))
        return bytes(PW_CHARS[b % len(PW_CHARS)] for b in raw).decode("latin-1")
    return s.bytes(len(value)) if value is not None else None


def scenario(r, setup, steps, seed, ways, filling, as_array=False):
    """All renderings in a session, as a list of (what, way, text)."""
    random.seed(seed)
    line = Line(None)
    if as_array:
        setup = attr.evolve(setup, key=bytearray(setup.key))
    c = setup.client(line)
    out = []
    created = []
    requests = []
    original = connection.ElgasConnection.send

    def send(self, event):
        created.append(event)
        return original(self, event)

    def render(what, thing):
        for way in ways:
            text = must(r, f"{way} of {what}", WAYS[way], thing)
            out.append((what, way, text))

    def look(when):
        render(f"client {when}", c)
        render(f"connection {when}", c.elgas_connection)
        render(f"cipher context {when}", c.elgas_connection.cipher_context)
        for e in created:
            name = type(e).__name__
            render(name, e)
            if name != "ReadTimeRequest":
                r.check(e.password == setup.password, f"password of {name} as given")
        del created[:]

    look("at first")
    connection.ElgasConnection.send = send
    try:
        must(r, "connect", c.connect)
        look("connected")
        for req, stream in steps:
            req = attr.evolve(req, password=setup.password)

            def answer(wire):
                requests.append((req, wire))
                payload = stream if isinstance(stream, bytes) else bytes((stream,))
                if setup.encrypted:
                    pad = bytes(ref.padding_needed(len(payload)))
                    inner = ref.encrypt(payload, setup.key, setup.key_id, pad)
                    frame = ref.build_frame(ref.ENC_RESPONSE, req.service, 0, 0, 0, 0, inner)
                else:
                    frame = ref.build_frame(ref.RESPONSE, req.service, 0, 0, 0, 0, payload)
                return [ref.stuff(frame)]

            line.answer = answer
            call(perform, c, req, True)
            look("after an operation")
        if filling:
            c.elgas_connection.receive_data(filling)
            look("with received bytes")
    finally:
        connection.ElgasConnection.send = original
    return c, out, requests


def usable(s, r, setup, c, requests, as_array):
    pw, key = setup.password, setup.key
    conn = c.elgas_connection
    for name, value in (("client", c.password), ("connection", conn.password)):
        r.check(value == pw and pw == value, f"password of the {name} equals the original")
        r.check(isinstance(value, str), f"password of the {name} is a string")
        r.check(hash(value) == hash(pw), f"hash of the password of the {name}")
        r.check(len(value) == len(pw) and str(value) + "" == pw, f"text of the password of the {name}")
        r.check(value.encode("latin-1") == pw.encode("latin-1"), f"encoded password of the {name}")
    if key:
        for name, value in (("client", c.encryption_key), ("connection", conn.encryption_key)):
            r.check(value == key and key == value, f"key of the {name} equals the original")
            r.check(bytes(value) == key and len(value) == len(key), f"bytes of the key of the {name}")
            if not as_array:
                r.check(hash(value) == hash(key), f"hash of the key of the {name}")
    if setup.encrypted:
        data = s.bytes(0, 40)
        made = must(r, "encrypting", conn.cipher_context.encrypt, data)
        r.check(ref.decrypt(made, key, setup.key_id) == data, "encrypts with the key as given", made=made)
        pad = s.bytes(ref.padding_needed(len(data)))
        back = must(
            r, "decrypting", conn.cipher_context.decrypt, ref.encrypt(data, key, setup.key_id, pad)
        )
        r.check(bytes(back) == data, "decrypts with the key as given", back=back)
    for req, wire in requests:
        setup.read_request(wire)
        if len(pw) == 6:
            setup.check_request(r, wire, req, (0, 0, 0, 0))
        elif req.service != ref.READ_TIME:
            _, payload = setup.read_request(wire)
            r.equal(bytes(payload[: len(pw)]), pw.encode("latin-1"), "password sent", wire=wire)


def secrets(s, r):
    setup = attr.evolve(gen_setup(s), password=gen_short_password(s))
    if setup.key is not None and s.chance(0.2):
        # keys that read like text
        setup.key = bytes(s.choice(b"'\"\\abc\n{}%") for _ in range(16))
    steps = []
    for _ in range(s.int(0, 3)):
        req = gen_request(s, setup.password, s.choice(SERVICES))
        resp = gen_response(s, req.service)
        steps.append((req, s.int(1, 255) if s.chance(0.2) else resp.payload))
    filling = s.bytes(1, 10) if s.chance(0.2) else b""
    filling = filling.replace(b"\r", b"")
    ways = sorted({s.choice(sorted(WAYS)) for _ in range(3)} | {"repr", "str"})
    seed = s.raw_int(0xFFFFFFFF)
    other = attr.evolve(
        setup, password=changed(s, setup.password), key=changed(s, setup.key)
    )
    as_array = bool(setup.key) and s.chance(0.1)
    c, texts, requests = scenario(r, setup, steps, seed, ways, filling, as_array)
    _, others, _ = scenario(r, other, steps, seed, ways, filling, as_array)
    r.check(
        [x[:2] for x in texts] == [x[:2] for x in others], "same objects rendered", a=texts, b=others
    )
    for (what, way, a), (_, _, b) in zip(texts, others):
        r.check(
            a == b,
            f"{way} of the {what} depends on the secrets",
            one=a,
            password=setup.password,
            key=setup.key,
            other=b,
        )
        if len(setup.password) >= 6:
            # (text that is there with any other password is no leak)
            r.check(setup.password not in a or setup.password in b, f"{way} of the {what} shows the password", text=a)
        if setup.key:
            k = setup.key
            shown = [x for x in (repr(k)[2:-1], k.hex()) if x in a.lower() or x in a]
            r.check(
                all(x in b or x in b.lower() for x in shown),
                f"{way} of the {what} shows the key",
                text=a,
            )
    usable(s, r, setup, c, requests, as_array)
    r.label("encrypted" if setup.encrypted else "key without id" if setup.key else "plain")
    r.label(f"{len(steps)} operations")
    if as_array:
        r.label("key given as a bytearray")
    r.nontrivial(setup.password, setup.key)
    r.sample(password=setup.password, key=setup.key, rendered=texts[0])


FACETS = [(1, "secrets", secrets)]
QUICK = 30000
THOROUGH = 400000
