import contextlib
import threading
import time

from vlib import clock
from vlib.engine import call, must
from vlib.peers import NEVER, Feeder, PtyPeer, TcpPeer, in_thread, peer
from vlib.threads import Threads, gen_plan
from vlib.world import gen_long

ID = "C23"
RULE = (
    "TCP (loopback) and serial (pseudo-terminal) transports against a real peer: generated message"
    " streams, written by the peer in generated pieces (at once or with pauses), received one by one,"
    " with sends of generated data in between, and reconnects; rarely 70-1100 messages in a row; non-trivial: at least two messages"
    " received or 10 bytes sent (distinct streams and data)"
)
ASSUMPTIONS = [
    "pauses of up to 60 ms stay below the timeout of 10 s or more also on a loaded machine",
    "serial lines are pseudo-terminals: baud rates have no effect on them",
]


def gen_message(s, serial=False):
    """A message with its end byte."""
    mode = s.weighted([(60, "short"), (20, "empty"), (20, "specials"), (9, "long"), (1, "longest")])
    if mode == "longest" and serial:
        mode = "long"  # a pseudo-terminal holds 4096 bytes
    if mode == "empty":
        body = b""
    elif mode == "short":
        body = s.bytes(0, 40)
    elif mode == "specials":
        body = bytes(s.choice((0x0A, 0x8D, 0x1B, 0x00, 0xFF, 0x11, 0x13, 0x03, 0x04)) for _ in range(s.int(1, 20)))
    elif mode == "long":
        body = s.bytes(100, 1200)
    else:
        # as long as the longest frame, and more when many of its bytes are replaced
        body = s.bytes(500, 1000) * s.int(2, 140)
    return body.replace(b"\x0d", b"\x0e") + b"\x0d"


def gen_data(s, serial):
    mode = s.weighted([(6, 0), (2, 1), (1, 2)])
    if mode == 0:
        return s.bytes(1, 40)
    if mode == 1 or serial:
        return s.bytes(100, 1500)
    if s.chance(0.93):
        return s.bytes(2000, 9000)
    # more than the buffers of the operating system
    return s.bytes(4001, 8000) * s.int(2000, 3000)


def transfer_out(s, r, p, t, key):
    data = gen_data(s, p.kind == "serial")
    if p.kind == "serial" and s.chance(0.08):
        # more than the line takes at once
        data = s.bytes(500, 1000) * s.int(9, 24)
    first = data
    more = []
    much = 4000 if p.kind == "serial" else 20000
    while s.chance(0.5 if len(data) > much else 0.2) and len(more) < 3:
        # before the peer has read the first
        more.append(s.bytes(1, 30))
    data += b"".join(more)
    if len(data) > much:
        got = []
        pause = s.choice((0.05, 0, 0.3))

        def reader():
            time.sleep(pause)
            got.append(p.read(len(data)))

        th = threading.Thread(target=reader, daemon=True)
        th.start()
        for x in [first] + more:
            must(r, "send", t.send, x)
        th.join(40)
        arrived = got[0] if got else b""
        r.label("sent more than the buffers hold")
    else:
        for x in [first] + more:
            must(r, "send", t.send, x)
        arrived = p.read(len(data))
    arrived += p.read_more()
    if arrived != data:
        at = next((i for i, (a, b) in enumerate(zip(arrived, data)) if a != b), len(arrived))
        r.fail(
            "the peer received other bytes than were sent",
            sent=data,
            received=arrived,
            first_difference=at,
            sizes=(len(data), len(arrived)),
        )
    key.append(data[:2000])
    return len(data)


def transfer_in(s, r, p, t, key):
    messages = [gen_message(s, p.kind == "serial") for _ in range(s.int(1, 6))]
    stream = b"".join(messages)
    if p.kind == "serial" and len(stream) > 2000:
        messages = [m for m in messages if len(m) < 300]
        stream = b"".join(messages)
        if not messages:
            return 0
    slow = s.chance(0.12) or len(stream) > 100000
    if s.bool():
        rest = s.bytes(1, 10).replace(b"\x0d", b"") if s.bool() else b""
    else:
        rest = b""
    pieces = s.split(stream + rest, 5)
    feeder = None
    if slow:
        waits = [s.weighted([(4, 0), (3, 0.003), (2, 0.012), (1, 0.06)]) for _ in pieces[:12]]
        waits += [0] * (len(pieces) - len(waits))
        feeder = Feeder(p, list(zip(waits, pieces)))
        feeder.start()
    else:
        for x in pieces:
            p.write(x)
    for i, m in enumerate(messages):
        if not slow and s.chance(0.08):
            # while the next messages wait to be received
            data = s.bytes(1, 20)
            must(r, "send", t.send, data)
            r.equal(p.read(len(data)), data, "bytes sent while a message waits")
            r.label("sent while a message waits")
        got = call(t.recv)
        r.check(
            got.ok and isinstance(got.value, (bytes, bytearray)) and bytes(got.value) == m,
            f"message {i} received: {got!r}",
            message=m,
            stream=stream,
            pieces=[len(x) for x in pieces],
            slow=slow,
        )
    if feeder:
        feeder.join(30)
    if rest:
        # the rest belongs to the next message
        end = gen_message(s, p.kind == "serial")
        p.write(end)
        got = call(t.recv)
        r.check(
            got.ok and bytes(got.value) == rest + end,
            f"message after a part of it came early: {got!r}",
            want=rest + end,
        )
    r.label("with pauses" if slow else "at once")
    key.append((stream, tuple(len(x) for x in pieces)))
    return len(messages)


def traffic(kind):
    def run(s, r):
        key = []
        if s.chance(0.1):
            r.label("in another thread")
            received, sent = in_thread(lambda: session(s, r, key))
        else:
            received, sent = session(s, r, key)
        r.label(kind)
        if received >= 2 or sent >= 10:
            r.nontrivial(kind, tuple(key))
            r.sample(kind=kind, transfers=key)

    def session(s, r, key):
        received = sent = 0
        with peer(kind) as p:
            t = p.transport(s.choice((None, 10, 12.5, 20, NEVER)))
            must(r, "connect", t.connect)
            p.accept()
            for _ in range(s.int(1, 4)):
                clock.pause(s, r, 0.1)
                if s.chance(0.35):
                    sent += transfer_out(s, r, p, t, key)
                else:
                    received += transfer_in(s, r, p, t, key)
                if s.chance(0.12):
                    if kind == "tcp":
                        # bytes the first connection leaves behind are not received in the second
                        first = gen_message(s, p.kind == "serial")
                        p.write(first + s.bytes(1, 8) + b"\x0d" + s.bytes(0, 3))
                        if s.bool():
                            got = must(r, "receive", t.recv)
                            r.equal(bytes(got), first, "message before the end of the connection")
                    must(r, "disconnect", t.disconnect)
                    if kind == "tcp":
                        p.close()
                    clock.pause(s, r)
                    must(r, "connect again", t.connect)
                    p.accept()
                    r.label("reconnected")
                    first = gen_message(s, p.kind == "serial")
                    p.write(first)
                    got = must(r, "receive", t.recv)
                    r.equal(bytes(got), first, "first message of the next connection")
            if kind == "tcp" and s.chance(0.1):
                # the other side has said all it has to say
                last = [gen_message(s) for _ in range(s.int(1, 3))]
                last = [m for m in last if len(m) < 2000]
                p.write(b"".join(last))
                if s.bool():
                    p.conn.shutdown(1)
                for i, m in enumerate(last):
                    got = call(t.recv)
                    r.check(
                        got.ok and bytes(got.value) == m,
                        f"message {i} from a peer that has closed its side: {got!r}",
                        message=m,
                    )
                received += len(last)
                key.append(tuple(last))
                r.label("closed its side")
            must(r, "disconnect", t.disconnect)
            more = p.read_more()
            r.check(more == b"", "the peer received more than was sent", more=more)
        return received, sent

    return run


def long(s, r):
    """Hundreds of messages over one connection."""
    kind = s.choice(("tcp", "serial"))
    few = [gen_message(s, True)[-40:] for _ in range(3)]
    n = gen_long(s)
    if kind == "serial":
        few = [x[-3:] for x in few]
    order = s.bytes(1, 12)
    messages = [few[order[i % len(order)] % 3] for i in range(n)]
    with peer(kind) as p:
        t = p.transport(10)
        must(r, "connect", t.connect)
        p.accept()
        at_once = s.bool()
        if at_once:
            stream = b"".join(messages)
            p.write(stream[:3000] if kind == "serial" else stream)
        sending = s.bool()
        for i, m in enumerate(messages):
            if not at_once:
                p.write(m)
            elif kind == "serial" and sum(map(len, messages[: i + 1])) > 3000:
                break
            if sending:
                must(r, f"send {i}", t.send, m)
                r.equal(p.read(len(m)), m, f"bytes of send {i}")
            got = call(t.recv)
            r.check(got.ok and bytes(got.value) == m, f"message {i} of {n}: {got!r}", want=m)
        must(r, "disconnect", t.disconnect)
    r.label("hundreds of messages")
    r.nontrivial("long", kind, n, order, tuple(few), at_once)


def together(s, r):
    """Several transports that receive and send at the same time, each in a thread of its own."""
    with contextlib.ExitStack() as stack:
        bodies, all_of_it = [], []
        for _ in range(s.weighted([(3, 2), (1, 3)])):
            kind = s.weighted([(2, "tcp"), (1, "serial")])
            p = TcpPeer() if kind == "tcp" else PtyPeer()
            stack.callback(p.shut)
            t = p.transport(s.choice((None, 30, 40)))
            must(r, "connect", t.connect)
            stack.callback(call, t.disconnect)
            p.accept()
            steps = []
            for _ in range(s.int(1, 4)):
                data = gen_message(s, True)[-60:]
                sending = s.chance(0.3)
                steps.append((sending, data))
                if not sending:
                    p.write(data)
            all_of_it.append((kind, p, steps))

            def body(t=t, steps=steps):
                return [call(t.send, data) if sending else call(t.recv) for sending, data in steps]

            bodies.append(body)
        threads = Threads(bodies, gen_plan(s))
        for i, (ok, got) in enumerate(threads.run()):
            kind, p, steps = all_of_it[i]
            r.check(ok, f"thread of {kind} transport {i} ended with {got!r}")
            for k, ((sending, data), out) in enumerate(zip(steps, got)):
                r.check(
                    out.ok and (sending or bytes(out.value) == data),
                    f"step {k} of {kind} transport {i}, others being used: {out!r}",
                    sending=sending,
                    want=data,
                    plan=threads.plan,
                )
            want = b"".join(data for sending, data in steps if sending)
            seen = p.read(len(want)) + p.read_more()
            r.equal(seen, want, f"bytes sent by {kind} transport {i}, others being used")
        r.label("several at the same time")
        if threads.switches >= 2:
            r.nontrivial("together", tuple(threads.plan), tuple(tuple(x[2]) for x in all_of_it))


FACETS = [
    (60, "together", together),
    (1500, "tcp", traffic("tcp")),
    (500, "serial", traffic("serial")),
    (4, "long", long),
]
QUICK = 10000
THOROUGH = 300000
