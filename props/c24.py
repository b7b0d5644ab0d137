import random
import threading
import time

from elgas import exceptions
from props.c23 import gen_message
from vlib.engine import call, must
from vlib.peers import Feeder, peer

ID = "C24"
RULE = (
    "TCP and serial transports with timeouts of 20-200 ms against a peer that sends 0-3 whole messages"
    " and a part of one (cut anywhere, at once or with pauses) and then closes, resets, stays silent"
    " or trickles bytes without an end byte; non-trivial: every distinct (end, messages, part, pieces)"
)
ASSUMPTIONS = [
    "a verdict on waiting times is only given after several attempts with growing timeouts, so that a"
    " loaded machine does not matter; shorter overruns than half a second are not seen",
]
GIVE_UP = 8.0
NO_END = bytes(b for b in range(256) if b != 0x0D)


def scene(s, part_at_least=0):
    messages = [gen_message(s) for _ in range(s.weighted([(4, 0), (3, 1), (1, 3)]))]
    messages = [m for m in messages if len(m) < 400]
    whole = gen_message(s)[:300]
    part = whole[: s.int(0, len(whole))].replace(b"\x0d", b"\x0b")
    if len(part) < part_at_least:
        part = b"\x02" * part_at_least
    stream = b"".join(messages) + part
    pieces = s.split(stream, 4)
    pauses = [0.0] * len(pieces)
    if s.chance(0.1) and pieces:
        pauses[s.int(0, len(pieces) - 1)] = 0.004
    return messages, part, list(zip(pauses, pieces))


def is_comm(got):
    return isinstance(got.error, exceptions.CommunicationError)


def receive_whole(r, t, messages, detail):
    for i, m in enumerate(messages):
        got = call(t.recv)
        r.check(
            got.ok and bytes(got.value) == m, f"whole message {i} before the end: {got!r}", **detail
        )


def disconnect(t):
    """What disconnecting after a failure gives is the matter of another property."""
    call(t.disconnect)


def closing(s, r):
    """The peer closes: communication error right after the whole messages."""
    messages, part, pieces = scene(s)
    detail = {"messages": messages, "part": part}
    with peer("tcp") as p:
        t = p.transport(s.choice((None, 10, 15)))
        must(r, "connect", t.connect)
        p.accept()
        if s.chance(0.3):
            # shut down only the sending side
            Feeder(p, pieces).run()
            p.conn.shutdown(1)
        else:
            Feeder(p, pieces).run()
            p.close()
        receive_whole(r, t, messages, detail)
        for _ in range(s.int(1, 2)):
            got = call(t.recv)
            r.check(is_comm(got), f"receiving after the peer closed {got!r}", **detail)
        disconnect(t)
    r.label("close inside a message" if part else "close between messages")
    r.nontrivial("close", tuple(messages), part, tuple(x for _, x in pieces))
    r.sample(end="close", messages=messages, part=part)


def resetting(s, r):
    """A reset may swallow data on the way; what comes is whole messages, then the error."""
    messages, part, pieces = scene(s)
    detail = {"messages": messages, "part": part}
    with peer("tcp") as p:
        t = p.transport(s.choice((None, 10)))
        must(r, "connect", t.connect)
        p.accept()
        Feeder(p, pieces).run()
        early = s.int(0, len(messages)) if s.bool() else 0
        receive_whole(r, t, messages[:early], detail)
        p.reset()
        for m in messages[early:] + [None]:
            got = call(t.recv)
            if is_comm(got):
                break
            r.check(
                got.ok and bytes(got.value) == m,
                f"receiving after a reset {got!r}",
                expected=m,
                **detail,
            )
        r.check(is_comm(got), f"receiving after a reset ends with {got!r}", **detail)
        disconnect(t)
    r.label("reset")
    r.nontrivial("reset", tuple(messages), part, tuple(x for _, x in pieces), early)


def silence(kind):
    def run(s, r):
        messages, part, pieces = scene(s)
        plain = [(0.0, x) for _, x in pieces]
        sent = gen_requests(s, s.weighted([(3, 2), (2, 3), (1, 4)]))
        jump = gen_jump(s)
        timeout = s.choice((0.02, 0.03, 0.05))
        earlier = gen_earlier(s)
        for attempt in range(4):
            with Clock(jump):
                bad = silent_once(kind, sent, r, messages, part, plain, timeout, earlier)
            if bad is None:
                break
            timeout = min(3.0, timeout * 6)
        r.check(bad is None, bad or "", messages=messages, part=part)
        r.label(f"{kind}: silence inside a message" if part else f"{kind}: silence")
        r.nontrivial(kind, "silence", tuple(messages), part)
        r.sample(kind=kind, end="silence", messages=messages, part=part, timeout=timeout)

    return run


def silent_once(kind, sent, r, messages, part, pieces, timeout, earlier):
    """None, or what looks wrong (and may be due to a slow machine)."""
    with peer(kind) as p:
        t = connected(r, p, timeout, earlier)
        request(r, t, sent[0])
        Feeder(p, pieces).run()
        try:
            for i, m in enumerate(messages):
                got = call(t.recv)
                if not got.ok or bytes(got.value) != m:
                    return f"whole message {i} before the silence: {got!r}"
            for again in sent[1:]:
                # also again, after the first time
                watch = threading.Timer(GIVE_UP + 2 * timeout, lambda: wake(p))
                watch.daemon = True
                watch.start()
                start = time.monotonic()
                got = call(t.recv)
                took = time.monotonic() - start
                watch.cancel()
                if took > 2 * timeout + 1.0:
                    return f"receiving from a silent peer took {took:.2f} s with a timeout of {timeout} s"
                if not is_comm(got):
                    return f"receiving from a silent peer {got!r}"
                request(r, t, again)
            return None
        finally:
            disconnect(t)


def late(kind):
    """A peer that goes on only long after the timeout finds nobody waiting."""

    def run(s, r):
        messages, part, pieces = scene(s)
        rest = s.bytes(0, 5, NO_END) + b"\x0d"
        part = part[:20]
        sent = gen_requests(s, 1)
        timeout = s.choice((0.02, 0.03))
        for attempt in range(5):
            bad = late_once(kind, sent, r, part, rest, timeout)
            if bad is None:
                break
            timeout = min(2.0, timeout * 5)
        r.check(bad is None, bad or "", part=part, rest=rest)
        r.label(f"{kind}: late inside a message" if part else f"{kind}: late")
        r.nontrivial(kind, "late", part, rest)
        r.sample(kind=kind, end="late", part=part, rest=rest, timeout=timeout)

    return run


def late_once(kind, sent, r, part, rest, timeout):
    with peer(kind) as p:
        t = p.transport(timeout)
        must(r, "connect", t.connect)
        p.accept()
        request(r, t, sent[0])
        go = threading.Event()
        if part:
            p.write(part)

        def resume():
            go.wait(10)
            time.sleep(timeout * 1.6)
            try:
                p.write(rest)
            except OSError:
                pass

        thread = threading.Thread(target=resume, daemon=True)
        thread.start()
        try:
            go.set()
            got = call(t.recv)
            if is_comm(got):
                return None
            return f"receiving from a peer that is silent for 1.6 times the timeout {got!r}"
        finally:
            thread.join(10)
            disconnect(t)


def gen_earlier(s):
    """The timeout of a session before (None: there was none)."""
    return s.weighted([(6, None), (1, 30), (1, 0.3)])


def connected(r, p, timeout, earlier):
    """A connected transport whose timeout was another one in its first session, if any."""
    t = p.transport(timeout if earlier is None else earlier)
    must(r, "connect", t.connect)
    p.accept()
    if earlier is not None:
        if earlier > 1:
            p.write(b"\x02\x0d")
            must(r, "receive", t.recv)
        must(r, "disconnect", t.disconnect)
        if p.kind == "tcp":
            p.close()
        t.timeout = timeout
        must(r, "connect again", t.connect)
        p.accept()
        r.label("timeout changed between sessions")
    return t


def wake(p):
    try:
        p.write(b"\x0d")
    except OSError:
        pass


def gen_requests(s, n):
    """What a client sends before it waits (for the first time, again, ...); may be nothing."""
    return [s.bytes(s.choice((1, 14, 40, 65, 120))) if s.bool() else b"" for _ in range(n)]


class Clock:
    """Somebody sets the clock of the machine, again and again (or not, if jump is 0)."""

    def __init__(self, jump):
        self.jump, self.set = jump, 0
        self.real = time.time

    def __enter__(self):
        if self.jump:
            time.time = self.time

    def time(self):
        self.set += self.jump
        return self.real() + self.set

    def __exit__(self, *exc):
        time.time = self.real


def gen_jump(s):
    return s.weighted([(3, 0), (1, -3600), (1, 3600), (1, 0.001)])


def request(r, t, data):
    if data:
        must(r, "send", t.send, data)
        r.label("after sending")


def patience(kind):
    """Many receives in a row: the last one waits as long as the first one."""

    def run(s, r):
        sent = gen_requests(s, 8)
        timeout = 0.1
        for attempt in range(4):
            bad = patience_once(kind, sent, r, timeout)
            if bad is None:
                break
            timeout = min(0.9, timeout * 3)
        r.check(bad is None, bad or "")
        r.label(f"{kind}: silence, again and again")
        r.nontrivial(kind, "patience", tuple(sent))

    return run


def patience_once(kind, sent, r, timeout):
    with peer(kind) as p:
        t = p.transport(timeout)
        must(r, "connect", t.connect)
        p.accept()
        try:
            for i, data in enumerate(sent):
                request(r, t, data)
                watch = threading.Timer(GIVE_UP, lambda: wake(p))
                watch.daemon = True
                watch.start()
                start = time.monotonic()
                got = call(t.recv)
                took = time.monotonic() - start
                watch.cancel()
                if not is_comm(got):
                    return f"receive {i} from a silent peer {got!r}"
                if took > 2.5 * timeout + 0.1:
                    return f"receive {i} from a silent peer took {took:.2f} s with a timeout of {timeout} s"
            return None
        finally:
            disconnect(t)


class Trickle(threading.Thread):
    def __init__(self, p, data, pause, size):
        super().__init__(daemon=True)
        self.p, self.pause, self.size = p, pause, size
        self.data = data * (size // len(data) + 2)
        self.period = len(data)
        self.stop = threading.Event()
        self.finished = False

    def run(self):
        end = time.monotonic() + GIVE_UP
        i = 0
        try:
            while not self.stop.is_set() and time.monotonic() < end:
                at = i % self.period
                self.p.write(self.data[at : at + self.size])
                i += self.size
                self.stop.wait(self.pause)
            if not self.stop.is_set():
                self.finished = True
                self.p.write(b"\x0d")
        except OSError:
            pass


def trickle(kind):
    def run(s, r):
        messages, part, pieces = scene(s, 1)
        sent = gen_requests(s, 1)
        jump = gen_jump(s)
        timeout = s.choice((0.03, 0.05, 0.1))
        pause = s.choice((0.002, 0.005, 0.01, 0.02))
        size = s.choice((1, 1, 7, 30))
        earlier = gen_earlier(s)
        for attempt in range(4):
            with Clock(jump):
                bad = trickle_once(kind, sent, r, messages, part, pieces, timeout, pause, size, earlier)
            if bad is None:
                break
            timeout = min(0.6, timeout * 3)
        r.check(bad is None, bad or "", messages=messages, part=part)
        r.label(f"{kind}: trickle")
        if jump:
            r.label("clock set meanwhile")
        r.nontrivial(kind, "trickle", tuple(messages), part, size)

    return run


def trickle_once(kind, sent, r, messages, part, pieces, timeout, pause, size, earlier):
    with peer(kind) as p:
        t = connected(r, p, timeout, earlier)
        thread = None
        request(r, t, sent[0])
        try:
            if messages:
                p.write(b"".join(messages))
            for i, m in enumerate(messages):
                got = call(t.recv)
                if not got.ok or bytes(got.value) != m:
                    return f"whole message {i} before the trickle: {got!r}"
            thread = Trickle(p, part, pause, size)
            thread.start()
            start = time.monotonic()
            got = call(t.recv)
            took = time.monotonic() - start
            if took > 2 * timeout + 0.5:
                return f"receiving took {took:.2f} s with a timeout of {timeout} s"
            if got.ok:
                value = bytes(got.value)
                if value.endswith(b"\x0d"):
                    return f"a complete message out of an incomplete one: {got!r}"
                n = len(value)
                if value != (part * (n // len(part) + 1))[:n]:
                    return f"other bytes than were sent: {got!r}"
            elif not is_comm(got):
                return f"receiving from a trickling peer {got!r}"
            return None
        finally:
            if thread:
                thread.stop.set()
                thread.join(10)
            disconnect(t)


FACETS = [
    (120, "close", closing),
    (50, "reset", resetting),
    (40, "silence", silence("tcp")),
    (30, "silence serial", silence("serial")),
    (30, "late", late("tcp")),
    (20, "late serial", late("serial")),
    (10, "trickle", trickle("tcp")),
    (10, "trickle serial", trickle("serial")),
    (1, "patience", patience("tcp")),
    (1, "patience serial", patience("serial")),
]
QUICK = 9000
THOROUGH = 250000


UNSET = 25.0  # (the timeout of a transport that was given none is 10 s)


def unset_once(kind, part, out):
    """A transport that was given no timeout, and a peer that falls silent."""
    with peer(kind) as p:
        t = p.transport(None)
        t.connect()
        p.accept()
        if part:
            p.write(part)
        watch = threading.Timer(UNSET, lambda: wake(p))
        watch.daemon = True
        watch.start()
        start = time.monotonic()
        got = call(t.recv)
        took = time.monotonic() - start
        watch.cancel()
        disconnect(t)
        if took >= UNSET:
            out[kind] = f"{kind} transport without a timeout of its own waits more than {took:.0f} s"
        elif not is_comm(got):
            out[kind] = f"{kind} transport without a timeout of its own, peer silent: {got!r}"
        else:
            out[kind] = None


def unset(parts):
    """What is wrong, for each kind of transport."""
    out = {}
    for attempt in range(2):
        threads = [
            threading.Thread(target=unset_once, args=(kind, part, out), daemon=True)
            for kind, part in parts.items()
            if out.get(kind, "?") is not None
        ]
        for thread in threads:
            thread.start()
        for thread in threads:
            thread.join(3 * UNSET)
    return out


def EXTRA(tier, seed, listed):
    rng = random.Random(seed)
    parts = {
        kind: bytes(rng.choice(NO_END) for _ in range(rng.choice((0, 1, 14, 40))))
        for kind in ("tcp", "serial")
    }
    out = unset(parts)
    for kind, bad in out.items():
        if bad:
            return {
                "replay": {
                    "property": ID,
                    "kind": kind,
                    "part": parts[kind].hex(),
                    "message": bad,
                    "detail": {"part": parts[kind].hex()},
                }
            }
    if len(out) != 2:
        return {"error": f"only {sorted(out)} judged without a timeout"}
    return {"coverage": {"transports_without_timeout_setting": {k: v.hex() for k, v in parts.items()}}}


def REPLAY(data):
    bad = unset({data["kind"]: bytes.fromhex(data["part"])}).get(data["kind"])
    return {"message": bad, "detail": {}} if bad else None
