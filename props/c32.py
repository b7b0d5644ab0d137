import array
import contextlib
import fcntl
import os
import pty
import random
import select
import socket
import struct
import termios

from elgas import exceptions, transport
from props.c23 import together
from vlib import clock
from vlib.engine import call, must

ID = "C32"
RULE = (
    "1-3 transports with generated endpoints among several listening sockets (same port on other"
    " addresses, other ports on the same address, one where nobody listens) or pseudo-terminals left"
    " with generated line settings; histories of connect, transfer, disconnect and changes of the"
    " settings; the peers see who was reached, and the kernel shows the line settings; non-trivial:"
    " at least one connection (distinct endpoints, settings and history)"
)
ASSUMPTIONS = ["serial lines are pseudo-terminals: their settings are read back from the kernel"]

ADDRESSES = ("127.0.0.1", "127.0.0.2", "127.1.2.3", "127.255.0.9")
BAUD = (50, 300, 1200, 2400, 4800, 9600, 19200, 38400, 57600, 115200, 230400, 921600)
TCGETS2 = 0x802C542A
WAIT = 30


def has_ipv6():
    """Whether this machine has the loopback address of IPv6."""
    try:
        with socket.socket(socket.AF_INET6) as probe:
            probe.bind(("::1", 0))
        return True
    except OSError:
        return False


if has_ipv6():
    ADDRESSES += ("::1",)


class Listener:
    def __init__(self, address, port, listen=True):
        self.sock = socket.socket(socket.AF_INET6 if ":" in address else socket.AF_INET)
        self.sock.bind((address, port))
        if listen:
            self.sock.listen(8)
            self.sock.settimeout(WAIT)
        self.listening = listen
        self.address, self.port = self.sock.getsockname()[:2]

    def waiting(self):
        return self.listening and bool(select.select([self.sock], [], [], 0)[0])

    def shut(self):
        self.sock.close()


def gen_listeners(s):
    out = []
    try:
        for _ in range(s.int(2, 4)):
            address = s.choice(ADDRESSES)
            port = 0
            if out and s.chance(0.7):
                known = s.choice(out)
                if s.bool():
                    port = known.port
                else:
                    address = known.address
            listen = not s.chance(0.15)
            try:
                out.append(Listener(address, port, listen))
            except OSError:
                out.append(Listener(address, 0, listen))
    except BaseException:
        for l in out:
            l.shut()
        raise
    return out


def gen_text(s):
    return s.bytes(1, 20).replace(b"\x0d", b"\x0e") + b"\x0d"


def drop(conn):
    """Close so that no port stays occupied for a minute."""
    conn.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
    conn.close()


class Names:
    """Host names that stand for one or more addresses, for this process."""

    def __init__(self):
        self.known = {}
        self.saved = {}
        self.quiet = {}

    def __enter__(self):
        for name in ("getaddrinfo", "gethostbyname", "gethostbyname_ex"):
            self.saved[name] = getattr(socket, name)
            setattr(socket, name, getattr(self, name))
        self.connect = socket.socket.connect
        names = self

        def connect(sock, address):
            if isinstance(address, tuple) and address[0] in names.known:
                family = sock.family
                found = names.getaddrinfo(*address[:2], family=family)
                address = found[0][4]
            return names.connect(sock, address)

        socket.socket.connect = connect
        return self

    def __exit__(self, *exc):
        for name, value in self.saved.items():
            setattr(socket, name, value)
        del socket.socket.connect
        for sock in self.quiet.values():
            sock.close()

    def keep_quiet(self, address, port, listeners):
        """Occupy an endpoint, so that nobody listens there; False if a stranger may do so."""
        if any((l.address, l.port) == (address, port) for l in listeners):
            return True
        if (address, port) not in self.quiet:
            sock = socket.socket(socket.AF_INET6 if ":" in address else socket.AF_INET)
            try:
                sock.bind((address, port))
            except OSError:
                sock.close()
                return False
            self.quiet[address, port] = sock
        return True

    def of(self, host):
        if isinstance(host, bytes):
            host = host.decode("ascii")
        return self.known.get(host)

    def getaddrinfo(self, host, port, *args, **kwargs):
        found = []
        real = self.saved["getaddrinfo"]
        for address in self.of(host) or (host,):
            try:
                found += real(address, port, *args, **kwargs)
            except socket.gaierror as e:
                # (no address of this family)
                error = e
        if not found:
            raise error
        return found

    def gethostbyname(self, host):
        return self.gethostbyname_ex(host)[2][0]

    def gethostbyname_ex(self, host):
        known = self.of(host)
        if known is None:
            return self.saved["gethostbyname_ex"](host)
        known = [a for a in known if ":" not in a]
        if not known:
            raise socket.gaierror(socket.EAI_NONAME, "no address of this family")
        return host, [], known


class TcpSession:
    """One transport and what has to be true of it."""

    def __init__(self, s, listeners, names):
        self.listeners = listeners
        self.names = names
        self.want = s.choice(listeners)
        self.name = self.want.address
        self.t = transport.BlockingTcpTransport(host=self.host(s), port=self.want.port, timeout=WAIT)
        self.conn = None
        self.log = [("endpoint", self.t.host, listeners.index(self.want))]

    def host(self, s):
        if self.want.address == "127.0.0.1" and s.chance(0.3):
            return "localhost"
        if s.chance(0.3):
            # a name that stands for the address, and for others where somebody or nobody listens
            all_of_it = [self.want.address]
            for _ in range(s.weighted([(2, 0), (2, 1), (1, 2)])):
                where, address = s.int(0, len(all_of_it)), s.choice(ADDRESSES)
                if self.names.keep_quiet(address, self.want.port, self.listeners):
                    all_of_it.insert(where, address)
            if self.name.endswith(".example") and s.bool():
                # the known name stands for something else from now on
                name = self.name
            else:
                name = f"device-{len(self.names.known)}.example"
            self.names.known[name] = all_of_it
            self.name = name
            return name
        return self.want.address

    def change(self, s, r):
        self.want = s.choice(self.listeners)
        host, self.t.port = self.host(s), self.want.port
        if self.t.host != host:
            self.t.host = host
        self.log.append(("changed", self.t.host, self.names.known.get(host), self.listeners.index(self.want)))

    def candidates(self):
        """Who may be reached: one of them has to be."""
        addresses = self.names.known.get(self.t.host) or [self.want.address]
        return [
            l
            for l in self.listeners
            if l.listening and l.port == self.t.port and l.address in addresses
        ]

    def connect(self, s, r):
        got = call(self.t.connect)
        allowed = self.candidates()
        for l in self.listeners:
            if l not in allowed:
                r.check(
                    not l.waiting(),
                    "connected to another endpoint than configured",
                    configured=(self.want.address, self.want.port),
                    reached=(l.address, l.port),
                    history=self.log,
                )
        if not allowed:
            r.check(
                isinstance(got.error, exceptions.CommunicationError),
                f"connecting where nobody listens {got!r}",
                history=self.log,
            )
            self.log.append("refused")
            r.label("tcp: refused")
            return
        r.check(got.ok, f"connect {got!r}", endpoint=(self.t.host, self.t.port), history=self.log)
        ready = select.select([l.sock for l in allowed], [], [], WAIT)[0]
        r.check(ready, "the configured endpoint saw no connection", history=self.log)
        self.conn, _ = ready[0].accept()
        self.conn.settimeout(WAIT)
        again = any(l.waiting() for l in allowed)
        r.check(not again, "more than one connection was made", history=self.log)
        if len(allowed) > 1:
            r.label("name of several listeners")
        self.log.append("connected")

    @property
    def open(self):
        return self.conn is not None

    def transfer(self, s, r):
        data, back = gen_text(s), gen_text(s)
        must(r, "send", self.t.send, data)
        seen = b""
        while len(seen) < len(data):
            more = self.conn.recv(len(data) - len(seen))
            if not more:
                break
            seen += more
        r.check(seen == data, "bytes seen by the endpoint", sent=data, seen=seen, history=self.log)
        self.conn.sendall(back)
        got = must(r, "recv", self.t.recv)
        r.check(bytes(got) == back, "bytes from the endpoint", sent=back, got=got, history=self.log)
        self.log.append("transfer")

    def disconnect(self, s, r):
        must(r, "disconnect", self.t.disconnect)
        try:
            end = self.conn.recv(1)
        except (ConnectionResetError, socket.timeout):
            end = b"nothing"
        r.check(end == b"", "the endpoint does not see the end of the connection", history=self.log)
        drop(self.conn)
        self.conn = None
        self.log.append("disconnected")

    def finish(self):
        if self.conn is not None:
            drop(self.conn)
            call(self.t.disconnect)


class Terminal:
    """A pseudo-terminal with settings somebody else left behind."""

    def __init__(self, s):
        self.master, self.slave = pty.openpty()
        self.path = os.ttyname(self.slave)
        self.spoil(s)

    def spoil(self, s):
        rng = random.Random(s.raw_int(0xFFFFFFFF))
        a = termios.tcgetattr(self.slave)
        for name in (
            "IGNBRK BRKINT PARMRK INPCK ISTRIP INLCR IGNCR ICRNL IXON IXOFF IXANY"
        ).split():
            if rng.random() < 0.5:
                a[0] |= getattr(termios, name)
        for name in "OPOST ONLCR OCRNL ONOCR ONLRET".split():
            if rng.random() < 0.5:
                a[1] |= getattr(termios, name)
        # pseudo-terminals refuse other than 8 data bits and parity
        for name in "CSTOPB CRTSCTS".split():
            if rng.random() < 0.5:
                a[2] |= getattr(termios, name)
        for name in "ECHO ECHOE ECHOK ECHONL ICANON ISIG IEXTEN".split():
            if rng.random() < 0.7:
                a[3] |= getattr(termios, name)
        a[4] = a[5] = rng.choice((termios.B9600, termios.B300, termios.B115200))
        termios.tcsetattr(self.slave, termios.TCSANOW, a)

    def settings(self):
        """(input, output, control, local flags, baud rate)"""
        a = termios.tcgetattr(self.slave)
        buf = array.array("B", bytes(44))
        fcntl.ioctl(self.slave, TCGETS2, buf)
        return a[0], a[1], a[2], a[3], int.from_bytes(buf[40:44].tobytes(), "little")

    def shut(self):
        os.close(self.master)
        os.close(self.slave)


IN_FLAGS = ("PARMRK", "ISTRIP", "INLCR", "IGNCR", "ICRNL", "IXON", "IXOFF")
CONTROL_FLAGS = ("CSTOPB", "PARENB", "CRTSCTS")
LOCAL_FLAGS = ("ECHO", "ECHONL", "ICANON", "ISIG")


class SerialSession:
    def __init__(self, s, terminals):
        self.terminals = terminals
        self.want = s.choice(terminals)
        self.baud = self.gen_baud(s)
        self.t = transport.SerialTransport(port=self.want.path, baud_rate=self.baud, timeout=WAIT)
        self.open_at = None
        self.log = [("line", terminals.index(self.want), self.baud)]

    @staticmethod
    def gen_baud(s):
        return s.choice(BAUD) if s.chance(0.8) else s.int(200, 4000000)

    @property
    def open(self):
        return self.open_at is not None

    def change(self, s, r):
        # pyserial configures an open line only when it is told to
        self.want = s.choice(self.terminals)
        self.baud = self.gen_baud(s)
        self.t.port, self.t.baud_rate = self.want.path, self.baud
        self.log.append(("changed", self.terminals.index(self.want), self.baud))

    def connect(self, s, r):
        if s.chance(0.1):
            path, self.t.port = self.t.port, "/dev/pts/no-such-line"
            got = call(self.t.connect)
            r.check(
                isinstance(got.error, exceptions.CommunicationError),
                f"connecting to a line that does not exist {got!r}",
                history=self.log,
            )
            self.t.port = path
            self.log.append("refused")
        self.want.spoil(s)
        before = {t.path: t.settings() for t in self.terminals}
        must(r, "connect", self.t.connect)
        for t in self.terminals:
            if t is not self.want:
                r.check(
                    t.settings() == before[t.path],
                    "settings of another line were changed",
                    history=self.log,
                )
        i, o, c, l, baud = self.want.settings()
        bad = [n for n in IN_FLAGS if i & getattr(termios, n)]
        bad += ["OPOST"] * bool(o & termios.OPOST)
        bad += [n for n in CONTROL_FLAGS if c & getattr(termios, n)]
        bad += ["CSIZE"] * (c & termios.CSIZE != termios.CS8)
        bad += [n for n in LOCAL_FLAGS if l & getattr(termios, n)]
        r.check(
            not bad,
            "the line is not set to 8 data bits, no parity, one stop bit, no flow control and raw",
            wrong=bad,
            history=self.log,
        )
        r.check(baud == self.baud, f"baud rate of the line is {baud}, not {self.baud}", history=self.log)
        self.open_at = self.want
        self.log.append("connected")

    def transfer(self, s, r):
        data, back = gen_text(s), gen_text(s)
        must(r, "send", self.t.send, data)
        seen = b""
        while len(seen) < len(data):
            if not select.select([self.open_at.master], [], [], WAIT)[0]:
                break
            seen += os.read(self.open_at.master, len(data) - len(seen))
        r.check(seen == data, "bytes seen on the line", sent=data, seen=seen, history=self.log)
        os.write(self.open_at.master, back)
        got = must(r, "recv", self.t.recv)
        r.check(bytes(got) == back, "bytes from the line", sent=back, got=got, history=self.log)
        for t in self.terminals:
            r.check(
                not select.select([t.master], [], [], 0)[0],
                "bytes were sent on another line",
                history=self.log,
            )
        self.log.append("transfer")

    def disconnect(self, s, r):
        must(r, "disconnect", self.t.disconnect)
        self.open_at = None
        self.log.append("disconnected")

    def finish(self):
        if self.open:
            call(self.t.disconnect)


def history(s, r, sessions, kind):
    try:
        for session in sessions:
            if s.chance(0.9):
                session.connect(s, r)
        for _ in range(s.int(1, 8)):
            clock.pause(s, r, 0.1)
            session = s.choice(sessions)
            if session.open:
                what = s.weighted([(4, "transfer"), (3, "disconnect"), (1, "change")])
            else:
                what = s.weighted([(4, "connect"), (2, "change")])
            getattr(session, what)(s, r)
        r.label(f"{kind}: {len(sessions)} transports")
        logs = [x.log for x in sessions]
        if any("connected" in log for log in logs):
            r.nontrivial(kind, repr(logs))
            r.sample(kind=kind, logs=logs)
    finally:
        for session in sessions:
            session.finish()


def tcp(s, r):
    listeners = gen_listeners(s)
    try:
        with Names() as names:
            sessions = [TcpSession(s, listeners, names) for _ in range(s.int(1, 3))]
            history(s, r, sessions, "tcp")
        if names.known:
            r.label("host names")
    finally:
        for l in listeners:
            l.shut()


def serial(s, r):
    with contextlib.ExitStack() as stack:
        terminals = []
        for _ in range(s.int(1, 3)):
            terminals.append(Terminal(s))
            stack.callback(terminals[-1].shut)
        # a line has room for one transport
        sessions = [SerialSession(s, [t]) for t in terminals]
        if s.bool():
            sessions = [SerialSession(s, terminals)]
        history(s, r, sessions, "serial")


FACETS = [(300, "tcp", tcp), (200, "serial", serial), (6, "together", together)]
QUICK = 60000
THOROUGH = 2000000
