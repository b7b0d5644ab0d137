"""Real peers for the transports: a loopback TCP server and the master side of a pseudo-terminal."""

import contextlib
import os
import pty
import select
import socket
import struct
import threading
import time
import tty

from elgas import transport

ANY_BYTES = 1 << 20
# a transport that is told to have no timeout (None stands for not telling it anything)
NEVER = object()


def linger(conn):
    conn.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))


class TcpPeer:
    """Listening socket and, once accepted, the connection to the transport under test."""

    kind = "tcp"

    def __init__(self):
        self.listener = socket.socket()
        self.listener.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.listener.bind(("127.0.0.1", 0))
        self.listener.listen(8)
        self.listener.settimeout(30)
        self.port = self.listener.getsockname()[1]
        self.conn = None

    def transport(self, timeout):
        if timeout is None:
            return transport.BlockingTcpTransport(host="127.0.0.1", port=self.port)
        timeout = None if timeout is NEVER else timeout
        return transport.BlockingTcpTransport(host="127.0.0.1", port=self.port, timeout=timeout)

    def accept(self):
        self.conn, _ = self.listener.accept()
        self.conn.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.conn.settimeout(30)

    def pending(self):
        """Whether a further connection waits to be accepted."""
        return bool(select.select([self.listener], [], [], 0)[0])

    def write(self, data):
        self.conn.sendall(data)

    def read(self, n):
        """Exactly n bytes, or what came before the end of the stream or within the time limit."""
        out = bytearray()
        while len(out) < n:
            try:
                more = self.conn.recv(n - len(out))
            except socket.timeout:
                break
            if not more:
                break
            out += more
        return bytes(out)

    def read_more(self, wait=0.0):
        """Bytes that can be read at once."""
        out = b""
        while select.select([self.conn], [], [], wait)[0]:
            more = self.conn.recv(ANY_BYTES)
            if not more:
                break
            out += more
        return out

    def ended(self):
        """Waits for the transport to let go of the connection: True if it did."""
        try:
            return self.conn.recv(1) == b""
        except ConnectionResetError:
            return True
        except socket.timeout:
            return False

    def close(self):
        conn, self.conn = self.conn, None
        if conn is None:
            return
        try:
            if select.select([conn], [], [], 0)[0] and conn.recv(1, socket.MSG_PEEK) == b"":
                # the other side has closed: leave no port occupied for a minute
                linger(conn)
        except OSError:
            pass
        conn.close()

    def reset(self):
        linger(self.conn)
        self.close()

    def shut(self):
        self.close()
        self.listener.close()


class PtyPeer:
    """Master side of a raw pseudo-terminal."""

    kind = "serial"

    def __init__(self):
        self.master, self.slave = pty.openpty()
        tty.setraw(self.slave)
        self.path = os.ttyname(self.slave)

    def transport(self, timeout, baud_rate=9600):
        if timeout is None:
            return transport.SerialTransport(port=self.path, baud_rate=baud_rate)
        timeout = None if timeout is NEVER else timeout
        return transport.SerialTransport(port=self.path, baud_rate=baud_rate, timeout=timeout)

    def accept(self):
        pass

    def write(self, data):
        view = memoryview(data)
        while view:
            view = view[os.write(self.master, view) :]

    def read(self, n):
        out = b""
        while len(out) < n:
            if not select.select([self.master], [], [], 30)[0]:
                break
            out += os.read(self.master, n - len(out))
        return out

    def read_more(self, wait=0.0):
        out = b""
        while select.select([self.master], [], [], wait)[0]:
            try:
                more = os.read(self.master, 65536)
            except OSError:
                break
            if not more:
                break
            out += more
        return out

    def close(self):
        """Hang up."""
        if self.master is not None:
            os.close(self.master)
            self.master = None

    def shut(self):
        self.close()
        if self.slave is not None:
            os.close(self.slave)
            self.slave = None


@contextlib.contextmanager
def peer(kind):
    p = TcpPeer() if kind == "tcp" else PtyPeer()
    try:
        yield p
    finally:
        p.shut()


def open_files(path=None):
    """Number of open descriptors of this process (only those of a path, if given)."""
    n = 0
    for fd in os.listdir("/proc/self/fd"):
        try:
            where = os.readlink(f"/proc/self/fd/{fd}")
        except OSError:
            continue
        if path is None or where == path:
            n += 1
    return n


def in_thread(fn):
    """The result of fn (or what it raises), run in a thread that is not the main thread."""
    out = []

    def run():
        try:
            out.append((fn(), None))
        except BaseException as e:
            out.append((None, e))

    th = threading.Thread(target=run, daemon=True)
    th.start()
    th.join()
    value, error = out[0]
    if error is not None:
        raise error
    return value


def hand(s, r, p=0.04):
    """What runs a function: rarely one that does it in another thread, from now and then."""
    if not s.chance(p):
        return lambda fn, *args, **kw: fn(*args, **kw)
    r.label("other thread")

    def run(fn, *args, **kw):
        return in_thread(lambda: fn(*args, **kw)) if s.bool() else fn(*args, **kw)

    return run


class Feeder(threading.Thread):
    """Writes pieces with pauses from a thread of its own."""

    def __init__(self, target, pieces):
        super().__init__(daemon=True)
        self.target, self.pieces = target, pieces
        self.error = None

    def run(self):
        try:
            for pause, data in self.pieces:
                if pause:
                    time.sleep(pause)
                if data:
                    self.target.write(data)
        except OSError as e:
            self.error = e
