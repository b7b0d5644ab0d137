import errno
import fcntl
import gc
import os
import socket
import tempfile
import termios

import serial

from elgas import exceptions, transport
from props.c23 import gen_message
from vlib import clock
from vlib.engine import call, must
from vlib.peers import PtyPeer, TcpPeer, open_files
from vlib.world import gen_long

ID = "C25"
RULE = (
    "4-14 operations (connect, send, receive, disconnect, and the peer closing, resetting or refusing)"
    " on one transport in any order (rarely 35-560 connections in a row), with operating-system errors injected into chosen calls, judged"
    " by a model of the connected state; non-trivial: at least one failure or misuse and one working"
    " exchange (distinct histories)"
)


class Fault:
    """Makes methods of a class fail at their n-th call, while active."""

    def __init__(self, owner, names, error, skip=0, real_first=False):
        self.owner, self.names, self.error = owner, names, error
        self.skip, self.real_first = skip, real_first
        self.hit = False

    def __enter__(self):
        # finalisers of objects left over from earlier must not take the fault
        gc.disable()
        self.saved = {}
        for name in self.names:
            original = getattr(self.owner, name)
            self.saved[name] = (name in vars(self.owner), original)
            setattr(self.owner, name, self.wrap(original))
        return self

    def wrap(self, original):
        def failing(*args, **kwargs):
            if self.hit or self.skip > 0:
                self.skip -= 1
                return original(*args, **kwargs)
            self.hit = True
            if self.real_first:
                original(*args, **kwargs)
            raise self.error

        return failing

    def __exit__(self, *_):
        for name, (own, original) in self.saved.items():
            if own:
                setattr(self.owner, name, original)
            else:
                delattr(self.owner, name)
        gc.enable()


def os_errors(s):
    return s.choice(
        (
            OSError(errno.EIO, "io"),
            ConnectionResetError(errno.ECONNRESET, "reset"),
            BrokenPipeError(errno.EPIPE, "pipe"),
            ConnectionAbortedError(errno.ECONNABORTED, "aborted"),
            TimeoutError("timed out"),
            OSError(errno.ENETDOWN, "down"),
            OSError(errno.EBADF, "bad"),
            PermissionError(errno.EACCES, "access"),
        )
    )


def serial_errors(s):
    return s.choice(
        (
            serial.SerialException("broken"),
            serial.SerialTimeoutException("late"),
            OSError(errno.EIO, "io"),
            OSError(errno.ENXIO, "gone"),
            serial.SerialException(errno.ENOENT, "missing"),
        )
    )


class Tcp:
    kind = "tcp"

    def __init__(self, s):
        self.peer = TcpPeer()
        self.peer.listener.settimeout(10)
        self.t = self.peer.transport(s.choice((None, 10)))
        # bound but not listening: refuses connections
        self.closed = socket.socket()
        self.closed.bind(("127.0.0.1", 0))

    def refuse(self, yes):
        self.t.port = self.closed.getsockname()[1] if yes else self.peer.port

    def connect_fault(self, s):
        e = os_errors(s)
        how = s.choice(("connect", "resolve", "create"))
        if how == "connect":
            return Fault(socket.socket, ("connect",), e)
        if how == "resolve":
            return Fault(socket, ("getaddrinfo",), socket.gaierror(-2, "unknown"))
        return Fault(socket, ("create_connection",), e)

    def send_fault(self, s):
        return Fault(socket.socket, ("send", "sendall"), os_errors(s))

    def recv_fault(self, s, skip):
        return Fault(socket.socket, ("recv", "recv_into"), os_errors(s), skip)

    def close_fault(self, s):
        return Fault(socket.socket, ("shutdown",), os_errors(s))

    def hang_up(self, s):
        if s.bool():
            self.peer.reset()
        else:
            self.peer.close()

    def renew(self):
        self.peer.close()

    def in_use(self):
        return not self.peer.ended()
    def shut(self):
        self.peer.shut()
        self.closed.close()


class Serial:
    kind = "serial"

    def __init__(self, s):
        self.folder = tempfile.TemporaryDirectory(prefix="elgas-pty-")
        self.link = os.path.join(self.folder.name, "port")
        self.peer = None
        self.renew()
        self.t = transport.SerialTransport(
            port=self.link, baud_rate=s.choice((300, 9600, 115200)), timeout=s.choice((10, 12))
        )

    def renew(self):
        if self.peer is not None:
            if self.peer.master is not None:
                return
            self.peer.shut()
        self.peer = PtyPeer()
        self.refuse(False)

    def refuse(self, yes):
        if os.path.lexists(self.link):
            os.unlink(self.link)
        if not yes:
            os.symlink(self.peer.path, self.link)

    def connect_fault(self, s):
        how = s.choice(("open", "file", "settings", "modem lines", "buffer", "pipes"))
        if how == "file":
            return Fault(os, ("open",), OSError(s.choice((errno.ENODEV, errno.EACCES, errno.EBUSY)), how))
        if how == "settings":
            return Fault(termios, ("tcgetattr", "tcsetattr"), termios.error(errno.EIO, how), s.int(0, 1))
        if how == "modem lines":
            return Fault(fcntl, ("ioctl",), OSError(s.choice((errno.EIO, errno.ENODEV)), how))
        if how == "buffer":
            return Fault(termios, ("tcflush",), termios.error(errno.EIO, how))
        if how == "pipes":
            return Fault(os, ("pipe",), OSError(errno.EMFILE, how), s.int(0, 1))
        return Fault(serial.Serial, ("open",), serial_errors(s))

    def send_fault(self, s):
        if s.bool():
            return Fault(os, ("write",), OSError(s.choice((errno.EIO, errno.ENODEV, errno.ENXIO)), "write"))
        return Fault(serial.Serial, ("write",), serial_errors(s))

    def recv_fault(self, s, skip):
        if s.bool():
            e = OSError(s.choice((errno.EIO, errno.ENODEV, errno.ENXIO)), "read")
            return Fault(os, ("read",), e, skip)
        return Fault(serial.Serial, ("read",), serial_errors(s), skip)

    def close_fault(self, s):
        # closing gives the port back even when it reports an error
        return Fault(serial.Serial, ("close",), serial_errors(s), real_first=True)

    def hang_up(self, s):
        self.peer.close()

    def in_use(self):
        return open_files(self.peer.path) > 1

    def shut(self):
        self.peer.shut()
        self.folder.cleanup()


class NoFault:
    hit = False

    def __enter__(self):
        return self

    def __exit__(self, *_):
        pass


def is_comm(got):
    return isinstance(got.error, exceptions.CommunicationError)


def is_runtime(got):
    return isinstance(got.error, RuntimeError)


def history(kind):
    def run(s, r):
        before = open_files()
        w = kind(s)
        try:
            play(s, r, w)
        finally:
            call(w.t.disconnect)
            w.shut()
        after = open_files()
        if after != before:
            gc.collect()
            after = open_files()
        r.equal(after, before, "open files after everything was disconnected")

    return run


def play(s, r, w):
    t = w.t
    connected = gone = dirty = False
    log = []
    trouble = works = 0

    def check(cond, message, got=None):
        r.check(cond, f"{message}: {got!r}" if got is not None else message, history=log)

    for _ in range(s.int(4, 14)):
        clock.pause(s, r)
        op = s.weighted(
            [(5, "connect"), (4, "send"), (4, "recv"), (4, "disconnect"), (1, "peer gone")]
            if connected
            else [(8, "connect"), (2, "send"), (2, "recv"), (2, "disconnect")]
        )
        faulty = s.chance(0.3)
        got = None
        if op == "connect" and not connected:
            refuse = not faulty and s.chance(0.15)
            log.append("connect" + (" fault" if faulty else " refused" if refuse else ""))
            w.refuse(refuse)
            files = open_files()
            with w.connect_fault(s) if faulty else NoFault() as fault:
                got = call(t.connect)
            if refuse or fault.hit:
                check(is_comm(got), "failing connect", got)
                trouble += 1
            else:
                check(got.ok, "connect", got)
                w.peer.accept()
                connected, gone, dirty = True, False, False
        elif op == "connect":
            log.append("connect twice")
            got = call(t.connect)
            check(is_runtime(got), "connect while connected", got)
            if w.kind == "tcp":
                check(not w.peer.pending(), "connect while connected opens another connection")
            trouble += 1
        elif op == "send" and not connected:
            log.append("send unconnected")
            got = call(t.send, s.bytes(1, 10))
            check(is_runtime(got), "send while not connected", got)
            trouble += 1
        elif op == "recv" and not connected:
            log.append("recv unconnected")
            got = call(t.recv)
            check(is_runtime(got), "receive while not connected", got)
            trouble += 1
        elif op == "disconnect" and not connected:
            log.append("disconnect unconnected")
            got = call(t.disconnect)
            check(got.ok, "disconnect while not connected", got)
        elif op == "send":
            data = s.bytes(1, 30)
            log.append("send" + (" fault" if faulty else "") + (" gone" if gone else ""))
            with w.send_fault(s) if faulty else NoFault() as fault:
                got = call(t.send, data)
            if fault.hit:
                check(is_comm(got), "failing send", got)
                trouble += 1
            elif gone:
                check(got.ok or is_comm(got), "send to a peer that is gone", got)
            else:
                check(got.ok, "send", got)
                seen = w.peer.read(len(data))
                r.equal(seen, data, "bytes sent", history=log)
                works += 1
        elif op == "recv":
            if dirty:
                continue
            if gone:
                log.append("recv gone")
                got = call(t.recv)
                check(is_comm(got), "receiving from a peer that is gone", got)
                trouble += 1
                continue
            data = gen_message(s)
            if len(data) > 300:
                data = data[-200:]
            w.peer.write(data)
            log.append("recv" + (" fault" if faulty else ""))
            skip = s.int(0, len(data) - 1) if s.bool() else 0
            with w.recv_fault(s, skip) if faulty else NoFault() as fault:
                got = call(t.recv)
            if fault.hit:
                check(is_comm(got), "failing receive", got)
                trouble += 1
                dirty = True
            else:
                check(got.ok and bytes(got.value) == data, "receive", got)
                works += 1
        elif op == "disconnect":
            # references held by others do not keep the socket or port open
            held = list(vars(t).values()) if hasattr(t, "__dict__") and s.bool() else None
            log.append("disconnect" + (" fault" if faulty else "") + (" gone" if gone else ""))
            with w.close_fault(s) if faulty else NoFault() as fault:
                got = call(t.disconnect)
            if fault.hit:
                check(is_comm(got), "failing disconnect", got)
                trouble += 1
            elif gone:
                check(got.ok or is_comm(got), "disconnect after the peer is gone", got)
            else:
                check(got.ok, "disconnect", got)
            connected = False
            if not gone:
                check(not w.in_use(), "still in use after disconnect")
                if w.kind == "tcp" and held:
                    # (the peer's end of the connection is still open)
                    check(open_files() <= files + 1, "socket still open after disconnect")
                    r.label("references held")
            del held
            w.renew()
        elif not gone:
            log.append("peer gone")
            w.hang_up(s)
            gone = True
    # whatever happened, it can be used again
    got = call(t.disconnect)
    if connected and gone:
        check(got.ok or is_comm(got), "disconnect at the end", got)
    else:
        check(got.ok, "disconnect at the end", got)
    if connected and not gone:
        check(not w.in_use(), "still in use after disconnect")
    w.renew()
    w.refuse(False)
    got = call(t.connect)
    check(got.ok, "connect at the end", got)
    w.peer.accept()
    data = gen_message(s)[-100:]
    must(r, "send at the end", t.send, data)
    r.equal(w.peer.read(len(data)), data, "bytes sent at the end", history=log)
    w.peer.write(data)
    got = call(t.recv)
    check(got.ok and bytes(got.value) == data, "receive at the end", got)
    for x in log:
        r.label(f"{w.kind}: {x}")
    if trouble and works:
        r.nontrivial(w.kind, tuple(log), data)
        r.sample(kind=w.kind, history=log)


def cycles(kind):
    def run(s, r):
        """The same transport connected and disconnected again and again."""
        n = gen_long(s) // 2
        order = s.bytes(1, 12)
        row = s.choice((1, 2, 4, 11, 40))
        before = open_files()
        w = kind(s)
        t = w.t
        try:
            for i in range(n):
                x = order[i % len(order)]
                if x & 7 == 0:
                    w.refuse(True)
                    for k in range(row):
                        got = call(t.connect)
                        r.check(is_comm(got), f"failing connect {i}, {k + 1} in a row: {got!r}")
                    w.refuse(False)
                got = call(t.connect)
                r.check(got.ok, f"connect {i}: {got!r}")
                w.peer.accept()
                if x & 8:
                    must(r, f"send {i}", t.send, b"12\x0d")
                    r.equal(w.peer.read(3), b"12\x0d", f"bytes of send {i}")
                    w.peer.write(b"345\x0d")
                    got = call(t.recv)
                    r.check(got.ok and bytes(got.value) == b"345\x0d", f"message {i}: {got!r}")
                got = call(t.disconnect)
                r.check(got.ok, f"disconnect {i}: {got!r}")
                r.check(not w.in_use(), f"still in use after disconnect {i}")
                w.renew()
        finally:
            call(t.disconnect)
            w.shut()
        r.equal(open_files(), before, "open files after everything was disconnected")
        r.label(f"{w.kind}: hundreds of cycles")
        r.nontrivial("cycles", w.kind, n, order)

    return run


FACETS = [
    (3000, "tcp", history(Tcp)),
    (2000, "serial", history(Serial)),
    (4, "tcp cycles", cycles(Tcp)),
    (2, "serial cycles", cycles(Serial)),
]
QUICK = 60000
THOROUGH = 500000
