"""Hostile sockets and serial ports under the real transports.

The transports under test create their sockets themselves; for the duration of a case
`socket.socket` (as used by socket.create_connection) and `serial.Serial` are replaced
by subclasses of the real ones which can split, delay, fail or account for every
operating-system call.  The peer's ends use the originals.
"""
from __future__ import annotations

import contextlib
import errno
import os
import select
import socket
import threading

import serial

from rv import core

RealSocket = socket.socket
RealSerial = serial.Serial

ERRNOS = {
    "reset": lambda: ConnectionResetError(errno.ECONNRESET, "reset"),
    "aborted": lambda: ConnectionAbortedError(errno.ECONNABORTED, "aborted"),
    "pipe": lambda: BrokenPipeError(errno.EPIPE, "broken pipe"),
    "timedout": lambda: TimeoutError(errno.ETIMEDOUT, "timed out"),
    "timeout": lambda: socket.timeout("timed out"),
    "hostdown": lambda: OSError(errno.EHOSTUNREACH, "no route to host"),
    "netdown": lambda: OSError(errno.ENETDOWN, "network is down"),
    "badf": lambda: OSError(errno.EBADF, "bad file descriptor"),
    "notconn": lambda: OSError(errno.ENOTCONN, "not connected"),
    "io": lambda: OSError(errno.EIO, "input/output error"),
    "refused": lambda: ConnectionRefusedError(errno.ECONNREFUSED, "connection refused"),
    "again": lambda: BlockingIOError(errno.EAGAIN, "resource temporarily unavailable"),
    "interrupted": lambda: InterruptedError(errno.EINTR, "interrupted system call"),
    "nobufs": lambda: OSError(errno.ENOBUFS, "no buffer space available"),
    "bare": lambda: OSError("something went wrong"),
}
SERIAL_ERRORS = {
    "serial": lambda: serial.SerialException("device disconnected"),
    "serial-timeout": lambda: serial.SerialTimeoutException("Write timeout"),
    "not-open": lambda: serial.PortNotOpenError(),
    "io": lambda: OSError(errno.EIO, "input/output error"),
    "nodev": lambda: OSError(errno.ENODEV, "no such device"),
}


class Plan:
    """What the hostile layer does; shared by all handles opened in a case."""

    def __init__(self):
        self.recv = None  # callable(handle, n) -> bytes or raise; None = real
        self.send = None  # callable(handle, data) -> None/int or raise; None = real
        self.connect = None  # callable() -> None or raise
        self.create = None  # callable(): raise, when a socket object is made
        self.connecting = None  # the socket being connected
        self.after_connect = None  # callable(): the same, once the connection is established
        self.configure = None  # callable() -> error to raise when a just opened port is configured
        self.close = None
        self.shutdown = None
        self.max_recv = None  # callable() -> largest number of bytes one read returns
        self.max_send = None
        self.calls = 0
        self.limit = 200000
        self.handles = []

    def tick(self):
        self.calls += 1
        if self.calls > self.limit:
            raise core.Violation(f"more than {self.limit} operating-system calls: busy loop", "no-progress")

    def open_handles(self):
        return [h for h in self.handles if not h.rv_closed]


def socket_class(plan):
    class HostileSocket(RealSocket):
        def __init__(self, *a, **k):
            if plan.create:
                plan.create()
            super().__init__(*a, **k)
            self.rv_closed = False
            plan.handles.append(self)

        def connect(self, address):
            plan.tick()
            plan.connecting = self
            if plan.connect:
                plan.connect()
            r = super().connect(address)
            if plan.after_connect:
                plan.after_connect()
            return r

        def connect_ex(self, address):
            plan.tick()
            plan.connecting = self
            if plan.connect:
                try:
                    plan.connect()
                except OSError as e:
                    return e.errno or errno.ETIMEDOUT
            return super().connect_ex(address)

        def recv(self, n, *flags):
            plan.tick()
            if plan.recv:
                return plan.recv(self, n)
            if plan.max_recv:
                n = max(1, min(n, plan.max_recv()))
            return super().recv(n, *flags)

        def recv_into(self, buffer, nbytes=0, *flags):
            n = nbytes or len(memoryview(buffer).cast("B"))
            data = self.recv(n)
            memoryview(buffer).cast("B")[: len(data)] = data
            return len(data)

        def send(self, data, *flags):
            plan.tick()
            if plan.send:
                return plan.send(self, bytes(data), False)
            if plan.max_send:
                data = memoryview(data)[: max(1, plan.max_send())]
            return super().send(data, *flags)

        def sendall(self, data, *flags):
            plan.tick()
            if plan.send:
                plan.send(self, bytes(data), True)
                return None
            return super().sendall(data, *flags)

        def shutdown(self, how):
            plan.tick()
            if plan.shutdown:
                plan.shutdown()
            return super().shutdown(how)

        def close(self):
            plan.tick()
            was = self.rv_closed
            super().close()
            self.rv_closed = True
            if plan.close and not was:
                plan.close()

        def detach(self):
            self.rv_closed = True
            return super().detach()

    return HostileSocket


def serial_class(plan):
    class HostileSerial(RealSerial):
        rv_closed = True

        def open(self):
            plan.tick()
            if plan.connect:
                plan.connect()
            super().open()
            self.rv_closed = False
            if self not in plan.handles:
                plan.handles.append(self)

        def _reconfigure_port(self, *a, **k):
            if plan.configure:
                raise plan.configure()
            return super()._reconfigure_port(*a, **k)

        def read(self, size=1):
            plan.tick()
            if plan.recv:
                return plan.recv(self, size)
            return super().read(size)

        def write(self, data):
            plan.tick()
            if plan.send:
                return plan.send(self, bytes(data), True)
            return super().write(data)

        def close(self):
            plan.tick()
            was = self.rv_closed
            super().close()
            self.rv_closed = True
            if plan.close and not was:
                plan.close()

        def __del__(self):
            pass

        def gettimeout(self):
            return self.timeout

    HostileSerial.__name__ = "Serial"
    return HostileSerial


@contextlib.contextmanager
def hostile(plan):
    new = {RealSocket: socket_class(plan), RealSerial: serial_class(plan)}
    # socket.create_connection looks its class up in the socket module as well
    socket.socket, serial.Serial = new[RealSocket], new[RealSerial]
    mod = core.load_elgas()["transport"]
    own = {n: v for n, v in vars(mod).items() if v is RealSocket or v is RealSerial}
    for n, v in own.items():
        setattr(mod, n, new[v])
    try:
        yield plan
    finally:
        socket.socket, serial.Serial = RealSocket, RealSerial
        for n, v in own.items():
            setattr(mod, n, v)
        for h in plan.handles:
            try:
                (RealSocket if isinstance(h, RealSocket) else RealSerial).close(h)
            except Exception:
                pass


def readable(fd, seconds):
    """Whether something (or the end) can be read; unlike select for any file descriptor."""
    p = select.poll()
    p.register(fd, select.POLLIN)
    return bool(p.poll(seconds * 1000))


class TcpPeer:
    """Listening end on the loopback interface."""

    def __init__(self, sndbuf=None, rcvbuf=None):
        self.server = RealSocket(socket.AF_INET, socket.SOCK_STREAM)
        if rcvbuf:
            self.server.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
        self.server.bind(("127.0.0.1", 0))
        self.server.listen(8)
        self.server.settimeout(30)
        self.port = self.server.getsockname()[1]
        self.conn = None

    def accept(self):
        fd, _ = self.server._accept()
        self.conn = RealSocket(fileno=fd)
        self.conn.settimeout(30)
        return self.conn

    def transport(self, E, timeout):
        return E["transport"].BlockingTcpTransport(host="127.0.0.1", port=self.port, timeout=timeout)

    def write(self, data):
        self.conn.sendall(data)

    def read(self, n):
        out = bytearray()
        while len(out) < n:
            try:
                x = self.conn.recv(65536)
            except TimeoutError:
                break  # nothing more is coming; the caller compares what there is
            if not x:
                break
            out += x
        return bytes(out)

    def drop(self):
        """Reset the connection."""
        import struct

        self.conn.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        self.conn.close()
        self.conn = None

    def hang_up(self):
        if self.conn:
            self.conn.close()
            self.conn = None

    def close(self):
        self.hang_up()
        self.server.close()


class PtyPeer:
    """Master end of a pseudo terminal."""

    def __init__(self):
        import tty

        try:
            self.master, self.slave = os.openpty()
        except OSError as e:
            raise core.Inconclusive(f"no pseudo terminal: {e}")
        tty.setraw(self.slave)
        tty.setraw(self.master)
        self.path = os.ttyname(self.slave)

    def accept(self):
        return self

    def transport(self, E, timeout):
        return E["transport"].SerialTransport(port=self.path, baud_rate=9600, timeout=timeout)

    def write(self, data):
        data = memoryview(bytes(data))
        while data:
            n = os.write(self.master, data[:2048])
            data = data[n:]

    def read(self, n):
        out = bytearray()
        while len(out) < n:
            if not readable(self.master, 30):
                break
            out += os.read(self.master, 65536)
        return bytes(out)

    def pending(self):
        out = bytearray()
        while readable(self.master, 0):
            out += os.read(self.master, 65536)
        return bytes(out)

    def hang_up(self):
        for fd in (self.master, self.slave):
            if fd is not None:
                try:
                    os.close(fd)
                except OSError:
                    pass
        self.master = self.slave = None

    drop = hang_up

    def close(self):
        if self.master is not None:
            self.hang_up()


def serve(peer, dev, delay=None):
    """Let the device answer on an accepted connection until it is closed.

    Returns a stop() callable.  Chunks are written separately, so the client's reads
    see them split; only this thread touches the device while it runs.
    """
    stop = threading.Event()

    def loop():
        fd = peer.conn.fileno() if isinstance(peer, TcpPeer) else peer.master
        buf = bytearray()
        while not stop.is_set():
            if not readable(fd, 0.05):
                continue
            try:
                data = os.read(fd, 65536)
            except OSError:
                return
            if not data:
                return
            buf += data
            while b"\r" in buf:
                i = buf.index(b"\r") + 1
                wire, buf = bytes(buf[:i]), buf[i:]
                for chunk in dev.handle(wire):
                    if delay:
                        delay()
                    view = memoryview(chunk)
                    while view:
                        try:
                            view = view[os.write(fd, view[:2048]):]
                        except OSError:
                            return

    t = background(loop)

    def end():
        stop.set()
        t.result()

    return end


def background(fn, *a):
    """Run fn in a thread; result via .result() which re-raises."""

    class T(threading.Thread):
        def run(self):
            try:
                self.value, self.error = fn(*a), None
            except BaseException as e:
                self.value, self.error = None, e

        def result(self, timeout=60):
            self.join(timeout)
            if self.is_alive():
                raise core.Inconclusive("peer thread did not finish")
            if self.error:
                raise self.error
            return self.value

    t = T(daemon=True)
    t.start()
    return t
