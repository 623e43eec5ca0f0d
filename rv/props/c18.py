"""C18 dead, silent and slow peers."""
import errno
import os
import random
import socket
import time

import serial

from rv import core, device, net

ID = "C18"
SCALE = 12
LEVEL = "fault_enumeration"
RULE = (
    "For connect, send and receive of both transports, every operating-system error, end of stream and silence is "
    "injected at every byte position of a message (scripted reads on a virtual clock), plus real closed, reset and "
    "silent peers on loopback sockets and pseudo terminals; the operation must end with CommunicationError within a "
    "bounded number of calls and of virtual time.  Distinct = distinct (transport, operation, fault, position)."
)
MIN = {"recv-fault": 700, "send-fault": 100, "connect-fault": 60, "silent": 70, "closed": 70, "drip": 200,
       "real-closed": 16, "real-silent": 24, "real-refused": 8, "send-stuck": 20, "client-level": 60, "recovered-after": 100,
       "connect-special": 15, "zero-timeout": 20}
ASSUMPTIONS = ["a peer that trickles forever may keep one receive busy for at most twice the timeout plus one byte interval"]
HANG_IS_VIOLATION = True


def gen(ctx):
    i = 0
    for t in ("tcp", "serial"):
        errs = list(net.ERRNOS if t == "tcp" else net.SERIAL_ERRORS)
        for fault in errs + ["closed", "silent"]:
            for n in range(0, 40 if not ctx.thorough else 400):
                if i % ctx.nshards == ctx.shard:
                    yield {"m": "recv", "t": t, "fault": fault, "n": n, "seed": ctx.seed * 101 + i}
                i += 1
        for fault in errs + ["stuck"]:
            for n in range(10):
                if i % ctx.nshards == ctx.shard:
                    yield {"m": "send", "t": t, "fault": fault, "seed": ctx.seed * 103 + i}
                i += 1
        for fault in errs:
            for n in range(6):
                if i % ctx.nshards == ctx.shard:
                    yield {"m": "connect", "t": t, "fault": fault, "seed": ctx.seed * 107 + i}
                i += 1
    for s in ctx.seeds("drip", 240, 4000):
        yield {"m": "drip", "t": ("tcp", "serial")[s % 2], "seed": s}
    for s in ctx.seeds("real", 96, 1000):
        yield {"m": "real", "t": ("tcp", "pty")[s % 2], "seed": s}
    for s in ctx.seeds("zero", 32, 300):
        yield {"m": "zero", "t": ("tcp", "serial")[s % 2], "seed": s}
    for s in ctx.seeds("refused", 12, 60):
        yield {"m": "refused", "seed": s}
    for s in ctx.seeds("client", 96, 2000):
        yield {"m": "client", "t": ("tcp", "serial")[s % 2], "seed": s}


class Script:
    """A peer that sends `data` one byte per `interval` seconds and then fails."""

    def __init__(self, plan, data, fault, interval=0.0, forever=None):
        self.plan, self.data, self.fault, self.interval = plan, bytearray(data), fault, interval
        self.forever = forever
        self.given = bytearray()
        plan.recv = self.recv

    def wait(self, handle, seconds):
        """Advance virtual time; True when the handle's timeout fires first."""
        t = handle.gettimeout()
        if seconds is None and t is None:
            raise core.Violation("a receive from a silent peer blocks without a timeout", "blocks-forever")
        if t is not None and (seconds is None or seconds >= t):
            core.CLOCK.virtual += t
            return True
        core.CLOCK.virtual += seconds
        return False

    def timed_out(self, handle):
        if isinstance(handle, net.RealSocket):
            raise socket.timeout("timed out")
        return b""

    def recv(self, handle, n):
        if handle.rv_closed:
            raise OSError(9, "bad file descriptor")
        if not self.data and self.forever is not None:
            self.data += self.forever
        if self.data:
            if self.interval and self.wait(handle, self.interval):
                return self.timed_out(handle)
            out = bytes(self.data[:1]) if self.interval else bytes(self.data[:n])
            del self.data[: len(out)]
            self.given += out
            return out
        if self.fault == "closed":
            if isinstance(handle, net.RealSocket):
                return b""
            raise serial.SerialException("device reports readiness to read but returned no data")
        if self.fault == "silent":
            self.wait(handle, None)
            return self.timed_out(handle)
        raise (net.ERRNOS if isinstance(handle, net.RealSocket) else net.SERIAL_ERRORS)[self.fault]()


def opened(E, t, plan, timeout):
    peer = net.TcpPeer() if t == "tcp" else net.PtyPeer()
    try:
        tr = peer.transport(E, timeout)
        tr.connect()
        peer.accept()
    except BaseException:
        peer.close()
        raise
    return peer, tr


def must_fail(E, obs, fn, what, key, allow=None):
    """fn ends with CommunicationError; `allow(result)` may accept a result."""
    CE = E["exceptions"].CommunicationError
    obs.eval()
    try:
        r = fn()
    except CE:
        return None
    except (core.Violation, core.CaseTimeout):
        raise
    except Exception as e:
        obs.fail(f"{what}: raised {type(e).__name__}: {e} instead of CommunicationError", "foreign-exception")
    if allow and allow(r):
        return r
    obs.fail(f"{what}: no error, returned {r!r:.200}", key)


def run(case, obs):
    E = core.load_elgas()
    rng = random.Random(case["seed"])
    plan = net.Plan()
    plan.limit = 20000
    m = case["m"]
    t = case.get("t")
    timeout = rng.choice((1, 5, 10, 0.5))
    if m == "refused":
        return refused(E, obs, rng)
    if m == "zero":
        return zero(E, obs, rng, plan, t)
    if m == "real":
        return real(E, obs, rng, t)
    if m == "connect":
        if t == "tcp" and rng.random() < 0.3:
            special_connect(E, obs, rng, plan, timeout)
        plan.connect = lambda: (_ for _ in ()).throw((net.ERRNOS if t == "tcp" else net.SERIAL_ERRORS)[case["fault"]]())
        peer = net.TcpPeer() if t == "tcp" else net.PtyPeer()
        try:
            with net.hostile(plan):
                tr = peer.transport(E, timeout)
                must_fail(E, obs, tr.connect, f"{t} connect failing with {case['fault']}", "no-error")
                obs.count("connect-fault")
                obs.seen(t, "connect", case["fault"])
                plan.connect = None
                tr.connect()  # and works when the fault is gone
                obs.count("recovered-after")
                tr.disconnect()
        finally:
            peer.close()
        return
    with net.hostile(plan):
        peer, tr = opened(E, t, plan, timeout)
        try:
            {"recv": recv_fault, "send": send_fault, "drip": drip, "client": client_level}[m](E, obs, rng, case, plan, peer, tr, timeout)
        finally:
            core.CLOCK.virtual = None
            plan.recv = plan.send = None
            peer.close()


def recv_fault(E, obs, rng, case, plan, peer, tr, timeout):
    n, fault, t = case["n"], case["fault"], case["t"]
    k = rng.choice((0, 0, 1, 2))
    good = [device.rand_payload(rng, 20, 20).replace(b"\r", b"x") + b"\r" for _ in range(k)]
    part = bytes(rng.choice([x for x in range(256) if x != 13]) for _ in range(n))
    core.CLOCK.virtual = 1000.0
    s = Script(plan, b"".join(good) + part, fault)
    what = f"{t} receive, {k} lines then {n} bytes then {fault}"
    for g in good:
        obs.equal(tr.recv(), g, f"{what}: line before the fault", "lost-data")
    t0 = core.CLOCK.virtual
    c0 = plan.calls
    must_fail(E, obs, tr.recv, what, "no-error")
    spent, calls = core.CLOCK.virtual - t0, plan.calls - c0
    obs.expect(spent <= 2 * timeout + 1e-6, lambda: f"{what}: took {spent} s of a {timeout} s timeout", "too-slow")
    obs.expect(calls <= 10 * (n + 10), lambda: f"{what}: {calls} reads for {n} bytes", "no-progress")
    obs.maximum("reads-after-fault", calls - n)
    obs.count("recv-fault")
    obs.count({"silent": "silent", "closed": "closed"}.get(fault, "os-error"))
    obs.seen(t, "recv", fault, n)
    # a second attempt must fail as well, not hang; then the transport can be closed
    must_fail(E, obs, tr.recv, what + ", second receive", "no-error")
    try:
        tr.disconnect()
    except E["exceptions"].CommunicationError:
        pass
    obs.count("recovered-after")
    obs.sample({"transport": t, "fault": fault, "after bytes": n, "reads": calls}, 3)


def send_fault(E, obs, rng, case, plan, peer, tr, timeout):
    fault, t = case["fault"], case["t"]
    core.CLOCK.virtual = 1000.0

    def send(handle, data, whole):
        if fault == "stuck":
            w = handle.gettimeout() if isinstance(handle, net.RealSocket) else handle.write_timeout
            if w is None:
                raise core.Violation(f"{t} send to a peer that takes nothing blocks without a timeout", "blocks-forever")
            core.CLOCK.virtual += w
            raise socket.timeout("timed out") if isinstance(handle, net.RealSocket) else serial.SerialTimeoutException("Write timeout")
        raise (net.ERRNOS if isinstance(handle, net.RealSocket) else net.SERIAL_ERRORS)[fault]()

    plan.send = send
    data = rng.randbytes(rng.choice((1, 30, 3000)))
    t0 = core.CLOCK.virtual
    must_fail(E, obs, lambda: tr.send(data), f"{t} send of {len(data)} bytes, {fault}", "no-error")
    obs.expect(core.CLOCK.virtual - t0 <= 2 * timeout + 1e-6, lambda: f"{t} send took {core.CLOCK.virtual - t0} s of a {timeout} s timeout", "too-slow")
    obs.count("send-fault")
    if fault == "stuck":
        obs.count("send-stuck")
    obs.seen(t, "send", fault, len(data))
    plan.send = None


def drip(E, obs, rng, case, plan, peer, tr, timeout):
    """Bytes keep coming, the end character never does."""
    t = case["t"]
    interval = timeout * rng.choice((0.01, 0.1, 0.5, 0.9, 0.99, 0.33))
    core.CLOCK.virtual = rng.choice((0.0, 5.0, 1e6))
    body = bytes(rng.choice([x for x in range(256) if x != 13]) for _ in range(7))
    s = Script(plan, b"", "silent", interval, forever=body)
    total = 0.0
    for attempt in range(rng.choice((1, 3))):
        t0, g0 = core.CLOCK.virtual, len(s.given)
        what = f"{t} receive from a peer sending a byte every {interval:g} s, timeout {timeout} s"

        def honest(r):
            spent = core.CLOCK.virtual - t0
            return isinstance(r, (bytes, bytearray)) and bytes(s.given[g0:]).startswith(bytes(r)) and spent >= timeout - 1e-6

        must_fail(E, obs, tr.recv, what, "invented-data", honest)
        spent = core.CLOCK.virtual - t0
        obs.expect(spent <= 2 * timeout + interval + 1e-6, lambda: f"{what}: took {spent:g} s", "too-slow")
        obs.maximum("drip-percent-of-timeout", int(100 * spent / timeout))
    obs.count("drip")
    obs.seen(t, "drip", interval, timeout)


def client_level(E, obs, rng, case, plan, peer, tr, timeout):
    """A whole client call over a peer that dies or goes silent at any byte of the reply."""
    tr.disconnect()
    c = device.rand_config(rng, addresses="client")
    client = device.make_client(E, c, tr)
    client.connect()
    peer.accept()
    core.CLOCK.virtual = 1000.0
    kind = rng.choice(device.KINDS)
    data, want = device.gen_reply(rng, kind, 40)
    from rv import ref

    w = device.reply_wire(c, ref.KIND_SERVICE[kind], data, rng)
    n = rng.randrange(len(w))
    fault = rng.choice(["closed", "silent"] + list(net.ERRNOS if case["t"] == "tcp" else net.SERIAL_ERRORS))
    Script(plan, w[:n], fault)
    method, kw = device.gen_call(rng, kind, 3)
    what = f"client {method} over {case['t']}, {fault} after {n} of {len(w)} reply bytes"
    t0 = core.CLOCK.virtual
    must_fail(E, obs, lambda: device.do_call(E, client, method, kw), what, "no-error")
    obs.expect(core.CLOCK.virtual - t0 <= 3 * timeout + 1e-6, lambda: f"{what}: took {core.CLOCK.virtual - t0} s", "too-slow")
    obs.count("client-level")
    obs.seen(case["t"], "client", fault, n)


def special_connect(E, obs, rng, plan, timeout):
    """Connecting fails before there is a connection: no such host, no descriptors, no rights."""
    tr = E["transport"].BlockingTcpTransport(host=f"fe80::1%nosuch{rng.randrange(1000)}", port=1 + rng.randrange(65535), timeout=timeout)
    must_fail(E, obs, tr.connect, "TCP connect to a host name that cannot be resolved", "no-error")
    obs.count("connect-special")
    for e in (OSError(errno.EMFILE, "too many open files"), PermissionError(errno.EACCES, "permission denied")):
        asked = []

        def refuse():
            asked.append(1)
            raise e

        peer = net.TcpPeer()
        plan.create = refuse
        try:
            with net.hostile(plan):
                tr = peer.transport(E, timeout)
                must_fail(E, obs, tr.connect, f"TCP connect when no socket can be made ({e})", "no-error", lambda r: not asked)
                obs.count("connect-special")
                plan.create = None
                tr.disconnect()
        finally:
            plan.create = None
            peer.close()


def zero(E, obs, rng, plan, t):
    """No time to wait at all: connecting or the first receive gives up, neither waits for ever."""
    timeout = rng.choice((0, 0, 0.0, 1e-6))
    peer = net.TcpPeer() if t == "tcp" else net.PtyPeer()
    what = f"{t} transport with a timeout of {timeout} s"
    try:
        with net.hostile(plan):
            tr = peer.transport(E, timeout)
            obs.eval()
            try:
                tr.connect()
            except E["exceptions"].CommunicationError:
                obs.count("zero-timeout")
                tr.disconnect()
                return
            except (core.Violation, core.CaseTimeout):
                raise
            except Exception as e:
                obs.fail(f"{what}: connect raised {type(e).__name__}: {e} instead of CommunicationError", "foreign-exception")
            part = bytes(rng.choice([x for x in range(256) if x != 13]) for _ in range(rng.choice((0, 1, 9))))
            core.CLOCK.virtual = 1000.0
            s = Script(plan, part, "silent")
            honest = lambda r: isinstance(r, (bytes, bytearray)) and r and bytes(r) in bytes(s.given)
            for _ in range(2):
                must_fail(E, obs, tr.recv, f"{what}: receive of {len(part)} bytes, then silence", "no-error", honest)
            obs.expect(core.CLOCK.virtual - 1000 <= 60, lambda: f"{what}: receives took {core.CLOCK.virtual - 1000} s", "too-slow")
            obs.count("zero-timeout")
            obs.seen(t, "zero", timeout, len(part))
            try:
                tr.disconnect()
            except E["exceptions"].CommunicationError:
                pass
    finally:
        core.CLOCK.virtual = None
        plan.recv = None
        peer.close()


def refused(E, obs, rng):
    s = net.RealSocket(socket.AF_INET, socket.SOCK_STREAM)
    s.bind(("127.0.0.1", 0))
    port = s.getsockname()[1]  # bound, not listening
    try:
        tr = E["transport"].BlockingTcpTransport(host="127.0.0.1", port=port, timeout=5)
        must_fail(E, obs, tr.connect, "TCP connect to a port nobody listens on", "no-error")
        obs.count("real-refused")
    finally:
        s.close()
    tr = E["transport"].SerialTransport(port=f"/nonexistent/tty{rng.randrange(1000)}", baud_rate=9600, timeout=1)
    must_fail(E, obs, tr.connect, "serial connect to a missing device", "no-error")
    obs.count("real-refused")
    obs.seen("refused", port)


def real(E, obs, rng, t):
    """The same with the real kernel doing it."""
    peer = net.TcpPeer() if t == "tcp" else net.PtyPeer()
    timeout = rng.choice((0.1, 0.2))
    try:
        tr = peer.transport(E, timeout)
        tr.connect()
        peer.accept()
        fault = rng.choice(("close", "drop", "silent", "silent-send") if t == "tcp" else ("close", "silent", "silent-send"))
        part = bytes(rng.choice([x for x in range(256) if x != 13]) for _ in range(rng.choice((0, 1, 20))))
        if part and fault != "silent-send":
            peer.write(part)
        what = f"{t} peer: {len(part)} bytes, then {fault}"
        if fault == "silent-send":
            data = rng.randbytes(1 << 20)
            if t == "tcp":
                def push():
                    for _ in range(64):
                        tr.send(data)
            else:
                push = lambda: tr.send(data)
            must_fail(E, obs, push, f"{t} sends to a peer that never reads", "no-error")
            obs.count("real-silent")
        elif fault == "silent":
            allow = lambda r: bytes(r) == part and part  # a partial line after the timeout is not invented
            must_fail(E, obs, tr.recv, what, "no-error", allow)
            obs.count("real-silent")
        else:
            (peer.hang_up if fault == "close" else peer.drop)()
            must_fail(E, obs, tr.recv, what, "no-error")
            obs.count("real-closed")

            def push():  # the kernel may take some bytes before it notices
                for _ in range(200):
                    tr.send(b"x" * 1000)

            if t == "tcp":
                must_fail(E, obs, push, what + ", sends", "no-error")
        obs.seen(t, fault, len(part))
        try:
            tr.disconnect()
        except E["exceptions"].CommunicationError:
            pass
    finally:
        peer.close()
