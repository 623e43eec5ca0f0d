"""C29 a slow but living peer is waited for."""
import random
import socket

import serial

from rv import core, device, net, ref

ID = "C29"
SCALE = 8
LEVEL = "exploration"
RULE = (
    "Scripted peers on a virtual clock take up to the configured timeout (shares of it from 0 to 0.99, and any time "
    "when no timeout is configured) to accept a connection, to take sent bytes and to deliver a line, in bursts or byte "
    "by byte, after idle times between operations; every operation must succeed with the exact bytes.  Silent peers "
    "must not be given up before the timeout has passed.  The same through whole client calls.  Distinct = distinct "
    "(transport, operation, timeout, share of the timeout used, arrival pattern)."
)
MIN = {"slow-line": 2000, "slow-send": 500, "slow-connect": 100, "not-early": 500, "no-timeout": 200, "client-calls": 500,
       "idle": 500, "share>0.9": 400, "second-line": 500, "long-line": 300}
ASSUMPTIONS = ["a receive that needs longer than the timeout in total may fail or return what there is"]


def gen(ctx):
    for s in ctx.seeds("line", 320, 12000):
        yield {"m": "line", "t": ("tcp", "serial")[s % 2], "seed": s}
    for s in ctx.seeds("send", 160, 4000):
        yield {"m": "send", "t": ("tcp", "serial")[s % 2], "seed": s}
    for s in ctx.seeds("early", 160, 4000):
        yield {"m": "early", "t": ("tcp", "serial")[s % 2], "seed": s}
    for s in ctx.seeds("connect", 40, 800):
        yield {"m": "connect", "t": "tcp", "seed": s}
    for s in ctx.seeds("client", 120, 4000):
        yield {"m": "client", "t": ("tcp", "serial")[s % 2], "seed": s}


def timed_out(handle):
    if isinstance(handle, net.RealSocket):
        raise socket.timeout("timed out")
    return b""


class Arrivals:
    """Bytes that become readable at given virtual times."""

    def __init__(self, plan):
        self.plan = plan
        self.queue = []  # [time, bytes]
        plan.recv = self.recv

    def add(self, when, data):
        self.queue.append([when, bytes(data)])

    def recv(self, handle, n):
        out = bytearray()
        start = core.CLOCK.virtual
        t = handle.gettimeout()
        is_socket = isinstance(handle, net.RealSocket)
        while True:
            while self.queue and len(out) < n and self.queue[0][0] <= core.CLOCK.virtual:
                take = self.queue[0][1][: n - len(out)]
                out += take
                self.queue[0][1] = self.queue[0][1][len(take):]
                if not self.queue[0][1]:
                    self.queue.pop(0)
            # a socket returns what there is; a port waits for all it was asked for
            if len(out) == n or (is_socket and out):
                return bytes(out)
            end = None if t is None else start + t
            nxt = self.queue[0][0] if self.queue else None
            if nxt is None and end is None:
                raise core.Inconclusive("script ran out of bytes with no timeout")
            if end is not None and (nxt is None or nxt > end):
                core.CLOCK.virtual = max(core.CLOCK.virtual, end)
                return bytes(out) if out else timed_out(handle)
            core.CLOCK.virtual = max(core.CLOCK.virtual, nxt)


SHARES = (0.0, 0.05, 0.3, 0.5, 0.51, 0.75, 0.9, 0.95, 0.99)


def schedule(rng, arr, data, span):
    """Deliver data over `span` seconds from now, the last byte at its end; pattern name."""
    t0 = core.CLOCK.virtual
    how = rng.choice(("at-once-late", "bytes", "burst", "first-late", "last-late"))
    if how == "at-once-late":
        arr.add(t0 + span, data)
    elif how == "bytes":
        for i in range(len(data)):
            arr.add(t0 + span * (i + 1) / len(data), data[i:i + 1])
    elif how == "last-late":
        if data[:-1]:
            arr.add(t0, data[:-1])
        arr.add(t0 + span, data[-1:])
    else:
        pieces = [p for p in device.split(rng, data, 5) if p]
        times = sorted(rng.random() for _ in pieces[:-1]) + [1.0]
        if how == "first-late":
            times = [0.9 + 0.1 * x for x in times]
        for x, p in zip(times, pieces):
            arr.add(t0 + span * x, p)
    return how


def run(case, obs):
    E = core.load_elgas()
    rng = random.Random(case["seed"])
    plan = net.Plan()
    plan.limit = 200000
    t = case["t"]
    timeout = rng.choice((0.5, 1, 2, 5, 7, 10, 10, 30, 90, 600, 2.5))
    if case["m"] in ("line", "send", "client", "connect") and rng.random() < 0.15:
        timeout = None
    with net.hostile(plan):
        peer = net.TcpPeer() if t == "tcp" else net.PtyPeer()
        try:
            core.CLOCK.virtual = rng.choice((0.0, 1.0, 12345.678, 1e7))
            tr = peer.transport(E, timeout)
            if case["m"] == "connect":
                connect(E, obs, rng, plan, peer, tr, timeout)
                return
            tr.connect()
            peer.accept()
            {"line": lines, "send": sends, "early": early, "client": client}[case["m"]](E, obs, rng, t, plan, tr, timeout)
        finally:
            core.CLOCK.virtual = None
            plan.recv = plan.send = plan.connect = None
            peer.close()


def span_of(obs, rng, timeout):
    if timeout is None:
        obs.count("no-timeout")
        return rng.choice((0.0, 1.0, 11.0, 3600.0, 1e6)), None
    share = rng.choice(SHARES)
    if share > 0.9:
        obs.count("share>0.9")
    return share * timeout, share


def idle(obs, rng, timeout):
    if rng.random() < 0.5:
        core.CLOCK.virtual += rng.choice((0.1, 1.0, 100.0, 1e5)) * (timeout or 1.0)
        obs.count("idle")


def attempt(obs, what, fn, timeout, span):
    obs.eval()
    t0 = core.CLOCK.virtual
    try:
        return fn()
    except (core.Violation, core.CaseTimeout, core.Inconclusive):
        raise
    except Exception as e:
        obs.fail(
            f"{what}: gave up with {type(e).__name__}: {e} after {core.CLOCK.virtual - t0:g} s; "
            f"the peer needed {span:g} s, the timeout is {timeout} s", "gave-up")


def lines(E, obs, rng, t, plan, tr, timeout):
    arr = Arrivals(plan)
    for i in range(rng.choice((1, 2, 5))):
        idle(obs, rng, timeout)
        n = rng.choice((0, 1, 5, 40, 300, 1200, rng.choice((300, 3000, 20000))))
        line = bytes(rng.choice([x for x in range(256) if x != 13]) for _ in range(n)) + b"\r"
        span, share = span_of(obs, rng, timeout)
        how = schedule(rng, arr, line, span)
        what = f"{t} receive of a line of {len(line)} bytes ({how})"
        got = attempt(obs, what, tr.recv, timeout, span)
        obs.expect(bytes(got) == line, lambda: f"{what}, complete {span:g} s after the call, timeout {timeout} s: got {core.short(bytes(got))}, sent {core.short(line)}", "gave-up")
        obs.count("slow-line")
        if n > 1000:
            obs.count("long-line")
        if i:
            obs.count("second-line")
        obs.seen(t, "recv", timeout, share, how, n)
    obs.sample({"transport": t, "timeout": timeout, "line": len(line), "needed": span, "arrival": how}, 3)


def sends(E, obs, rng, t, plan, tr, timeout):
    for _ in range(rng.choice((1, 3))):
        idle(obs, rng, timeout)
        span, share = span_of(obs, rng, timeout)
        taken = bytearray()
        t0 = core.CLOCK.virtual

        def send(handle, data, whole):
            w = handle.gettimeout() if isinstance(handle, net.RealSocket) else handle.write_timeout
            left = max(0.0, t0 + span - core.CLOCK.virtual)
            if w is not None and left > w:
                core.CLOCK.virtual += w
                raise socket.timeout("timed out") if isinstance(handle, net.RealSocket) else serial.SerialTimeoutException("Write timeout")
            core.CLOCK.virtual += left
            taken.extend(data)
            return len(data)

        plan.send = send
        data = rng.randbytes(rng.choice((1, 30, 3000)))
        what = f"{t} send of {len(data)} bytes to a peer that takes them after {span:g} s"
        attempt(obs, what, lambda: tr.send(data), timeout, span)
        obs.expect(bytes(taken) == data, lambda: f"{what}: {len(taken)} bytes were given to the system", "send")
        obs.count("slow-send")
        obs.seen(t, "send", timeout, share, len(data))


def early(E, obs, rng, t, plan, tr, timeout):
    """No line within the timeout: the error must not come before it."""
    arr = Arrivals(plan)
    for _ in range(rng.choice((1, 2))):
        idle(obs, rng, timeout)
        arr.queue.clear()
        n = rng.choice((0, 0, 1, 10))
        if n:
            schedule(rng, arr, bytes(rng.choice([x for x in range(256) if x != 13]) for _ in range(n)), rng.choice(SHARES) * timeout)
        t0 = core.CLOCK.virtual
        obs.eval()
        try:
            r = tr.recv()
        except E["exceptions"].CommunicationError:
            r = None
        spent = core.CLOCK.virtual - t0
        obs.expect(spent >= timeout * (1 - 1e-6), lambda: f"{t} receive with {n} bytes and no end character ended ({r!r}) after {spent:g} s of a {timeout} s timeout", "early")
        obs.count("not-early")
        obs.seen(t, "early", timeout, n, round(spent / timeout, 3))


def connect(E, obs, rng, plan, peer, tr, timeout):
    for _ in range(3):
        span, share = span_of(obs, rng, timeout)

        def slow():
            w = plan.connecting.gettimeout()
            if w is not None and span > w:
                core.CLOCK.virtual += w
                raise socket.timeout("timed out")
            core.CLOCK.virtual += span

        plan.connect = slow
        attempt(obs, f"TCP connect to a peer that accepts after {span:g} s", tr.connect, timeout, span)
        peer.accept()
        tr.disconnect()
        peer.hang_up()
        idle(obs, rng, timeout)
        obs.count("slow-connect")
        obs.seen("connect", timeout, share)


def client(E, obs, rng, t, plan, tr, timeout):
    tr.disconnect()
    c = device.rand_config(rng, addresses="client")
    objects = device.gen_objects(rng, rng.choice((1, 5)))
    dev = device.SimDevice(c, rng, objects=objects, page=lambda i, left: rng.choice((1, 2, left)), max_payload=40)
    arr = Arrivals(plan)
    spans = []

    def send(handle, data, whole):
        span, share = span_of(obs, rng, timeout)
        spans.append(span)
        t0 = core.CLOCK.virtual
        chunks = [p for p in dev.handle(bytes(data)) if p]
        for i, p in enumerate(chunks):
            arr.add(t0 + span * (i + 1) / len(chunks), p)
        return len(data)

    cl = device.make_client(E, c, tr)
    cl.connect()
    plan.send = send
    for _ in range(4):
        idle(obs, rng, timeout)
        kind = rng.choice(device.KINDS)
        method, kw = device.gen_call(rng, kind, len(objects))
        mark = len(dev.log)
        del spans[:]
        what = f"{method} over {t}"
        r = attempt(obs, what, lambda: device.do_call(E, cl, method, kw), timeout, max(spans, default=0.0))
        d = device.check_call(c, dev, mark, kind, kw, r)
        obs.expect(not d, lambda: f"{what}, replies complete after {spans} s, timeout {timeout} s: {d}", "wrong-answer")
        obs.count("client-calls")
        obs.seen(t, method, timeout, len(spans))
