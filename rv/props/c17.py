"""C17 transport framing."""
import random
import time

from rv import core, device, net

ID = "C17"
SCALE = 12
RULE = (
    "Real TCP loopback sockets and pseudo terminals; the operating-system reads and writes of the transport are cut to "
    "random sizes, peer writes are coalesced, split, paused and done ahead of or during the receive; the received "
    "lines and sent bytes must equal the byte streams exactly, also for terminators and sizes given to recv_until.  Distinct = distinct (streams, cut plan)."
)
MIN = {"lines:tcp": 1500, "lines:pty": 800, "bytes-sent:tcp": 20000, "bytes-sent:pty": 8000, "big-line": 4, "big-send": 4,
       "interleaved": 200, "concurrent-peer": 60, "empty-line": 100, "no-timeout": 20, "lengths": 5000}
ASSUMPTIONS = ["timeouts (30 s) are far beyond what any case needs, so none expires"]


def gen(ctx):
    for s in ctx.seeds("tcp", 160, 3000):
        yield {"m": "lines", "seed": s, "t": "tcp"}
    for s in ctx.seeds("pty", 80, 1500):
        yield {"m": "lines", "seed": s, "t": "pty"}
    for s in ctx.seeds("mix", 48, 800):
        yield {"m": "mix", "seed": s, "t": "tcp"}
        yield {"m": "mix", "seed": s + 1, "t": "pty"}
    for s in ctx.seeds("until", 24, 400):
        yield {"m": "until", "seed": s, "t": "tcp"}
        yield {"m": "until", "seed": s + 1, "t": "pty"}
    for i, lo in enumerate(range(0, 4500 if not ctx.thorough else 20000, 500)):
        if i % ctx.nshards == ctx.shard:
            yield {"m": "lengths", "t": "tcp", "lo": lo, "seed": ctx.seed * 31 + i}
            if lo < 1500:
                yield {"m": "lengths", "t": "pty", "lo": lo, "seed": ctx.seed * 31 + i}
    for s in ctx.seeds("big", 8, 64):
        yield {"m": "big", "seed": s, "t": "tcp"}
        yield {"m": "big", "seed": s + 1, "t": "pty"}


def line(rng, big=0):
    n = big or rng.choice((0, 0, 1, 2, 17, 60, rng.randrange(300)))
    if rng.random() < 0.3:
        return bytes(rng.choice((0x1B, 0x0E, 0x0A, 0x8D, 0, 0xFF, 0x11, 0x13, 3, 4)) for _ in range(n)) + b"\r"
    return rng.randbytes(n).replace(b"\r", b"\n") + b"\r"


def make(t):
    return net.TcpPeer() if t == "tcp" else net.PtyPeer()


def plan_for(rng):
    p = net.Plan()
    p.limit = 10**9
    mode = rng.randrange(4)
    if mode == 1:
        p.max_recv = lambda: 1
        p.max_send = lambda: 1
    elif mode == 2:
        p.max_recv = lambda: rng.randrange(1, 9)
        p.max_send = lambda: rng.randrange(1, 9)
    elif mode == 3:
        p.max_recv = lambda: rng.choice((1, 3, 4096))
        p.max_send = lambda: rng.choice((1, 2, 4096))
    return p, mode


def run(case, obs):
    E = core.load_elgas()
    rng = random.Random(case["seed"])
    plan, mode = plan_for(rng)
    if case["m"] == "lengths":
        plan, mode = net.Plan(), 0
        plan.limit = 10**9
    peer = make(case["t"])
    timeout = rng.choice((30, 30, None))
    t = case["t"]
    try:
        with net.hostile(plan):
            tr = peer.transport(E, timeout)
            tr.connect()
            peer.accept()
            if timeout is None:
                obs.count("no-timeout")
            if case["m"] == "lengths":
                lengths(obs, rng, tr, peer, t, case["lo"])
                tr.disconnect()
                return
            {"lines": lines, "mix": mix, "big": big, "until": until}[case["m"]](E, obs, rng, tr, peer, t, mode)
            tr.disconnect()
    finally:
        peer.close()


def expect_line(obs, tr, want, t, info):
    obs.eval()
    got = tr.recv()
    obs.expect(bytes(got) == want, lambda: f"{t}: receive gave {core.short(bytes(got))}, the next line sent is {core.short(want)}; {info}", "recv")
    obs.count("lines:" + t)
    if want == b"\r":
        obs.count("empty-line")


def lines(E, obs, rng, tr, peer, t, mode):
    ls = [line(rng) for _ in range(rng.choice((1, 3, 10, 25)))]
    stream = b"".join(ls)
    if rng.random() < 0.3 and len(stream) < 8000:
        # peer writes while the transport is already receiving
        pieces = device.split(rng, stream, rng.choice((0, 2, 3, 5)))

        def feed():
            for p in pieces:
                if p:
                    peer.write(p)
                core.CLOCK.real_sleep(rng.choice((0, 0, 0.002)))

        th = net.background(feed)
        for w in ls:
            expect_line(obs, tr, w, t, f"concurrent peer, read plan {mode}")
        th.result()
        obs.count("concurrent-peer")
    elif len(stream) < 3500:
        peer.write(stream)
        for w in ls:
            expect_line(obs, tr, w, t, f"all lines written at once, read plan {mode}")
    else:
        th = net.background(peer.write, stream)
        for w in ls:
            expect_line(obs, tr, w, t, f"stream of {len(stream)} bytes, read plan {mode}")
        th.result()
    obs.seen(stream, mode)
    obs.sample({"transport": t, "lines": [len(x) for x in ls], "read plan": mode}, 3)


def mix(E, obs, rng, tr, peer, t, mode):
    """Sends and receives interleaved, lines received later than they arrived."""
    backlog = []
    sent_all, peer_got = bytearray(), bytearray()
    for _ in range(rng.randrange(5, 25)):
        k = rng.randrange(3)
        if k == 0:
            ls = [line(rng) for _ in range(rng.choice((1, 2, 4)))]
            if sum(map(len, backlog)) + sum(map(len, ls)) > 3000:
                continue
            peer.write(b"".join(ls))
            backlog += ls
        elif k == 1 and backlog:
            expect_line(obs, tr, backlog.pop(0), t, f"interleaved, read plan {mode}")
        else:
            data = rng.randbytes(rng.choice((0, 1, 30, 300)))
            tr.send(data)
            sent_all += data
            obs.eval()
            got = peer.read(len(data))
            peer_got += got
            obs.expect(got == data, lambda: f"{t}: sent {core.short(data)}, peer received {core.short(got)}; write plan {mode}", "send")
            obs.count("bytes-sent:" + t, len(data))
        obs.count("interleaved")
    for w in backlog:
        expect_line(obs, tr, w, t, f"backlog, read plan {mode}")
    no_extra(obs, tr, peer, t)
    obs.seen(bytes(sent_all), mode)


def until(E, obs, rng, tr, peer, t, mode):
    """recv_until with terminators and sizes of the caller's, between ordinary receives."""
    if not hasattr(tr, "recv_until"):
        return
    alphabet = rng.choice((b"ab\r", b"a\r\n", bytes(range(256))))
    stream = bytes(rng.choice(alphabet) for _ in range(rng.choice((200, 1500))))
    peer.write(stream)
    pos = 0
    while True:
        expected = rng.choice((b"\r", b"\r\n", b"ab", b"\n", stream[pos:pos + rng.randrange(1, 9)][-rng.randrange(1, 5):], stream[rng.randrange(190):][:2]))
        size = rng.choice((None, None, 1, 2, 7, 50, rng.randrange(1, 200)))
        at = stream.find(expected, pos)
        end = min(at + len(expected) if at >= 0 else 10**9, pos + size if size else 10**9)
        if not expected or end > len(stream):
            break
        obs.eval()
        if expected == b"\r" and size is None and rng.random() < 0.5:
            got = tr.recv()
        else:
            got = tr.recv_until(expected=expected, size=size)
        obs.expect(bytes(got) == stream[pos:end], lambda: f"{t}: recv_until({expected!r}, size={size}) gave {core.short(bytes(got))}, the stream continues {core.short(stream[pos:end])}", "until")
        obs.count("until")
        pos = end
    obs.seen(stream, mode)


def lengths(obs, rng, tr, peer, t, lo):
    """Messages and lines of every length."""
    special = [k + d for k in (8192, 16384, 32768, 65536) for d in (-1, 0, 1)] if lo == 0 and t == "tcp" else []
    for n in [*range(lo, lo + 500), *special]:
        data = rng.randbytes(n)
        if n < 5000:
            tr.send(data)
            got = peer.read(n)
        else:
            th = net.background(peer.read, n)
            tr.send(data)
            got = th.result()
        obs.eval()
        obs.expect(got == data, lambda: f"{t}: sent {n} bytes, peer received {len(got)}", "send")
        obs.count("bytes-sent:" + t, n)
        obs.count("lengths")
        if n % 7 == 0 and n < 5000:
            w = rng.randbytes(n).replace(b"\r", b"\n") + b"\r"
            th = net.background(peer.write, w)
            expect_line(obs, tr, w, t, f"line of {n} bytes")
            th.result()
    no_extra(obs, tr, peer, t)
    obs.seen("lengths", t, lo)


def no_extra(obs, tr, peer, t):
    """Nothing but what was sent reached the peer."""
    if t == "pty":
        extra = peer.pending()
    else:
        peer.conn.setblocking(False)
        try:
            extra = peer.conn.recv(1)
        except BlockingIOError:
            extra = b""
        peer.conn.settimeout(30)
    obs.expect(not extra, lambda: f"{t}: peer received bytes never sent: {extra.hex()}", "send")


def big(E, obs, rng, tr, peer, t, mode):
    n = rng.choice((70000, 131000)) if t == "tcp" else rng.choice((9000, 70000))
    w = [line(rng, n), b"\r", line(rng, 10)]
    th = net.background(peer.write, b"".join(w))
    for x in w:
        expect_line(obs, tr, x, t, f"line of {len(x)} bytes, read plan {mode}")
    th.result()
    obs.count("big-line")
    data = rng.randbytes(n * 8 if t == "tcp" else 18000)

    def slow():
        core.CLOCK.real_sleep(0.01)
        return peer.read(len(data))

    th = net.background(slow)
    tr.send(data)
    got = th.result()
    obs.eval()
    obs.expect(got == data, lambda: f"{t}: sent {len(data)} bytes, peer received {len(got)} (first difference at {next((i for i, (a, b) in enumerate(zip(got, data)) if a != b), min(len(got), len(data)))})", "send")
    obs.count("big-send")
    obs.count("bytes-sent:" + t, len(data))
    no_extra(obs, tr, peer, t)
    obs.seen(data[:64], n)
