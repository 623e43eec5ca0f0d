"""C38 the work is proportional to the bytes and calls."""
import random
import sys
import tracemalloc

from rv import core, device, layouts, net, ref
from rv.props import c21

ID = "C38"
SCALE = 2
RULE = (
    "Each workload (responses, noise, bad frames and glued messages in pieces of 1 byte to whole, polled in between; "
    "encoding, escaping, ciphers, checksums; parameter streams; paging; lines and many lines on real sockets) runs with "
    "sizes n, 2n and 4n of the same composition while every executed line of elgas code is counted, in the first and in "
    "later rounds on the same objects.  Lines must grow at most in proportion, memory at most in proportion, and a "
    "later round must not cost more than an earlier one.  Distinct = distinct (workload, variant)."
)
MIN = {"measured": 600, "lines-counted": 5000000, "grown": 200, "rounds": 200, "memory-measured": 200}
CASE_ALARM_S = 240.0
TOOL = 4
GROWTH = 1.35  # times proportional
LATER = 1.35
BEND = 0.06  # of all the work

WORK = ("response", "noise", "bad-frames", "broken-frames", "stray", "glued", "polls", "client-noise", "exchanges", "escape", "unescape",
        "cipher", "decipher", "sums", "frame", "frame-decode", "records", "paging", "tcp-line", "tcp-lines", "calls", "schemas", "unread")


def gen(ctx):
    i = 0
    for rep in range(12 if ctx.tier == "quick" else 60):
        for w in WORK:
            if i % ctx.nshards == ctx.shard:
                yield {"w": w, "seed": ctx.seed * 7919 + i}
            i += 1


class Lines:
    """Counts executed lines of elgas code, and the rounds of loops written in one line."""

    WHAT = ("LINE", "JUMP", "PY_RESUME")

    def __init__(self):
        self.n = 0

    def __enter__(self):
        mon = sys.monitoring
        mon.use_tool_id(TOOL, "rv-lines")
        for name in self.WHAT:
            mon.register_callback(TOOL, getattr(mon.events, name), self.line)
        mon.set_events(TOOL, sum(getattr(mon.events, name) for name in self.WHAT))
        return self

    def line(self, code, *where):
        if not core.in_repo(code.co_filename):
            return sys.monitoring.DISABLE
        self.n += 1

    def __exit__(self, *a):
        mon = sys.monitoring
        mon.set_events(TOOL, 0)
        for name in self.WHAT:
            mon.register_callback(TOOL, getattr(mon.events, name), None)
        mon.free_tool_id(TOOL)
        mon.restart_events()


def measure(fn):
    with Lines() as m:
        fn()
    return m.n


def pieces(data, size):
    return [data[i:i + size] for i in range(0, len(data), size)] if size else [data]


def plain(rng, n):
    mode = rng.randrange(6)
    if mode == 0:
        return bytes((rng.choice((0x0D, 0x1B, 0x8D, 0x0E, 0, 0x20, 0xFF)),)) * n
    if mode == 1:
        return (bytes(rng.choice((0x0D, 0x1B, 0x8D, 0x0E, 0)) for _ in range(3)) * n)[:n]
    few = rng.choice((0.05, 0.9))
    return bytes(rng.choice((0x41, 0x1B, 0x0D, 0x8D, 0, 255)) if rng.random() < few else rng.randrange(256) for _ in range(n))


def workload(E, rng, w, obs):
    """make(n) -> callable doing work of size n; the composition depends on the seed only."""
    enc = rng.random() < 0.5
    c = device.rand_config(rng, encrypted=enc)
    piece = rng.choice((1, 2, 16, 100, 0))
    poll = rng.random() < 0.7
    U, F, S = E["utils"], E["frames"], E["security"]

    def drain(conn, want=None):
        """All events there are now."""
        for _ in range(100000):
            try:
                ev = conn.next_event()
            except (core.CaseTimeout, core.Violation):
                raise
            except Exception:
                continue
            if ev is E["state"].NEED_DATA:
                return
        raise core.Violation("events without end", "no-progress")

    def exchange(conn, n):
        conn.send(device.make_request(E, "archive", device.gen_request(rng, "archive", c["password"])))
        import struct

        return device.reply_wire(c, ref.KIND_SERVICE["archive"], struct.pack("<BI", 3, 7) + (plain(rng, n) if n > 20 else b"x" * n), rng)

    def feed(conn, stream):
        for p in pieces(stream, piece):
            conn.receive_data(p)
            if poll:
                drain(conn)
        drain(conn)

    if w in ("response", "noise", "bad-frames", "broken-frames", "stray", "glued", "exchanges", "polls", "unread"):
        conn = device.make_connection(E, c)
        bad = bytearray(ref.frame(ref.RESP, 0x64, b"1234567890"))
        bad[-3] ^= 0x41
        bad = ref.escape(bytes(bad))
        cut = ref.wire(ref.RESP, 0x64, b"1234567890")[:9] + b"\r"

        def make(n):
            def work():
                conn.reset()
                if w == "exchanges":
                    for _ in range(n // 20):
                        feed(conn, exchange(conn, 20))
                    return
                if w == "response":
                    feed(conn, exchange(conn, n))
                    return
                reply = exchange(conn, 20)
                if w == "noise":
                    feed(conn, plain(rng, n).replace(b"\r", b"x") + b"\r" + reply)
                elif w == "bad-frames":
                    feed(conn, bad * (n // 20) + reply)
                elif w == "broken-frames":
                    feed(conn, cut * (n // 10) + reply)
                elif w == "stray":
                    feed(conn, b"\r" * n + reply)
                elif w == "unread":  # nobody asks for events until the end
                    for p in pieces(bad * (n // 20), piece or 7):
                        conn.receive_data(p)
                    drain(conn)
                elif w == "polls":
                    conn.receive_data(reply[:-1])
                    for _ in range(n):
                        if conn.next_event() is not E["state"].NEED_DATA:
                            raise core.Violation("an incomplete message was delivered", "no-progress")
                    conn.receive_data(reply[-1:])
                    drain(conn)
                else:
                    feed(conn, b"\r".join([cut[:-1], bad[:-1], b""]) * (n // 30) + reply)

            return work

        return make, 1000
    if w in ("client-noise", "paging"):
        objects = device.gen_objects(rng, 1) * 400 if w == "paging" else None
        dev = device.SimDevice(c, rng, objects, page=lambda i, left: 5, max_payload=20, chunks=lambda x: [x], strays=False)
        addressed = dict(c, own_connection=True)
        client = device.make_client(E, addressed, device.MemoryTransport(E, dev))

        def make(n):
            def work():
                client.connect()
                if w == "paging":
                    dev.objects = objects[:n]
                    client.read_parameters()
                else:
                    dev.chunks = lambda x: [b"noise\r"] * n + [x]
                    client.read_time()
                client.disconnect()

            return work

        return make, 80 if w == "paging" else 300
    if w == "records":
        lay = rng.choice(layouts.DECODABLE)
        recs = [layouts.envelope(lay.code, layouts.gen_record(rng, lay)[0])] * 4
        P = E["parser"].ScadaParameterParser()

        def make(n):
            stream = b"".join(recs[i % 4] for i in range(n))
            return lambda: P.parse(stream)

        return make, 60 if len(recs[0]) > 80 else 150
    if w in ("tcp-line", "tcp-lines"):
        def make(n):
            def work():
                peer = net.TcpPeer()
                tr = peer.transport(E, 30)
                tr.connect()
                peer.accept()
                try:
                    lines = [b"x" * n + b"\r"] if w == "tcp-line" else [b"12345678\r"] * (n // 9)
                    t = net.background(peer.write, b"".join(lines))
                    for x in lines:
                        if tr.recv() != x:
                            raise core.Violation("bytes received differ", "recv")
                    t.result()
                finally:
                    tr.disconnect()
                    peer.close()

            return work

        return make, 2000
    if w == "calls":
        msgs = [c21.message(rng, range(4))] * 4
        return lambda n: lambda: [E["application"].CallRequest.from_bytes(msgs[i % 4]) for i in range(n)], 50
    if w == "schemas":
        lay = rng.choice(layouts.DECODABLE)
        t = E["parameters.enumerations"].ParameterObjectType(lay.code)
        fact = E["parameters.factory"]
        schema = fact.ParameterSchemaFactory.by_parameter_id(t)()
        dumped = schema.dump(fact.ParameterFactory.from_bytes(t, layouts.gen_record(rng, lay)[0]))
        return lambda n: lambda: [schema.dump(schema.load(dumped)) for _ in range(n)], 40

    key, kid = rng.randbytes(16), device.key_id(E, 5)
    cipher = S.CipherContext(kid, key)

    def make(n):
        d = plain(rng, n)
        if w == "escape":
            return lambda: [U.escape_characters(d[:n // 2] + b"\r"), U.escape_characters(b"\x1b" * n + b"\r")]
        if w == "unescape":
            wire = ref.escape(d + b"\r")
            many = [ref.escape(bytes((x,)) * n + b"\r") for x in (0x0D, 0x1B, 0x8D)]
            return lambda: [U.return_characters(x) for x in [wire] + many]
        if w == "cipher":
            return lambda: cipher.encrypt(d)
        if w == "decipher":
            x = ref.encrypt(key, 5, d, rng)
            return lambda: cipher.decrypt(x)
        if w == "sums":
            return lambda: [U.calculate_lrc(d), U.calculate_checksum(d), U.calculate_drc(d), U.calculate_crc(d)]
        if w == "frame":
            f = F.Response(service=E["constants"].ServiceNumber.READ_VALUES, destination_address_1=1, destination_address_2=2,
                           source_address_1=3, source_address_2=4, data=d)
            return lambda: f.to_bytes()
        raw = ref.frame(ref.RESP, 0x64, d)
        return lambda: F.Response.from_bytes(raw)

    return make, 2000


def run(case, obs):
    E = core.load_elgas()
    rng = random.Random(case["seed"])
    w = case["w"]
    make, n = workload(E, rng, w, obs)
    state = rng.getstate()

    def same(size):
        rng.setstate(state)
        work = make(size)

        def fn():
            work()

        return fn

    same(n)()  # whatever is set up once
    cost = {}
    for k in (1, 2, 4):
        cost[k] = measure(same(k * n))
        obs.count("measured")
        obs.count("lines-counted", cost[k])
    fixed = measure(same(n // 10 or 1))
    obs.eval()
    what = f"{w} (case {case['seed']}): {cost[1]}, {cost[2]}, {cost[4]} lines for {n}, {2 * n}, {4 * n}"
    obs.maximum("growth-percent", round(100 * cost[4] / max(1, 4 * cost[1])))
    obs.expect(cost[4] <= 4 * GROWTH * cost[1] + 500 and cost[2] <= 2 * GROWTH * cost[1] + 500, lambda: f"{what}: the work grows faster than the input", "work")
    bend = (cost[4] - cost[2]) - 2 * (cost[2] - cost[1])  # 0 when in exact proportion
    obs.maximum("bend-permille", round(1000 * bend / max(1000, cost[4])))
    obs.expect(bend <= BEND * cost[4] + 300, lambda: f"{what}: each part of the input costs more the more there is", "work")
    obs.count("grown")
    obs.seen(w, case["seed"])
    again = [measure(same(n)) for _ in range(4)]
    obs.eval()
    obs.count("rounds", len(again))
    obs.expect(again[-1] <= LATER * cost[1] + 200, lambda: f"{w}: the first round took {cost[1]} lines, the same again {again} on the same objects", "later")
    peak = {}
    tracemalloc.start()
    try:
        for k in (1, 4):
            fn = same(k * n)
            base = tracemalloc.get_traced_memory()[0]
            tracemalloc.reset_peak()
            fn()
            peak[k] = tracemalloc.get_traced_memory()[1] - base
    finally:
        tracemalloc.stop()
    obs.count("memory-measured")
    obs.eval()
    obs.maximum("memory-growth-percent", round(100 * peak[4] / (4 * peak[1] + 50000)))
    obs.expect(peak[4] <= 4 * 1.5 * peak[1] + 200000, lambda: f"{w}: {peak[1]} bytes at the peak for {n}, {peak[4]} for {4 * n}", "memory")
    obs.sample({"work": w, "n": n, "lines": [fixed, cost[1], cost[2], cost[4]], "later": again, "peak": peak}, 30)
