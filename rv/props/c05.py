"""C05 recovery from noise."""
import random

from rv import core, device, ref

ID = "C05"
SCALE = 12
RULE = (
    "A pending request gets 1..8 (at times up to 1200) bad pieces (noise, damaged/truncated/undecryptable/unexpected frames, each ending "
    "in the end char) and then its intact response, in one or many deliveries; nothing may be delivered for the bad "
    "pieces and the response must be delivered.  Distinct = distinct (bad pieces, delivery split) sequences."
)
MIN = {
    "recovered": 1500, "bad:noise": 200, "bad:flip": 200, "bad:redundancy": 200, "bad:truncated": 200,
    "bad:inner-crc": 100, "bad:foreign-key": 100, "bad:short-payload": 60, "bad:encrypted-in-plain": 40, "bad:unexpected-kind": 200, "bad:unknown-service": 200,
    "bad:stray-cr": 200, "bad:request-echo": 200, "bad:glued": 200, "quiet": 300, "recovered-unpolled": 300, "many-pieces": 40, "split-anywhere": 300, "noise-end-with-answer": 300,
    "client-exchanges": 300, "client-glued": 100,
}
# pieces that are intact frames: the receiver may complain about them (but must recover); everything else is skipped
INTACT = ("unexpected-kind", "unknown-service", "encrypted-in-plain")


def gen(ctx):
    for s in ctx.seeds("noise", 2000, 30000):
        yield {"seed": s}
    for s in ctx.seeds("history", 60, 1200):
        yield {"seed": s, "long": 1}
    for s in ctx.seeds("many", 8, 200):
        yield {"seed": s, "many": 1}
    for s in ctx.seeds("client", 120, 4000):
        yield {"seed": s, "client": 1}


def bad_piece(rng, c, kind):
    """(name, escaped piece ending in the end char) which is no answer to `kind`."""
    enc = c["key"] is not None
    data, _ = device.gen_reply(rng, kind, 60)
    good = device.reply_wire(c, ref.KIND_SERVICE[kind], data, rng)
    other = rng.choice([k for k in device.KINDS if k != kind])
    names = ["noise", "flip", "redundancy", "truncated", "unexpected-kind", "unknown-service", "stray-cr",
             "request-echo", "glued", "short"]
    if enc:
        names += ["inner-crc", "foreign-key", "inner-crc", "foreign-key", "short-payload"]
    else:
        names.append("encrypted-in-plain")
    name = rng.choice(names)
    if name == "noise":
        n = rng.choice((1, 2, 5, 15, 16, 40, 200, 600, 1500))
        p = bytes(rng.choice([x for x in (0x1B, 0x02, 0xFE, 0x86, 0, 0xFF, rng.randrange(256)) if x != 0x0D]) for _ in range(n)) + b"\r"
    elif name == "flip":
        p = bytearray(good)
        i = rng.randrange(len(p) - 1)
        p[i] ^= 1 << rng.randrange(8)
        p = bytes(p)
    elif name == "redundancy":
        f = bytearray(ref.unescape(good))
        f[rng.choice((-4, -3, -2))] ^= 1 << rng.randrange(8)
        p = ref.escape(bytes(f))
    elif name == "truncated":
        p = good[: rng.randrange(1, len(good) - 1)] + b"\r"
    elif name == "glued":  # start of one frame runs into another
        p = good[: rng.randrange(1, len(good) - 1)] + good
    elif name == "short":
        p = b"\x02\xfe" + rng.randbytes(rng.randrange(0, 10)).replace(b"\r", b"") + b"\r"
    elif name == "unexpected-kind":
        d, _ = device.gen_reply(rng, other, 60)
        p = device.reply_wire(c, ref.KIND_SERVICE[other], d, rng)
    elif name == "unknown-service":
        s = rng.choice((0x65, 0x67, 0x7B, 0x68, 0x77, 0x79, 0x87, 0x91, 0x01, 0xFF))
        p = device.reply_wire(c, s, data, rng)
    elif name == "stray-cr":
        p = b"\r" * rng.randrange(1, 4)
    elif name == "request-echo":
        d = ref.encrypt(c["key"], c["key_id"], data, rng) if enc else data
        p = ref.wire(ref.EREQ if enc else ref.REQ, ref.KIND_SERVICE[kind], d, c["dst"], c["src"])
    elif name == "short-payload":
        d = ref.encrypt(c["key"], c["key_id"], data, rng)
        p = ref.wire(ref.ERESP, ref.KIND_SERVICE[kind], d[: rng.choice((0, 1, 2, 3, 4, 18, len(d) - 1))], c["src"], c["dst"])
    elif name == "inner-crc":
        d = bytearray(ref.encrypt(c["key"], c["key_id"], data, rng))
        d[rng.randrange(3, len(d))] ^= 1 << rng.randrange(8)
        p = ref.wire(ref.ERESP, ref.KIND_SERVICE[kind], bytes(d), c["src"], c["dst"])
    else:
        kid = c["key_id"] if enc and rng.random() < 0.5 else (c["key_id"] or 1) % 7 + 1
        d = ref.encrypt(rng.randbytes(16), kid, data, rng)
        p = ref.wire(ref.ERESP, ref.KIND_SERVICE[kind], d, c["src"], c["dst"])
    # never hand over by accident something that does answer the request
    for piece in p.split(b"\r"):
        try:
            k, s, _, _, payload = ref.parse_frame(ref.unescape(piece + b"\r"))
            if s == ref.KIND_SERVICE[kind] and k in (ref.RESP, ref.ERESP):
                if k == ref.ERESP:
                    ref.decrypt(c["key"], c["key_id"], payload)
                return "stray-cr", b"\r"
        except (ref.BadFrame, TypeError):
            pass
    return name, p


class Scripted:
    """A transport whose receives return the given pieces; asked for more it reports a dead link."""

    def __init__(self, E):
        self.E, self.queue = E, []

    def connect(self):
        pass

    disconnect = connect

    def send(self, data):
        pass

    def recv(self):
        if not self.queue:
            raise self.E["exceptions"].CommunicationError("nothing more comes")
        return self.queue.pop(0)


def client_case(E, rng, obs):
    """A client gets noise and answer from its transport, any number of pieces per receive."""
    c = device.rand_config(rng, encrypted=rng.random() < 0.6)
    t = Scripted(E)
    client = device.make_client(E, c, t)
    client.connect()
    for _ in range(rng.choice((1, 2, 3))):
        kind = rng.choice(device.KINDS)
        bads = []
        want_n = rng.choice((1, 3, 10, 60, 300))
        while len(bads) < want_n:
            name, p = bad_piece(rng, c, kind)
            if name not in INTACT:
                bads.append((name, p))
        data, want = device.gen_reply(rng, kind, rng.choice((80, 600)))
        good = device.reply_wire(c, ref.KIND_SERVICE[kind], data, rng)
        pieces = [p for _, p in bads] + [good]
        n = rng.choice((1, 1, 2, len(pieces)))
        cuts = sorted(rng.sample(range(1, len(pieces)), min(n, len(pieces)) - 1))
        t.queue = [b"".join(pieces[a:b]) for a, b in zip([0] + cuts, cuts + [len(pieces)])]
        if len(t.queue) < len(pieces):
            obs.count("client-glued")
        obs.eval()
        info = lambda: f"{len(bads)} bad pieces ({[n for n, _ in bads][:5]}...) in {n} receives"
        try:
            client.send(device.make_request(E, kind, device.gen_request(rng, kind, c["password"])))
            ev = client.next_event()
        except Exception as e:
            obs.fail(f"the client did not find the {kind} response behind {info()}: {type(e).__name__}: {e}", "blocked")
        diff = device.diff_reply(ev, kind, want)
        obs.expect(not diff, lambda: f"behind {info()} the client got another response: {diff}", "delivered-bad")
        obs.count("client-exchanges")
        obs.seen(b"".join(pieces), n)


def run(case, obs):
    E = core.load_elgas()
    if case.get("client"):
        client_case(E, random.Random(case["seed"]), obs)
        return
    need = E["state"].NEED_DATA
    rng = random.Random(case["seed"])
    c = device.rand_config(rng, encrypted=rng.random() < 0.6)
    conn = device.make_connection(E, c)
    for _ in range(15 if case.get("long") else rng.choice((1, 1, 2))):
        kind = rng.choice(device.KINDS)
        conn.send(device.make_request(E, kind, device.gen_request(rng, kind, c["password"])))
        if case.get("many"):
            bads = []
            intact = rng.random() < 0.5
            while len(bads) < rng.choice((30, 150, 1200)):
                name, p = bad_piece(rng, c, kind)
                if (intact or name not in INTACT) and len(p) < 60:
                    bads.append((name, p))
            obs.maximum("pieces", len(bads))
            obs.count("many-pieces")
        else:
            bads = [bad_piece(rng, c, kind) for _ in range(rng.choice((1, 1, 2, 3, 8)))]
        data, want = device.gen_reply(rng, kind, rng.choice((80, 80, 80, 600, 3000)))
        good = device.reply_wire(c, ref.KIND_SERVICE[kind], data, rng)
        mode = rng.randrange(6)
        stream = b"".join(p for _, p in bads)
        if mode == 0:
            deliveries = [stream + good]
        elif mode == 1:
            deliveries = [p for _, p in bads] + [good]
        elif mode == 2:
            deliveries = [stream, good]
        elif mode == 3:
            deliveries = device.split(rng, stream) + device.split(rng, good)
        elif mode == 4:
            deliveries = device.split(rng, stream + good)
            obs.count("split-anywhere")
        else:  # the answer in one delivery with the end, only, of the noise
            cut = rng.choice((len(stream) - 1, rng.randrange(len(stream))))
            deliveries = device.split(rng, stream[:cut]) + [stream[cut:] + good]
            obs.count("noise-end-with-answer")
        total = len(deliveries)
        got = []
        raised = 0
        budget = 0
        first = None
        names = [n for n, _ in bads]
        poll = rng.choice((1.0, 1.0, 0.0, 0.3))  # how often the caller looks for events between deliveries
        ends = 0
        for i, d in enumerate(deliveries):
            conn.receive_data(d)
            # at most one event or exception per terminated piece, then more data is asked for
            ends += d.count(b"\r")
            if i < total - 1 and rng.random() >= poll:
                continue
            quiet = 0
            limit = ends + 6
            ends = 0
            while quiet < 2 and limit:
                limit -= 1
                budget += 1
                try:
                    ev = conn.next_event()
                except Exception as e:
                    raised += 1
                    first = first or e
                    continue
                if ev is need:
                    quiet += 1
                    if i == total - 1 and not got and limit:
                        quiet = 0  # keep asking: the response is in the buffer
                    continue
                got.append((i, ev))
        obs.eval()
        info = lambda: f"bad pieces {names}, delivery mode {mode}, polling {poll}, {[p.hex() for _, p in bads][:3]}"
        if not any(n in INTACT for n in names):
            obs.expect(not raised, lambda: f"{info()} raised {first!r} instead of being skipped", "raised")
            obs.count("quiet")
        obs.expect(got, lambda: f"intact {kind} response after {info()} was never delivered", "blocked")
        obs.expect(len(got) == 1, lambda: f"{len(got)} responses delivered after {info()}: {got!r:.300}", "delivered-bad")
        diff = device.diff_reply(got[0][1], kind, want)
        obs.expect(not diff, lambda: f"after {info()} the delivered response differs: {diff}", "delivered-bad")
        obs.count("recovered")
        if poll < 1 and total > 1:
            obs.count("recovered-unpolled")
        obs.count("exceptions-during-noise", raised)
        for n in names:
            obs.count("bad:" + n)
        obs.seen(stream, mode)
    obs.sample({"bad": names, "mode": mode, "kind": kind}, 3)
