"""C07 device error replies."""
import random

from rv import core, device, ref

ID = "C07"
SCALE = 12
RULE = (
    "All 6 request kinds x plain/encrypted x 255 non-zero error bytes, on connections and through the client, each "
    "followed by a normal exchange; distinct = distinct (kind, encrypted, error byte, level)."
)
MIN = {"raised": 5000, "after-error-ok": 5000, "client": 1500, "error-after-error": 1500, "plain-to-encrypted": 150}


def gen(ctx):
    i = 0
    for kind in device.KINDS:
        for enc in (False, True):
            for lvl in ("connection", "client"):
                for lo in range(0, 256, 16):
                    if i % ctx.nshards == ctx.shard:
                        yield {"kind": kind, "enc": enc, "lvl": lvl, "lo": lo, "seed": ctx.seed * 131 + i}
                    i += 1
    for s in ctx.seeds("hist", 60, 3000):
        yield {"seed": s, "kind": None, "lvl": "connection"}
    for s in ctx.seeds("histc", 40, 2000):
        yield {"seed": s, "kind": None, "lvl": "client"}


def judge_exception(obs, E, e, byte, what):
    want = {n for b, n in ref.ERROR_BITS.items() if byte & b}
    names = {k.__name__ for k in type(e).__mro__}
    obs.expect(
        names & want and isinstance(e, E["exceptions"].ElgasError),
        lambda: f"{what}: error byte {byte:#04x} raised {type(e).__name__}, expected one of {sorted(want)}", "wrong-exception",
    )


class Dev:
    def __init__(self, c, rng):
        self.c, self.rng, self.next = c, rng, None
        self.seen = []

    def handle(self, wire):
        fields, service = device.read_request(self.c, wire)
        self.seen.append(fields)
        return device.split(self.rng, device.reply_wire(self.c, service, self.next, self.rng), self.rng.choice((0, 0, 3, 5)))


def on_connection(E, obs, conn, c, rng, kind, byte, follow=True):
    args = device.gen_request(rng, kind, c["password"])
    conn.send(device.make_request(E, kind, args))
    # a device that cannot decrypt a request says so in plain
    plain = bool(c["key"]) and rng.random() < 0.2
    w = device.reply_wire(c, ref.KIND_SERVICE[kind], bytes((byte,)), rng, encrypted=False if plain else None)
    obs.count("plain-to-encrypted", plain)
    for p in device.split(rng, w, rng.choice((0, 0, 1, 3))):
        conn.receive_data(p)
    what = f"{kind} ({'encrypted' if c['key'] else 'plain'}{', answered in plain' if plain else ''})"
    obs.eval()
    try:
        ev = conn.next_event()
    except Exception as e:
        judge_exception(obs, E, e, byte, what)
    else:
        obs.fail(f"{what}: error byte {byte:#04x} was not raised; next_event gave {ev!r:.200}", "not-raised")
    obs.count("raised")
    obs.seen(kind, bool(c["key"]), byte, "connection")
    if not follow:  # the next request is refused as well
        obs.count("error-after-error")
        return
    # the connection must be ready
    k2 = rng.choice(device.KINDS)
    data, want = device.gen_reply(rng, k2, 40)
    try:
        conn.send(device.make_request(E, k2, device.gen_request(rng, k2, c["password"])))
        conn.receive_data(device.reply_wire(c, ref.KIND_SERVICE[k2], data, rng))
        ev = conn.next_event()
    except Exception as e:
        obs.fail(f"after error byte {byte:#04x} to {what}, the next {k2} exchange raised {type(e).__name__}: {e}", "stuck-after-error")
    d = device.diff_reply(ev, k2, want)
    obs.expect(not d, lambda: f"after error byte {byte:#04x} to {what}, the next {k2} exchange gave {d}", "stuck-after-error")
    obs.count("after-error-ok")


def client_call(client, rng, kind, E):
    if kind == "values":
        return client.read_instantaneous_values()
    if kind == "time":
        return client.read_time()
    if kind == "write_time":
        return client.write_time(device.rand_time(rng))
    if kind == "params":
        return client.read_parameters()
    if kind == "archive":
        return client.read_archive(device.archive(E, rng.randrange(11)), rng.randrange(100), rng.randrange(1000))
    return client.read_archive_by_time(device.archive(E, rng.randrange(11)), rng.randrange(100), device.rand_time(rng))


def on_client(E, obs, client, dev, c, rng, kind, byte, follow=True):
    dev.next = bytes((byte,))
    what = f"client {kind} ({'encrypted' if c['key'] else 'plain'})"
    obs.eval()
    n = len(dev.seen)
    try:
        ev = client_call(client, rng, kind, E)
    except Exception as e:
        judge_exception(obs, E, e, byte, what)
    else:
        obs.fail(f"{what}: error byte {byte:#04x} was not raised; call returned {ev!r:.200}", "not-raised")
    obs.equal(len(dev.seen), n + 1, "requests sent for one failing call", "resent")
    obs.count("raised")
    obs.count("client")
    obs.seen(kind, bool(c["key"]), byte, "client")
    if not follow:
        obs.count("error-after-error")
        return
    data, want = device.gen_reply(rng, "time", 10)
    dev.next = data
    try:
        t = client.read_time()
    except Exception as e:
        obs.fail(f"after error byte {byte:#04x} to {what}, read_time raised {type(e).__name__}: {e}", "stuck-after-error")
    obs.equal(t, want["time"], "time read after an error", "stuck-after-error")
    obs.count("after-error-ok")


def run(case, obs):
    E = core.load_elgas()
    rng = random.Random(case["seed"])
    client_level = case["lvl"] == "client"
    c = device.rand_config(rng, encrypted=case.get("enc"), addresses=not client_level)
    if client_level:
        dev = Dev(c, rng)
        tr = device.MemoryTransport(E, dev)
        client = device.make_client(E, c, tr)
        client.connect()
        do = lambda k, b, follow=True: on_client(E, obs, client, dev, c, rng, k, b, follow)
    else:
        conn = device.make_connection(E, c)
        do = lambda k, b, follow=True: on_connection(E, obs, conn, c, rng, k, b, follow)
    if case["kind"]:
        for b in range(max(1, case["lo"]), case["lo"] + 16):
            do(case["kind"], b)
    else:
        b = 1
        for _ in range(20):
            for _ in range(rng.choice((0, 0, 1, 2, 3, 5, 8, 20))):  # several refusals in a row, the same one or others
                b = rng.choice((b, rng.randrange(1, 256)))
                do(rng.choice(device.KINDS), b, False)
            do(rng.choice(device.KINDS), rng.randrange(1, 256))
    obs.sample({"kind": case["kind"], "config": {k: str(v) for k, v in c.items() if k != "key"}}, 2)
