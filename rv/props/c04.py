"""C04 chunking independence."""
import random

from rv import core, device, ref

ID = "C04"
SCALE = 16
RULE = (
    "One response (six kinds, plain/encrypted) is delivered to a connection in many different splits; after every "
    "piece but the last the connection must ask for more data, after the last it must deliver the device's values "
    "once; also byte by byte over several long responses on one connection.  Distinct = distinct (wire bytes, cut positions)."
)
MIN = {"delivered": 4000, "need-data": 20000, "stray-cr": 200, "split-inside-escape": 200, "trickled": 30, "long-connection": 4000}


def gen(ctx):
    i = 0
    for kind in device.KINDS:
        for enc in (False, True):
            for k in range(4 if not ctx.thorough else 20):
                if i % ctx.nshards == ctx.shard:
                    yield {"m": "all2", "kind": kind, "enc": enc, "seed": ctx.seed * 1000 + k}
                i += 1
    for s in ctx.seeds("session", 240, 5000):
        yield {"m": "session", "seed": s}
    for s in ctx.seeds("big", 16, 200):
        yield {"m": "big", "seed": s}
    for s in ctx.seeds("long", 16, 160):
        yield {"m": "long", "seed": s}
    for s in ctx.seeds("trickle", 16, 160):
        yield {"m": "trickle", "seed": s}


def exchange(E, obs, conn, c, rng, kind, data, want, pieces, poll, strays=0, wire=None):
    conn.send(device.make_request(E, kind, device.gen_request(rng, kind, c["password"])))
    need = E["state"].NEED_DATA
    for _ in range(strays):
        conn.receive_data(b"\r")
        obs.count("stray-cr")
        if poll:
            ev = conn.next_event()
            obs.expect(ev is need, lambda: f"stray end char alone gave {ev!r:.200}", "early")
    for i, p in enumerate(pieces):
        conn.receive_data(p)
        if i < len(pieces) - 1 and any(pieces[i + 1:]):
            if poll:
                for _ in range(poll):
                    ev = conn.next_event()
                    obs.expect(ev is need, lambda: f"event {ev!r:.200} before the response was complete (piece {i + 1} of {len(pieces)})", "early")
                obs.count("need-data")
    obs.eval()
    ev = conn.next_event()
    cuts = [len(p) for p in pieces]
    obs.expect(ev is not need, lambda: f"complete {kind} response not delivered; pieces {cuts}, wire {core.short(b''.join(pieces))}", "lost")
    d = device.diff_reply(ev, kind, want)
    obs.expect(not d, lambda: f"{kind} response delivered in pieces {cuts} differs: {d}", "differs")
    again = conn.next_event()
    obs.expect(again is need, lambda: f"a second event {again!r:.200} after one response", "twice")
    obs.count("delivered")
    w = b"".join(pieces)
    pos = 0
    for p in pieces[:-1]:
        pos += len(p)
        if pos and w[pos - 1] == 0x1B and p:
            obs.count("split-inside-escape")
            break
    obs.seen(w, cuts)


def run(case, obs):
    E = core.load_elgas()
    rng = random.Random(case["seed"])
    m = case["m"]
    if m == "all2":
        c = device.rand_config(rng, encrypted=case["enc"])
        kind = case["kind"]
        conn = device.make_connection(E, c)
        data, want = device.gen_reply(rng, kind, 24)
        wire = device.reply_wire(c, ref.KIND_SERVICE[kind], data, rng)
        for i in range(1, len(wire)):
            exchange(E, obs, conn, c, rng, kind, data, want, [wire[:i], wire[i:]], 1)
        for i in range(1, min(len(wire), 30)):
            j = rng.randrange(i, len(wire))
            exchange(E, obs, conn, c, rng, kind, data, want, [wire[:i], wire[i:j], wire[j:]], 2)
        exchange(E, obs, conn, c, rng, kind, data, want, [wire[i:i + 1] for i in range(len(wire))], 1)
        exchange(E, obs, conn, c, rng, kind, data, want, [wire], 0)
    elif m == "session":
        c = device.rand_config(rng)
        conn = device.make_connection(E, c)
        for _ in range(rng.choice((1, 3, 12))):
            kind = rng.choice(device.KINDS)
            data, want = device.gen_reply(rng, kind, rng.choice((10, 80, 400)))
            wire = device.reply_wire(c, ref.KIND_SERVICE[kind], data, rng)
            pieces = device.split(rng, wire)
            exchange(E, obs, conn, c, rng, kind, data, want, pieces, rng.choice((0, 1, 1, 2)), rng.choice((0, 0, 0, 1, 2)))
            if rng.random() < 0.2:
                conn.receive_data(b"\r")
                obs.count("stray-cr")
        obs.sample({"pieces": [len(p) for p in pieces], "kind": kind}, 3)
    elif m == "long":  # hundreds of exchanges on one connection
        c = device.rand_config(rng)
        conn = device.make_connection(E, c)
        k = rng.choice((0,) + (1, 2, 3, 6))
        kinds = rng.choice((device.KINDS, ("time",), ("write_time",), ("values",)))
        for _ in range(1100):
            kind = rng.choice(kinds)
            data, want = device.gen_reply(rng, kind, 12)
            wire = device.reply_wire(c, ref.KIND_SERVICE[kind], data, rng)
            pieces = [wire[:-k], wire[-k:]] if k and rng.random() < 0.8 else device.split(rng, wire)
            exchange(E, obs, conn, c, rng, kind, data, want, pieces, 1)
            obs.count("long-connection")
    elif m == "trickle":  # one connection asked thousands of times
        c = device.rand_config(rng)
        conn = device.make_connection(E, c)
        for _ in range(rng.choice((2, 3, 5))):
            kind = rng.choice(("values", "params", "archive", "archive_by_time"))
            data, want = device.gen_reply(rng, kind, rng.choice((1500, 3000)))
            wire = device.reply_wire(c, ref.KIND_SERVICE[kind], data, rng)
            exchange(E, obs, conn, c, rng, kind, data, want, [wire[i:i + 1] for i in range(len(wire))], rng.choice((1, 3)), rng.choice((0, 40)))
            obs.count("trickled")
    else:
        c = device.rand_config(rng)
        conn = device.make_connection(E, c)
        kind = rng.choice(("values", "params", "archive", "archive_by_time"))
        data, want = device.gen_reply(rng, kind, rng.choice((5000, 20000)))
        wire = device.reply_wire(c, ref.KIND_SERVICE[kind], data, rng)
        pieces = device.split(rng, wire, rng.choice((0, 2, 3, 5, 6)))
        exchange(E, obs, conn, c, rng, kind, data, want, pieces[:400] + [b"".join(pieces[400:])] if len(pieces) > 400 else pieces, 1)
