"""C28 responses that lack bytes are refused."""
import random

from rv import core, device, ref

ID = "C28"
SCALE = 12
RULE = (
    "Replies of every kind are cut at every byte within their fixed fields and decoded directly, in plain and in "
    "encrypted frames by a connection, and through a client, whose next operation after reconnecting must be answered; "
    "nothing may be delivered for a cut reply.  Distinct = distinct (kind, cut reply)."
)
MIN = {"refused": 5000, "framed-refused": 1500, "client-refused": 200, "next-answered": 200, "whole-accepted": 500,
       "encrypted": 400, "plain": 400}
# bytes of the fixed fields; of a time reply only the clock is certain to be there
FIXED = {"values": 25, "time": 6, "params": 5, "archive": 5, "archive_by_time": 5}


def gen(ctx):
    for s in ctx.seeds("direct", 160, 6000):
        yield {"m": "direct", "seed": s}
    for s in ctx.seeds("framed", 160, 6000):
        yield {"m": "framed", "seed": s}
    for s in ctx.seeds("client", 160, 6000):
        yield {"m": "client", "seed": s}


def cuts(rng, kind, data, all_of_them):
    """Lengths a reply is cut to."""
    return range(FIXED[kind]) if all_of_them else sorted(rng.sample(range(FIXED[kind]), min(5, FIXED[kind])))


def run(case, obs):
    E = core.load_elgas()
    rng = random.Random(case["seed"])
    kind = rng.choice(list(FIXED))
    data, want = device.gen_reply(rng, kind, rng.choice((0, 0, 3, 40)))
    if rng.random() < 0.3:  # zero bytes look like absent ones
        data = data[:6] + bytes(len(data) - 6) if kind in ("values", "time") else data[:1] + bytes(len(data) - 1)
        want = None
    {"direct": direct, "framed": framed, "client": client}[case["m"]](E, obs, rng, kind, data, want)


def direct(E, obs, rng, kind, data, want):
    klass = getattr(E["application"], device.RESPONSE_CLASS[kind])
    for n in cuts(rng, kind, data, True):
        obs.eval()
        part = rng.choice((bytes, bytearray))(data[:n])
        try:
            pdu = klass.from_bytes(part)
        except Exception:
            obs.count("refused")
            obs.seen(kind, part)
            continue
        obs.fail(f"{kind} reply cut to {n} of its {FIXED[kind]} fixed bytes ({data[:n].hex()}) was decoded as {pdu!r:.300}", "cut-accepted")
    pdu = klass.from_bytes(data)
    if want is not None:
        d = device.diff_reply(pdu, kind, want)
        obs.expect(not d, lambda: f"{kind} reply {data.hex()}: {d}", "field")
    obs.count("whole-accepted")
    obs.sample({"kind": kind, "reply": data[:40].hex()}, 3)


def framed(E, obs, rng, kind, data, want):
    c = device.rand_config(rng)
    for n in cuts(rng, kind, data, False):
        conn = device.make_connection(E, c)
        conn.send(device.make_request(E, kind, device.gen_request(rng, kind, c["password"])))
        w = device.reply_wire(c, ref.KIND_SERVICE[kind], data[:n], rng)
        for piece in device.split(rng, w):
            conn.receive_data(piece)
        obs.eval()
        try:
            ev = conn.next_event()
        except Exception:
            ev = E["state"].NEED_DATA
        obs.expect(ev is E["state"].NEED_DATA, lambda: f"{kind} reply cut to {n} bytes ({data[:n].hex()}) was delivered as {ev!r:.300}", "cut-accepted")
        obs.count("framed-refused")
        obs.count("encrypted" if c["key"] else "plain")
        obs.seen(kind, data[:n], bool(c["key"]))


def client(E, obs, rng, kind, data, want):
    c = device.rand_config(rng, addresses="client")
    objects = device.gen_objects(rng, 2)
    dev = device.SimDevice(c, rng, objects=objects)
    tr = device.MemoryTransport(E, dev)
    cl = device.make_client(E, c, tr)
    cl.connect()
    n = rng.randrange(FIXED[kind])
    w = device.reply_wire(c, ref.KIND_SERVICE[kind], data[:n], rng)
    dev.fault = lambda k: ("raw", lambda _: [w])
    method, kw = device.gen_call(rng, kind, len(objects))
    obs.eval()
    try:
        r = device.do_call(E, cl, method, kw)
    except (core.Violation, core.CaseTimeout):
        raise
    except Exception:
        obs.count("client-refused")
    else:
        obs.fail(f"{method} answered with a reply cut to {n} bytes ({data[:n].hex()}) returned {r!r:.300}", "cut-accepted")
    dev.fault = None
    cl.disconnect()
    cl.connect()
    kind = rng.choice(device.KINDS)
    method, kw = device.gen_call(rng, kind, len(objects))
    mark = len(dev.log)
    r = device.do_call(E, cl, method, kw)
    d = device.check_call(c, dev, mark, kind, kw, r)
    obs.expect(not d, lambda: f"{method} after a cut reply and reconnecting: {d}", "not-clean")
    obs.count("next-answered")
    obs.seen(method, data[:n])
