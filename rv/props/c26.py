"""C26 connection settings: range checks and use."""
import itertools
import random

from rv import core, device, layouts, ref

ID = "C26"
SCALE = 16
RULE = (
    "All combinations of in-range, boundary and just-outside values of the six settings are tried on ElgasConnection "
    "(the password settings also on ElgasClient), plus every 16-bit address, every 8-bit address, every id around the "
    "range, password lengths 0-20 and far-away values; accepted settings are read back from the frames of every "
    "request kind, plain and encrypted.  Distinct = distinct setting tuples."
)
MIN = {"accepted": 8000, "refused": 3000, "combinations": 2000, "on-the-wire": 1500, "client-accepted": 150, "client-refused": 300,
       "address-1-values": 8000, "address-2-values": 512}

A1 = (0, 1, 255, 256, 65534, 65535)
A1_BAD = (-1, 65536, 65537, -65536, 1 << 20, 1 << 40)
A2 = (0, 1, 127, 254, 255)
A2_BAD = (-1, 256, 257, 65535, -256)
PW = ("", "a", "12345", "123456", "ÿÿÿÿÿÿ", "\r\x1b\x8d!\x03\x00")
PW_BAD = ("1234567", "abcdefgh", "x" * 100)
ID_OK = (801, 802, 825, 848, 849)
ID_BAD = (800, 850, 0, -1, 1, 49, 8010, 255, 801 - 256, 849 + 65536)


def gen(ctx):
    for i in range(8):
        if i % ctx.nshards == ctx.shard:
            yield {"m": "combos", "part": i, "seed": ctx.seed}
    for s in ctx.seeds("wire", 1600, 20000):
        yield {"m": "wire", "seed": s}
    for s in ctx.seeds("client", 160, 2000):
        yield {"m": "client", "seed": s}
    for i, lo in enumerate(range(0, 65536, 2048)):
        if i % ctx.nshards == ctx.shard:
            yield {"m": "sweep", "lo": lo, "step": 1 if ctx.thorough else 7, "seed": ctx.seed * 5 + i}
    for s in ctx.seeds("far", 800, 20000):
        yield {"m": "far", "seed": s}


def ok(v):
    return (0 <= v["src"][0] <= 65535 and 0 <= v["dst"][0] <= 65535 and 0 <= v["src"][1] <= 255 and 0 <= v["dst"][1] <= 255
            and len(v["password"]) <= 6 and 801 <= v["password_id"] <= 849)


def attempt(E, obs, v):
    v = {"key": None, "key_id": None, **v}
    good = ok(v)
    obs.eval()
    try:
        conn = device.make_connection(E, v)
    except ValueError as e:
        obs.expect(not good, lambda: f"settings {v} are in range but refused: {e}", "refused-valid")
        obs.count("refused")
        return None
    obs.expect(good, lambda: f"a connection was created with settings outside their range: {v}", "accepted-invalid")
    obs.count("accepted")
    return conn


def values(rng):
    return {"src": (rng.randrange(65536), rng.randrange(256)), "dst": (rng.randrange(65536), rng.randrange(256)),
            "password": "".join(rng.choice(device.PW_CHARS) for _ in range(6)), "password_id": rng.randrange(801, 850)}


def run(case, obs):
    E = core.load_elgas()
    rng = random.Random(case["seed"])
    m = case["m"]
    if m == "combos":
        edge = itertools.product((0, 65535, -1, 65536), (0, 255, -1, 256), (0, 65535, -1, 65536), (0, 255, -1, 256),
                                 ("123456", "1234567", ""), (801, 849, 800, 850))
        for i, (a, b, c, d, p, n) in enumerate(edge):
            if i % 8 == case["part"]:
                attempt(E, obs, {"src": (a, b), "dst": (c, d), "password": p, "password_id": n})
                obs.count("combinations")
                obs.seen(a, b, c, d, p, n)
        return
    if m == "far":
        # one setting at a time, the others valid
        v = values(rng)
        where = rng.choice(("src1", "src2", "dst1", "dst2", "password", "password_id"))
        bad = rng.random() < 0.7
        if where == "password":
            v["password"] = rng.choice(PW_BAD + ("".join(rng.choice(device.PW_CHARS) for _ in range(rng.randrange(7, 21))),)) if bad else rng.choice(PW)
        elif where == "password_id":
            v["password_id"] = rng.choice(ID_BAD + (rng.randrange(-1000, 801), rng.randrange(850, 5000))) if bad else rng.choice(ID_OK)
        else:
            side, i = where[:3], int(where[3]) - 1
            top = (65535, 255)[i]
            x = rng.choice(((A1_BAD, A2_BAD)[i]) + (rng.randrange(top + 1, top * 9), -rng.randrange(1, top * 9))) if bad else rng.choice((A1, A2)[i])
            t = list(v[side])
            t[i] = x
            v[side] = tuple(t)
        attempt(E, obs, v)
        obs.seen(where, v[where[:3]] if where[:3] in v else v[where])
        return
    if m == "sweep":
        for n in range(case["lo"], case["lo"] + 2048, case["step"]):
            v = values(rng)
            v["src"], v["dst"] = (n, n % 256), (65535 - n, 255 - n % 256)
            conn = attempt(E, obs, v)
            obs.count("address-1-values")
            obs.count("address-2-values", 2)
            if n % 5 == 0:
                wire(E, obs, rng, conn, {**v, "key": None, "key_id": None}, device.KINDS[n % len(device.KINDS)])
        return
    if m == "wire":
        v = {**values(rng), "key": None, "key_id": None}
        v["password"] = rng.choice((v["password"], v["password"], rng.choice(PW), v["password"][: rng.randrange(7)]))
        v["password_id"] = rng.choice(ID_OK)
        v["src"] = (rng.choice(A1 + (rng.randrange(65536), 0x0D0D, 0x1B8D)), rng.choice(A2 + (13, 27, 141, rng.randrange(256))))
        v["dst"] = (rng.choice(A1 + (rng.randrange(65536), 0x8D0D)), rng.choice(A2 + (13, 27, 141)))
        if rng.random() < 0.5:
            v["key"], v["key_id"] = rng.randbytes(16), rng.randrange(1, 8)
        conn = attempt(E, obs, v)
        for kind in rng.sample(device.KINDS, 2):
            wire(E, obs, rng, conn, v, kind)
            # answer it, so the next can be sent
            conn.receive_data(device.reply_wire(v, ref.KIND_SERVICE[kind], device.gen_reply(rng, kind, 20)[0], rng))
            conn.next_event()
        obs.seen(sorted(map(str, v.items())))
        obs.sample({"settings": v}, 2)
        return
    client(E, obs, rng)


def wire(E, obs, rng, conn, v, kind):
    pw = v["password"]
    args = device.gen_request(rng, kind, pw)
    w = conn.send(device.make_request(E, kind, args))
    read_wire(obs, v, bytes(w), kind)


def read_wire(obs, v, w, kind):
    """The settings as they appear in one request."""
    pw = v["password"]
    obs.eval()
    try:
        k, service, dst, src, payload = ref.parse_frame(ref.unescape(w))
        data = ref.decrypt(v["key"], v["key_id"], payload) if v["key"] else payload
    except ref.BadFrame as e:
        obs.fail(f"{kind} request with settings {v} cannot be read: {e}", "unreadable")
    obs.equal(k, ref.EREQ if v["key"] else ref.REQ, "request frame kind", "unreadable")
    obs.expect((dst, src) == (tuple(v["dst"]), tuple(v["src"])),
               lambda: f"{kind} request carries destination {dst} and source {src}, configured {v['dst']} and {v['src']}", "address")
    if kind != "time":
        raw = pw.encode("latin-1")
        # what follows a password of fewer than six characters is C11's business
        obs.expect(data[: len(raw)] == raw and (len(raw) < 6 or data[6:8] == b"!\x03"),
                   lambda: f"{kind} request carries the password field {data[:10]!r}, configured password {pw!r}", "password")
    obs.count("on-the-wire")


def client(E, obs, rng):
    """The client passes its settings on to its connection."""
    for pw, pid in [("123456", 801), ("abc", 849), ("", 820), ("1234567", 801), ("123456", 800), ("123456", 850), ("x" * 9, 900), ("ÿ" * 7, 825)]:
        c = {**device.rand_config(rng, addresses=False), "password": pw, "password_id": pid}
        good = len(pw) <= 6 and 801 <= pid <= 849
        obs.eval()
        dev = device.SimDevice(c, rng, device.gen_objects(rng, 1))
        tr = device.MemoryTransport(E, dev)
        try:
            cl = device.make_client(E, c, tr)
        except ValueError:
            obs.expect(not good, f"a client with password {pw!r} and id {pid} was refused", "refused-valid")
            obs.count("client-refused")
            continue
        obs.expect(good, f"a client with password {pw!r} and id {pid} was created", "accepted-invalid")
        obs.count("client-accepted")
        if len(pw) == 6:
            cl.connect()
            kind = rng.choice(device.KINDS)
            method, kw = device.gen_call(rng, kind, 1)
            device.do_call(E, cl, method, kw)
            for w in tr.sent:
                read_wire(obs, c, w, kind)
        obs.seen(pw, pid, bool(c["key"]))
