"""C08 encryption: layout, secrecy, round trip, key without id refused."""
import random

from rv import core, device, ref

ID = "C08"
SCALE = 16
RULE = (
    "Every data length 0..600 (and random lengths to 65000) under random and special keys and all key ids is encrypted "
    "by the code and opened by the reference cipher, and the other way round; requests of all kinds sent on encrypted "
    "connections and clients are opened by the reference device and searched for plaintext; distinct = distinct "
    "(key, key id, data) and distinct wire frames."
)
MIN = {"opened-by-peer": 1200, "opened-by-code": 2400, "round-trip": 1200, "request-opened": 750,
       "plaintext-windows-searched": 5000, "key-without-id-refused": 40, "unusable-key-refused": 200, "kinds": 6, "refused-first": 200}
SPECIAL_KEYS = (bytes(16), b"\xff" * 16, b"ABCDEF0123456789", b"\r" * 16, bytes(range(16)), b"\x1b\x8d\r" * 5 + b"\x1b")


def gen(ctx):
    for i in range(0, 601, 5):
        if i // 5 % ctx.nshards == ctx.shard:
            yield {"m": "len", "lo": i, "seed": ctx.seed * 7919 + i}
    for s in ctx.seeds("big", 24, 400):
        yield {"m": "big", "seed": s}
    for s in ctx.seeds("req", 800, 20000):
        yield {"m": "req", "seed": s}
    for s in ctx.seeds("resp", 400, 8000):
        yield {"m": "resp", "seed": s}
    for s in ctx.seeds("noid", 48, 200):
        yield {"m": "noid", "seed": s}


def one(E, obs, rng, n):
    key = rng.choice(SPECIAL_KEYS) if rng.random() < 0.3 else rng.randbytes(16)
    kid = rng.randrange(1, 8)
    S = E["security"]
    ctx = S.CipherContext(device.key_id(E, kid), key)
    data = device.rand_payload(rng, n, n)
    # code -> peer
    enc = bytes(ctx.encrypt(rng.choice((bytes, bytearray))(data)))
    obs.eval()
    want = 3 + -(-(n + 2) // 16) * 16
    obs.equal(len(enc), want, f"size of {n} encrypted bytes", "layout")
    obs.equal(enc[:3], n.to_bytes(2, "little") + bytes((kid,)), f"header of {n} encrypted bytes", "layout")
    try:
        got = ref.decrypt(key, kid, enc)
    except ref.BadFrame as e:
        obs.fail(f"peer cannot open {n} encrypted bytes ({e}); key {key.hex()} id {kid} data {core.short(data)} payload {core.short(enc)}", "peer-cannot-open")
    obs.equal(got, data, f"data a peer recovers from {n} encrypted bytes", "peer-cannot-open")
    obs.count("opened-by-peer")
    # code -> code
    obs.equal(ctx.decrypt(enc), data, f"decrypt(encrypt(data[{n}]))", "round-trip")
    obs.count("round-trip")
    # peer -> code; padding contents are the sender's choice
    for pad in (None, rng):
        theirs = ref.encrypt(key, kid, data, pad)
        obs.eval()
        obs.equal(ctx.decrypt(rng.choice((bytes, bytearray))(theirs)), data, f"decryption of {n} bytes encrypted by a peer", "round-trip")
        obs.count("opened-by-code")
    obs.seen(key, kid, data)


def refused_first(E, obs, rng, c, conn):
    """Requests the connection does not take, and an exchange between them."""
    def refuse(kind, args, what):
        obs.eval()
        try:
            w = conn.send(device.make_request(E, kind, args))
        except (core.Violation, core.CaseTimeout):
            raise
        except Exception:
            obs.count("refused-first")
        else:
            obs.fail(f"{what} was sent: {core.short(bytes(w))}", "sent")

    if rng.random() < 0.5:  # it has no encoding
        kind = rng.choice([k for k in device.KINDS if k != "time"])
        refuse(kind, device.gen_request(rng, kind, "much too long a password"), f"a {kind} request with a password which does not fit")
        if rng.random() < 0.5:
            return
    kind = rng.choice(device.KINDS)
    conn.send(device.make_request(E, kind, device.gen_request(rng, kind, c["password"])))
    if rng.random() < 0.7:  # one is outstanding
        k2 = rng.choice(device.KINDS)
        refuse(k2, device.gen_request(rng, k2, c["password"]), f"a {k2} request while a {kind} request is outstanding")
    how = rng.random()
    if how < 0.2:
        conn.reset()
        return
    data, want = device.gen_reply(rng, kind, 30)
    if how < 0.4:
        data = bytes((1 << rng.randrange(8),))
    conn.receive_data(device.reply_wire(c, ref.KIND_SERVICE[kind], data, rng))
    try:
        ev = conn.next_event()
    except E["exceptions"].ElgasError:
        obs.expect(how < 0.4, lambda: f"a good encrypted {kind} response raised", "response-content")
    else:
        d = ["no error"] if how < 0.4 else device.diff_reply(ev, kind, want)
        obs.expect(not d, lambda: f"encrypted {kind} response: {d}", "response-content")


def windows(data, n=5):
    return {bytes(data[i:i + n]) for i in range(len(data) - n + 1)}


def run(case, obs):
    E = core.load_elgas()
    rng = random.Random(case["seed"])
    m = case["m"]
    if m == "len":
        for n in range(case["lo"], case["lo"] + 5):
            for _ in range(2):
                one(E, obs, rng, n)
    elif m == "big":
        one(E, obs, rng, rng.choice((rng.randrange(601, 65000), 65535 - 15 - 3 - 14, 4096, 1024)))
    elif m == "req":
        c = device.rand_config(rng, encrypted=True)
        conn = device.make_connection(E, c)
        for _ in range(rng.choice((0, 0, 1, 2))):
            refused_first(E, obs, rng, c, conn)
        kind = rng.choice(device.KINDS)
        args = device.gen_request(rng, kind, c["password"])
        w = bytes(conn.send(device.make_request(E, kind, args)))
        obs.eval()
        try:
            fields, service = device.read_request(c, w)
        except ref.BadFrame as e:
            obs.fail(f"device cannot read encrypted {kind} request ({e}): {core.short(w)}", "request-unreadable")
        obs.equal(service, ref.KIND_SERVICE[kind], "service of encrypted request", "request-unreadable")
        d = device.check_request(fields, kind, args)
        obs.expect(not d, lambda: f"encrypted {kind} request: {d}", "request-content")
        obs.count("request-opened")
        payload = ref.parse_frame(ref.unescape(w))[4]
        plain = ref.decrypt(c["key"], c["key_id"], payload)
        win = windows(plain)
        pw = c["password"].encode("latin-1")
        for hay in (payload[3:], w):
            obs.expect(pw not in hay, lambda: f"the password of an encrypted {kind} request is on the wire: {core.short(w)}", "cleartext")
        leaked = win & windows(payload[3:])
        obs.expect(not leaked, lambda: f"request data {leaked} of an encrypted {kind} request is on the wire in clear", "cleartext")
        obs.count("plaintext-windows-searched", len(win))
        obs.seen(w)
        obs.sample({"kind": kind, "wire": w.hex()}, 2)
    elif m == "resp":
        c = device.rand_config(rng, encrypted=True)
        conn = device.make_connection(E, c)
        for _ in range(rng.choice((1, 2, 5))):
            kind = rng.choice(device.KINDS)
            conn.send(device.make_request(E, kind, device.gen_request(rng, kind, c["password"])))
            data, want = device.gen_reply(rng, kind, rng.choice((4, 30, 300)))
            conn.receive_data(device.reply_wire(c, ref.KIND_SERVICE[kind], data, rng))
            obs.eval()
            ev = conn.next_event()
            d = device.diff_reply(ev, kind, want)
            obs.expect(not d, lambda: f"encrypted {kind} response: {d}", "response-content")
            obs.seen(data)
            obs.count("response-opened")
    else:
        c = device.rand_config(rng, encrypted=True)
        c["key_id"] = None
        kind = rng.choice(device.KINDS)
        args = device.gen_request(rng, kind, c["password"])
        for what, make in (("connection", lambda: device.make_connection(E, c)),
                           ("client", lambda: device.make_client(E, c, None).elgas_connection)):
            obs.eval()
            try:
                conn = make()
                w = conn.send(device.make_request(E, kind, args))
            except Exception:
                obs.count("key-without-id-refused")
                obs.seen(what, kind)
                continue
            obs.fail(f"a {what} with an encryption key but no key id sent a {kind} request: {core.short(w)}", "key-without-id")
        # a key no cipher can use must not mean sending in the clear either
        c["key_id"] = rng.randrange(1, 8)
        for n in (0, 1, 8, 15, 17, 33):
            c["key"] = rng.randbytes(n)
            obs.eval()
            try:
                w = bytes(device.make_connection(E, c).send(device.make_request(E, kind, args)))
            except Exception:
                obs.count("unusable-key-refused")
                continue
            obs.expect(ref.unescape(w)[2] == ref.EREQ and ref.unescape(w)[12:-4] != device.make_request(E, kind, args).to_bytes(),
                       lambda: f"a connection with a key of {n} bytes sent a {kind} request in the clear: {core.short(w)}", "sent-in-clear")
    if m == "len" and case["lo"] == 0:
        obs.count("kinds", len(device.KINDS))
