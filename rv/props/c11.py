"""C11 request data layout."""
import datetime
import random
import struct

from rv import core, device, layouts, ref

ID = "C11"
SCALE = 16
RULE = (
    "Requests of every kind with boundary and random arguments are encoded by the code and read field by field by an "
    "independent device-side parser; arguments just and far outside their field must be refused; passwords over "
    "latin-1 and of other lengths, object counts and amounts over their whole 16-bit range.  Distinct = distinct "
    "(kind, arguments)."
)
MIN = {"fields-right": 4000, "refused": 1500, "on-the-wire": 800, "u16-values": 4096, "filler-varies": 8, "cryout": 100,
       "short-password": 100, "client-refused": 1000, "zoned": 300, "same-instant": 150}
ZONES = [None] + [datetime.timezone(datetime.timedelta(minutes=m)) for m in (0, 60, -300, 345, 839, -719)]
KNOWN_SHORT, KNOWN_CRYOUT = "short-password-field", "cryout-bit-not-sent"


def gen(ctx):
    for s in ctx.seeds("ok", 4000, 80000):
        yield {"m": "ok", "seed": s}
    for s in ctx.seeds("wire", 800, 10000):
        yield {"m": "wire", "seed": s}
    for s in ctx.seeds("over", 400, 6000):
        yield {"m": "over", "seed": s}
    step = 1 if ctx.thorough else 64
    for i, lo in enumerate(range(0, 65536, 4096)):
        if i % ctx.nshards == ctx.shard:
            yield {"m": "u16", "lo": lo, "step": step, "seed": ctx.seed * 17 + i}
    for s in ctx.seeds("client", 60, 800):
        yield {"m": "client", "seed": s}
    for s in ctx.seeds("cryout", 120, 800):
        yield {"m": "cryout", "seed": s}
    for s in ctx.seeds("short", 120, 800):
        yield {"m": "short", "n": s % 6, "seed": s}
    for i in range(8):
        if i % ctx.nshards == ctx.shard:
            yield {"m": "filler", "seed": ctx.seed * 13 + i}


def check(E, obs, kind, args):
    r = device.make_request(E, kind, args)
    obs.eval()
    obs.equal(int(r.service), ref.KIND_SERVICE[kind], f"service number of a {kind} request", "service")
    data = r.to_bytes()
    try:
        fields = ref.parse_request(int(r.service), data)
    except ref.BadFrame as e:
        obs.fail(f"{kind} request {args!r} encoded as {core.short(bytes(data))}: {e}", "layout")
    d = device.check_request(fields, kind, args)
    obs.expect(not d, lambda: f"{kind} request {args!r} encoded as {core.short(bytes(data))}: {d}", "layout")
    if kind == "write_time":
        obs.expect(fields["flags"] == (5 if args.get("cryout") else 4),
                   lambda: f"write_time flags byte is {fields['flags']:#x} for cryout={args.get('cryout', False)}; the set-time bit is 0x04 and the cryout bit 0x01",
                   KNOWN_CRYOUT if args.get("cryout") and fields["flags"] == 4 else "flags")
    obs.count("fields-right")
    return bytes(data)


def password(rng):
    return "".join(chr(rng.choice((rng.randrange(32, 127), rng.randrange(160, 256), rng.randrange(1, 256)))) for _ in range(6))


def client_misfits(E, obs, rng):
    """A client call with an argument that does not fit raises and sends nothing; the same call within bounds works."""
    c = device.rand_config(rng, addresses="client")
    objects = device.gen_objects(rng, 3)
    dev = device.SimDevice(c, rng, objects=objects)
    cl = device.make_client(E, c, device.MemoryTransport(E, dev))
    cl.connect()
    for kind in rng.sample(device.KINDS, 3):
        method, good = device.gen_call(rng, kind, 3)
        bads = []
        for f, top in (("read_from", 2**16), ("amount", 2**16), ("oldest_record_id", 2**32), ("archive", 256)):
            if f in good:
                bads += [(f, v) for v in (top, -1, -top, top * 256 + 1, rng.randrange(top, top * 1000))]
        for f in ("device_time", "oldest_timestamp"):
            if f in good:
                bads += [(f, datetime.datetime(y, 2, 3)) for y in (1999, 2100, 1970)]
        for f, v in bads:
            mark = len(dev.log)
            obs.eval()
            try:
                r = device.do_call(E, cl, method, {**good, f: v})
            except (core.Violation, core.CaseTimeout):
                raise
            except Exception:
                pass
            else:
                obs.fail(f"{method} with {f}={v!r:.60} returned {r!r:.200}", "overflow-encoded")
            obs.expect(len(dev.log) == mark and not dev.bad, lambda: f"{method} with {f}={v!r:.60} put {dev.log[mark:]!r:.200} {dev.bad!r:.200} on the wire", "overflow-encoded")
            obs.count("client-refused")
            obs.seen(method, f, repr(v))
        mark = len(dev.log)
        d = device.check_call(c, dev, mark, kind, good, device.do_call(E, cl, method, good))
        obs.expect(not d, lambda: f"{method} {good!r}: {d}", "layout")


def run(case, obs):
    E = core.load_elgas()
    rng = random.Random(case["seed"])
    m = case["m"]
    if m == "ok":
        kind = rng.choice(device.KINDS)
        pw = rng.choice((password(rng), "123456", "\r\x1b\x8d\x00ÿ!"))
        args = device.gen_request(rng, kind, E["utils"].to_secret_str(pw) if rng.random() < 0.3 else pw)
        for f in ("device_time", "oldest_timestamp"):
            if f in args and rng.random() < 0.3:
                args[f] = args[f].replace(microsecond=rng.randrange(10**6))
            if f in args and rng.random() < 0.3:  # the digits of the clock are sent, whatever zone it is in
                args[f] = args[f].replace(fold=rng.randrange(2), tzinfo=rng.choice(ZONES))
                obs.count("zoned")
        if "archive" in args and rng.random() < 0.2:
            args["archive"] = rng.randrange(256)
        if "device_time" in args and rng.random() < 0.3:
            args["cryout"] = False
        check(E, obs, kind, args)
        for f in ("device_time", "oldest_timestamp"):
            if f in args and args[f].tzinfo:  # the same instant as another zone's clock shows it
                there = args[f].astimezone(rng.choice(ZONES[1:]))
                if 2000 <= there.year <= 2099:
                    check(E, obs, kind, {**args, f: there})
                    obs.count("same-instant")
        obs.seen(kind, sorted((k, str(v)) for k, v in args.items() if k != "password"))
        obs.sample({"kind": kind, "args": {k: str(v) for k, v in args.items()}}, 2)
    elif m == "wire":
        c = device.rand_config(rng)
        kind = rng.choice(device.KINDS)
        args = device.gen_request(rng, kind, c["password"])
        w = device.make_connection(E, c).send(device.make_request(E, kind, args))
        obs.eval()
        try:
            fields, service = device.read_request(c, w)
        except ref.BadFrame as e:
            obs.fail(f"{kind} request on the wire unreadable: {e}", "layout")
        obs.equal(service, ref.KIND_SERVICE[kind], "service on the wire", "service")
        d = device.check_request(fields, kind, args)
        obs.expect(not d, lambda: f"{kind} request on the wire: {d}", "layout")
        obs.count("on-the-wire")
        obs.seen(bytes(w))
    elif m == "over":
        kind = rng.choice([k for k in device.KINDS if k != "time"])
        base = device.gen_request(rng, kind, "123456")
        bads = [("password", x) for x in ("1234567", "12345678901234", "12345\u0142", "\u20ac23456", "a" * 1000)]
        for f, top in (("object_count", 2**16), ("buffer_length", 2**16), ("amount", 2**16), ("oldest_record_id", 2**32)):
            if f in base:
                bads += [(f, v) for v in (top, top + 1, -1, -top, top * 256, top * 65536 + 5, rng.randrange(top, top * 1000))]
        if "archive" in base:
            bads += [("archive", v) for v in (256, 257, -1, 65536, rng.randrange(256, 10**6))]
        for f in ("device_time", "oldest_timestamp"):
            if f in base:
                bads += [(f, datetime.datetime(y, 1 + rng.randrange(12), 1 + rng.randrange(28))) for y in (1, 1899, 1970, 1999, 2100, 2999, 9999)]
        for f, v in bads:
            args = {**base, f: v}
            obs.eval()
            try:
                data = device.make_request(E, kind, args).to_bytes()
            except Exception:
                obs.count("refused")
                obs.seen(kind, f, repr(v))
            else:
                obs.fail(f"{kind} request with {f}={v!r:.60} was encoded as {core.short(bytes(data))}", "overflow-encoded")
    elif m == "client":
        client_misfits(E, obs, rng)
    elif m == "u16":
        for n in range(case["lo"], case["lo"] + 4096, case["step"]):
            k = rng.randrange(65536)
            for kind, over in (("params", {"object_count": n, "buffer_length": k}), ("params", {"object_count": k, "buffer_length": n}),
                               ("archive", {"amount": n, "oldest_record_id": n * 65537 % 2**32}), ("archive_by_time", {"amount": n})):
                check(E, obs, kind, {**device.gen_request(rng, kind, "abcdef"), **over})
                obs.count("u16-values")
            obs.seen("u16", n)
    elif m == "filler":
        # the last two bytes of the password field are filler: whatever they are, six characters stay put
        seen = set()
        for _ in range(30):
            seen.add(check(E, obs, "values", {"password": "QWERTY"}))
        obs.count("filler-varies")
    elif m == "cryout":
        obs.count("cryout")
        check(E, obs, "write_time", {"password": password(rng), "device_time": device.rand_time(rng), "cryout": True})
    else:
        kind = rng.choice([k for k in device.KINDS if k != "time"])
        n = case["n"]
        pw = password(rng)[:n]
        args = device.gen_request(rng, kind, pw)
        obs.count("short-password")
        obs.eval()
        try:
            data = bytes(device.make_request(E, kind, args).to_bytes())
        except ValueError:
            return  # refusing what cannot be encoded is fine
        want = {"values": 10, "write_time": 17, "params": 14, "archive": 17, "archive_by_time": 19}[kind]
        if len(data) != want:
            # everything but the length of the password field must still be right
            short = data[: n] == pw.encode("latin-1") and data[n:n + 2] == b"!\x03" and len(data) == want - 6 + n
            if short:
                full = b"......" + data[n:]
                fields = ref.parse_request(ref.KIND_SERVICE[kind], full)
                fields["password"] = pw
                short = not device.check_request(fields, kind, args)
            obs.fail(
                f"{kind} request with the {n}-character password {pw!r} is {core.short(data)}, the documented fields take {want} bytes",
                KNOWN_SHORT if short else "layout",
            )
