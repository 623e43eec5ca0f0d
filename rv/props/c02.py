"""C02 frame layout and round trip."""
import random

from rv import core, device, ref

ID = "C02"
SCALE = 16
RULE = (
    "Random and boundary frames of four kinds and 14 services are encoded by the code and compared byte for "
    "byte with the reference encoder, then decoded by the code; distinct = distinct (kind, service, addresses, "
    "payload) tuples whose wire image was compared.  Frame objects changed field by field are encoded again."
)
MIN = {"roundtrip": 5000, "refused-misfit": 100, "connection-frames": 200, "ref-decoded": 5000, "changed-frames": 1000}
KIND_NAMES = {0x84: "Request", 0x85: "EncryptedRequest", 0x86: "Response", 0x87: "EncryptedResponse"}


def gen(ctx):
    for blk in ctx.mine(range(0, 65536, 512)):
        yield {"m": "addr", "blk": blk}
    for n in ctx.mine(list(range(0, 64)) + [100, 200] + list(range(236, 300)) + [511, 512, 1000, 1024, 4096, 65519, 65520]):
        yield {"m": "len", "n": n, "seed": ctx.seed}
    for s in ctx.seeds("rand", 240, 20000):
        yield {"m": "rand", "seed": s}
    for s in ctx.seeds("misfit", 24, 400):
        yield {"m": "misfit", "seed": s}
    for s in ctx.seeds("conn", 240, 6000):
        yield {"m": "conn", "seed": s}


NAME_OF = {v: k for k, v in ref.SERVICES.items()}


def make(kind, service, dst, src, payload):
    E = core.load_elgas()
    return getattr(E["frames"], KIND_NAMES[kind])(
        service=getattr(E["constants"].ServiceNumber, NAME_OF.get(service, "-"), None) or E["constants"].ServiceNumber(service),
        destination_address_1=dst[0],
        destination_address_2=dst[1],
        source_address_1=src[0],
        source_address_2=src[1],
        data=payload,
    )


def check(obs, kind, service, dst, src, payload):
    F = core.load_elgas()["frames"]
    cls = getattr(F, KIND_NAMES[kind])
    want = ref.frame(kind, service, payload, dst, src)
    what = f"{KIND_NAMES[kind]}(service={service:#x}, dst={dst}, src={src}, data[{len(payload)}])"
    obs.eval()
    got = make(kind, service, dst, src, payload).to_bytes()
    obs.equal(got, want, f"wire image of {what}", "layout")
    decs = [cls] + ([F.ResponseFactory] if kind >= 0x86 else [])
    for dec in decs:
        obs.eval()
        try:
            back = dec.from_bytes(want)
        except ValueError as e:
            obs.fail(f"{dec.__name__} refused the encoding of {what}: {e}", "refused-own-frame")
        obs.expect(type(back) is cls, lambda: f"{what} decoded as {type(back).__name__}", "kind")
        fields = (
            int(back.service), (back.destination_address_1, back.destination_address_2),
            (back.source_address_1, back.source_address_2), bytes(back.data),
        )
        obs.equal(fields, (service, dst, src, payload), f"decoding of {what}", "roundtrip")
        obs.equal(back.to_bytes(), want, f"re-encoding of {what}", "roundtrip")
        obs.count("ref-decoded")
    for other in ref.KINDS:
        if other != kind:
            try:
                x = getattr(F, KIND_NAMES[other]).from_bytes(want)
            except ValueError:
                continue
            obs.fail(f"{KIND_NAMES[other]}.from_bytes accepted {what} as {x!r:.100}", "kind")
    obs.count("roundtrip")
    obs.seen(kind, service, dst, src, payload)


FIELDS = ("service", "destination_address_1", "destination_address_2", "source_address_1", "source_address_2", "data")


def changed(obs, rng, kind, pick):
    """One frame object, changed field by field: each encoding is that of what the object holds then."""
    E = core.load_elgas()
    cls = getattr(E["frames"], KIND_NAMES[kind])
    values = pick()
    f = make(kind, values[0], values[1:3], values[3:5], values[5])
    for step in range(8):
        want = ref.frame(kind, values[0], values[5], tuple(values[1:3]), tuple(values[3:5]))
        obs.eval()
        obs.equal(f.to_bytes(), want, f"wire image of a {KIND_NAMES[kind]} after {step} changes", "layout")
        if rng.random() < 0.2:
            f = cls.from_bytes(want)
        new = pick()
        for i in rng.sample(range(6), rng.choice((1, 1, 2, 6))):
            try:
                setattr(f, FIELDS[i], E["constants"].ServiceNumber(new[i]) if i == 0 else new[i])
            except AttributeError:  # frames that cannot be changed cannot be stale either
                return
            values[i] = new[i]
        obs.count("changed-frames")
        if rng.random() < 0.2:  # refused while a value does not fit, and as good as ever when it does again
            i = rng.choice((1, 2, 3, 4))
            setattr(f, FIELDS[i], rng.choice((-1, 65536, 1 << 20)))
            try:
                out = f.to_bytes()
            except Exception:
                obs.count("refused-misfit")
            else:
                obs.fail(f"{KIND_NAMES[kind]} with {FIELDS[i]} {getattr(f, FIELDS[i])} was encoded: {core.short(out)}", "misfit-encoded")
            setattr(f, FIELDS[i], values[i])
    obs.seen("changed", kind, tuple(values))


def run(case, obs):
    m = case["m"]
    services = sorted(ref.SERVICE_CODES)
    if m == "addr":
        for a in range(case["blk"], case["blk"] + 512):
            kind = ref.KINDS[a % 4]
            b = (a * 7919 + 13) % 65536
            check(obs, kind, services[a % 14], (a, a % 256), (b, (a >> 8) % 256), b"\x01\x02")
        return
    if m == "len":
        rng = random.Random(case["n"])
        for kind in ref.KINDS:
            check(obs, kind, rng.choice(services), (1, 2), (772, 5), device.rand_payload(rng, case["n"], case["n"]))
        return
    rng = random.Random(case["seed"])
    a = lambda: (rng.choice((0, 1, 0x0D, 0x1B, 0x8D, 255, 256, 0x0100, 0x0D1B, 65535, rng.randrange(65536))), rng.choice((0, 255, rng.randrange(256))))
    if m == "rand":
        for _ in range(6):
            check(obs, rng.choice(ref.KINDS), rng.choice(services), a(), a(), device.rand_payload(rng, 0, rng.choice((40, 600))))
        changed(obs, rng, rng.choice(ref.KINDS), lambda: [rng.choice(services), *a(), *a(), device.rand_payload(rng, 0, rng.choice((3, 40, 600)))])
        obs.sample({"dst": a(), "src": a()}, 1)
    elif m == "misfit":
        for kind in ref.KINDS:
            dst, src = a(), a()
            bad = [
                ((65536, 0), src, b""), ((-1, 0), src, b""), ((0, 256), src, b""), ((0, -1), src, b""),
                (dst, (65536, 0), b""), (dst, (-1, 0), b""), (dst, (0, 256), b""), (dst, (0, -1), b""),
                ((rng.randrange(65536, 1 << 24), 1), src, b"x"), (dst, (1, rng.randrange(256, 5000)), b"x"),
                (dst, src, bytes(65521)), (dst, src, bytes(rng.randrange(65521, 140000))),
            ]
            for d, s, p in bad:
                obs.eval()
                try:
                    out = make(kind, rng.choice(services), d, s, p).to_bytes()
                except Exception:
                    obs.count("refused-misfit")
                    obs.seen("misfit", kind, d, s, len(p))
                    continue
                obs.fail(f"{KIND_NAMES[kind]} dst={d} src={s} data[{len(p)}] does not fit but was encoded: {core.short(out)}", "misfit-encoded")
    elif m == "conn":
        E = core.load_elgas()
        c = device.rand_config(rng)
        conn = device.make_connection(E, c)
        kind = rng.choice(device.KINDS)
        args = device.gen_request(rng, kind, c["password"])
        obs.eval()
        out = bytes(conn.send(device.make_request(E, kind, args)))
        try:
            k, service, dst, src, payload = ref.parse_frame(ref.unescape(out))
        except ref.BadFrame as e:
            obs.fail(f"request frame on the wire is malformed ({e}): {core.short(out)}", "layout")
        obs.equal(
            (k, service, dst, src),
            (ref.EREQ if c["key"] else ref.REQ, ref.KIND_SERVICE[kind], tuple(c["dst"]), tuple(c["src"])),
            "kind, service, destination, source of a sent frame", "layout",
        )
        obs.count("connection-frames")
        obs.seen(out)
