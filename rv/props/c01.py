"""C01 damaged frames are never accepted."""
import random
import struct

from rv import core, device, ref

ID = "C01"
RULE = (
    "A seeded valid frame of one of the four kinds is damaged (every byte position, inserted/removed/"
    "truncated/extended/spliced bytes, damage that keeps two of the three redundancy bytes right, wrong "
    "length or service with redundancy recomputed); each damaged byte string is one evaluation and counts "
    "as distinct and non-trivial when the reference decoder rejects it."
)
MIN = {"refused": 20000, "accepted-valid": 300, "via-connection": 300, "only-one-redundancy-wrong": 1000}
KIND_NAMES = {0x84: "Request", 0x85: "EncryptedRequest", 0x86: "Response", 0x87: "EncryptedResponse"}


def gen(ctx):
    for s in ctx.seeds("flip", 320, 4000):
        yield {"m": "damage", "seed": s}
    for s in ctx.seeds("forge", 160, 3000):
        yield {"m": "forge", "seed": s}
    for s in ctx.seeds("soup", 80, 1500):
        yield {"m": "soup", "seed": s}
    for s in ctx.seeds("conn", 400, 6000):
        yield {"m": "conn", "seed": s}
    for i, k in enumerate(ref.KINDS):
        if i % ctx.nshards == ctx.shard:
            yield {"m": "wrap", "kind": k, "seed": ctx.seed}


def decoders(kind):
    F = core.load_elgas()["frames"]
    out = [getattr(F, KIND_NAMES[kind])]
    if kind in (0x86, 0x87):
        out.append(F.ResponseFactory)
    return out


def judge(obs, kind, data, note):
    """The real decoder accepts exactly what the reference accepts."""
    if len(data) < 16:
        ok = None  # shorter than any frame with all its fields: acceptance not judged
    else:
        ok = ref.valid_frame(data, kind)
    for dec in decoders(kind):
        obs.eval()
        try:
            dec.from_bytes(data)
            got = True
        except ValueError:
            got = False
        except Exception as e:
            obs.fail(f"{dec.__name__}.from_bytes raised {type(e).__name__} ({e}) instead of ValueError on {note}: {core.short(data)}", "wrong-exception")
        if ok is None:
            obs.count("short")
            continue
        if dec.__name__ == "ResponseFactory" and not ok:
            okf = ref.valid_frame(data, 0x86) or ref.valid_frame(data, 0x87)
        else:
            okf = ok
        if got and not okf:
            obs.fail(f"{dec.__name__} accepted a damaged frame ({note}): {core.short(data)}", "accepted-damaged")
        if not got and okf:
            obs.fail(f"{dec.__name__} refused a valid frame ({note}): {core.short(data)}", "refused-valid")
        obs.count("accepted-valid" if okf else "refused")
        if not okf:
            obs.seen(dec.__name__, bytes(data))


def base(rng, kind=None, size=None):
    kind = kind or rng.choice(ref.KINDS)
    service = rng.choice(sorted(ref.SERVICE_CODES))
    n = size if size is not None else rng.choice((0, 1, 2, 5, 16, 35, rng.randrange(64)))
    payload = device.rand_payload(rng, n, n)
    a = lambda: (rng.choice((0, 1, 255, 256, rng.randrange(65536))), rng.randrange(256))
    return kind, ref.frame(kind, service, payload, a(), a())


def run(case, obs):
    rng = random.Random(case["seed"])
    m = case["m"]
    if m == "damage":
        kind, f = base(rng)
        judge(obs, kind, f, "intact")
        if rng.random() < 0.2:
            values = range(1, 256)
        else:
            values = [1, 2, 4, 8, 16, 32, 64, 128, 255, rng.randrange(1, 256)]
        for i in range(len(f)):
            for x in values:
                judge(obs, kind, f[:i] + bytes((f[i] ^ x,)) + f[i + 1:], f"byte {i} ^ {x:#x}")
        for i in range(len(f) + 1):
            for b in {0, 0x0D, 0x1B, 0xFF, f[i - 1] if i else 2}:
                judge(obs, kind, f[:i] + bytes((b,)) + f[i:], f"inserted {b:#x} at {i}")
        for i in range(len(f)):
            judge(obs, kind, f[:i] + f[i + 1:], f"removed byte {i}")
            judge(obs, kind, f[:i], f"truncated to {i}")
            judge(obs, kind, f[i:], f"first {i} bytes missing")
            if i:
                judge(obs, kind, f[:i] + f[-1:], f"truncated to {i} plus end char")
        for i in range(len(f) - 1):
            if f[i] != f[i + 1]:
                judge(obs, kind, f[:i] + bytes((f[i + 1], f[i])) + f[i + 2:], f"bytes {i},{i+1} swapped")
        obs.sample({"intact": f, "example_damage": "all positions"}, 1)
    elif m == "forge":
        # bytes that pass all tests but one
        kind = rng.choice(ref.KINDS)
        service = rng.choice(sorted(ref.SERVICE_CODES))
        payload = device.rand_payload(rng, 0, 80)
        f = bytearray(ref.frame(kind, service, payload, (1, 2), (3, 4)))
        for pos in (-4, -3, -2):
            for x in [1 << i for i in range(8)] + [rng.randrange(1, 256) for _ in range(4)]:
                g = bytearray(f)
                g[pos] ^= x
                obs.count("only-one-redundancy-wrong")
                judge(obs, kind, bytes(g), f"only redundancy byte {pos} wrong")
        # two redundancy bytes wrong / swapped
        for a, b in ((-4, -3), (-3, -2), (-4, -2)):
            g = bytearray(f)
            g[a], g[b] = g[b], g[a]
            judge(obs, kind, bytes(g), "redundancy bytes exchanged")

        def fix(body):
            return b"\x02" + bytes(body) + ref.redundancy(bytes(body)) + b"\x0d"

        body = f[1:-4]
        # payload change compensated so that LRC and sum still match (two bytes exchanged)
        for _ in range(30):
            if len(body) > 2:
                i, j = rng.sample(range(len(body)), 2)
                g = bytearray(body)
                g[i], g[j] = g[j], g[i]
                judge(obs, kind, b"\x02" + bytes(g) + bytes(f[-4:]), "two body bytes exchanged")
        # payload change with only some of the redundancy bytes recomputed
        for _ in range(30):
            g = bytearray(body)
            i = rng.randrange(len(g))
            g[i] ^= rng.randrange(1, 256)
            r = bytearray(f[-4:-1])
            new = ref.redundancy(bytes(g))
            keep = rng.choice(((0,), (1,), (2,), (0, 1), (0, 2), (1, 2)))
            for k in keep:
                r[k] = new[k]
            judge(obs, kind, b"\x02" + bytes(g) + bytes(r) + b"\x0d", f"redundancy bytes {keep} recomputed only")
        # wrong length, consistent redundancy
        for d in (-1, 1, -2, 2, 15, -15, 256, -256, 0x100 * 255, rng.randrange(-300, 300) or 7):
            g = bytearray(body)
            g[3:5] = struct.pack("<H", (len(payload) + 15 + d) % 65536)
            judge(obs, kind, fix(g), f"length field off by {d}")
        g = bytearray(body)
        g[3], g[4] = g[4], g[3]
        judge(obs, kind, fix(g), "length field byte order exchanged")
        # unknown services, other kinds, wrong start
        for s in range(256):
            g = bytearray(body)
            g[2] = s
            judge(obs, kind, fix(g), f"service {s:#x}")
        for s in (0x80, 0x81, 0x82, 0x83, 0x84, 0x85, 0x86, 0x87, 0x88, 0x00, 0x06, 0xFF):
            g = bytearray(body)
            g[1] = s
            judge(obs, kind, fix(g), f"type {s:#x}")
        for s in (0xFF, 0x00, 0x7E, 0xFC):
            g = bytearray(body)
            g[0] = s
            judge(obs, kind, fix(g), f"identifier {s:#x}")
        for s in (0x00, 0x03, 0x0D, 0xFE, 0x82):
            judge(obs, kind, bytes((s,)) + bytes(f[1:]), f"start {s:#x}")
        for s in (0x0A, 0x00, 0x8D, 0x0E, 0x1B):
            judge(obs, kind, bytes(f[:-1]) + bytes((s,)), f"end {s:#x}")
        judge(obs, kind, bytes(f) + b"\x0d", "two end chars")
        judge(obs, kind, b"\x02" + bytes(f), "two start chars")
        judge(obs, kind, bytes(f) + bytes(f), "two frames glued")
        _, h = base(rng, kind)
        for _ in range(10):
            i = rng.randrange(1, len(f))
            j = rng.randrange(1, len(h))
            judge(obs, kind, bytes(f[:i]) + h[j:], "splice of two frames")
        judge(obs, kind, bytes(f), "intact")
    elif m == "soup":
        kind = rng.choice(ref.KINDS)
        for _ in range(200):
            n = rng.choice((0, 1, 3, 4, 6, 12, 15, 16, 17, 20, 40))
            body = rng.randbytes(n)
            pre = rng.choice((b"", b"\x02", b"\x02\xfe", b"\x02\xfe" + bytes((kind,))))
            judge(obs, kind, pre + body + rng.choice((b"", b"\x0d")), "random bytes")
    elif m == "wrap":
        # a frame longer than the length field can say: 65536 + n bytes, field says n
        kind = case["kind"]
        for n in (15, 16, 50):
            payload = bytes(65536 + n - 15)
            body = struct.pack("<BBBH", 0xFE, kind, 0x64, n) + bytes(6) + payload
            data = b"\x02" + body + ref.redundancy(body) + b"\x0d"
            judge(obs, kind, data, "length field wrapped at 65536")
        big = ref.frame(kind, 0x64, bytes(65520))
        judge(obs, kind, big, "largest frame")
        judge(obs, kind, big[:100] + b"\x01" + big[101:], "largest frame, byte 100 changed")
    elif m == "conn":
        E = core.load_elgas()
        c = device.rand_config(rng)
        conn = device.make_connection(E, c)
        kind = rng.choice(device.KINDS)
        conn.send(device.make_request(E, kind, device.gen_request(rng, kind, c["password"])))
        data, want = device.gen_reply(rng, kind, 60)
        if len(data) == 1 and data != b"\x00":
            data, want = b"", {}
            if kind != "write_time":
                return
        enc = c["key"] is not None
        good = ref.frame(
            ref.ERESP if enc else ref.RESP, ref.KIND_SERVICE[kind],
            ref.encrypt(c["key"], c["key_id"], data, rng) if enc else data, c["src"], c["dst"],
        )
        bad = bytearray(good)
        how = rng.randrange(5)
        if how == 0:
            bad[rng.randrange(len(bad))] ^= 1 << rng.randrange(8)
        elif how == 1:
            bad[rng.choice((-4, -3, -2))] ^= 1 << rng.randrange(8)
        elif how == 2:
            del bad[rng.randrange(len(bad) - 1)]
        elif how == 3:
            bad.insert(rng.randrange(len(bad)), rng.randrange(256))
        else:
            i, j = rng.sample(range(1, len(bad) - 4), 2)
            bad[i], bad[j] = bad[j], bad[i]
        if bad[-1] != 0x0D:
            bad += b"\x0d"
        wire = ref.escape(bytes(bad))
        # is any terminated piece of what was delivered a valid response frame?
        ok = ref.valid_frame(ref.unescape(wire), 0x86) or ref.valid_frame(ref.unescape(wire), 0x87)
        for piece in device.split(rng, wire):
            conn.receive_data(piece)
        obs.eval()
        got = None
        for _ in range(3):
            try:
                ev = conn.next_event()
            except Exception:
                obs.count("refused-with-exception")
                break
            if ev is E["state"].NEED_DATA:
                continue
            got = ev
            break
        if got is not None and not ok:
            obs.fail(f"a damaged response frame was delivered as {got!r:.200}; wire {core.short(wire)}", "delivered-damaged")
        obs.count("via-connection")
        if not ok:
            obs.seen("conn", wire)
