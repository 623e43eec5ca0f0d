"""C03 escaping."""
import itertools
import random

from rv import core, device, ref

ID = "C03"
SCALE = 16
RULE = (
    "Byte strings ending in the end character: all strings up to length 5 (6 thorough) over the alphabet of "
    "reserved/escape bytes, all byte pairs, random and adversarial strings; distinct = distinct strings "
    "containing at least one reserved byte before the end."
)
MIN = {"roundtrip": 80000, "refused-no-end": 200, "sent-frames": 200}
ALPHA = (0x0D, 0x1B, 0x8D, 0x0E, 0x0F, 0x1A, 0x41)


def gen(ctx):
    for n in range(0, 7 if ctx.thorough else 6):
        for first in ctx.mine(range(49 if n >= 2 else 1)):
            yield {"m": "alpha", "n": n, "first": first}
    for a in ctx.mine(range(256)):
        yield {"m": "pairs", "a": a}
    for s in ctx.seeds("rand", 400, 8000):
        yield {"m": "rand", "seed": s}
    for s in ctx.seeds("sent", 300, 4000):
        yield {"m": "sent", "seed": s}


def check(obs, data):
    U = core.load_elgas()["utils"]
    obs.eval()
    want = ref.escape(data)
    got = U.escape_characters(data)
    obs.equal(got, want, f"escaped form of {core.short(data)}", "escape")
    obs.expect(b"\r" not in bytes(got)[:-1] and 0x8D not in bytes(got), "reserved byte left in escaped form", "escape")
    back = U.return_characters(want)
    obs.equal(back, data, f"un-escaped form of {core.short(want)}", "unescape")
    obs.equal(U.return_characters(got), data, "round trip", "unescape")
    obs.count("roundtrip")
    if any(x in (0x0D, 0x1B, 0x8D) for x in data[:-1]):
        obs.seen(data)


def run(case, obs):
    U = core.load_elgas()["utils"]
    m = case["m"]
    if m == "alpha":
        n = case["n"]
        if n < 2:
            heads, rest = [()], n
        else:
            heads, rest = [(ALPHA[case["first"] // 7], ALPHA[case["first"] % 7])], n - 2
        for h in heads:
            for t in itertools.product(ALPHA, repeat=rest):
                check(obs, bytes(h + t) + b"\r")
        return
    if m == "pairs":
        for b in range(256):
            check(obs, bytes((case["a"], b)) + b"\r")
            check(obs, bytes((b, case["a"], b)) + b"\r")
        for b in (0, 0x0C, 0x8C, 0x1B, 0x0E, 0xFF):
            s = bytes((case["a"], b))
            if s[-1] == 0x0D:
                continue
            obs.eval()
            try:
                r = U.escape_characters(s)
            except ValueError:
                obs.count("refused-no-end")
                continue
            obs.fail(f"escaping {s!r} without end char gave {r!r}", "no-end-accepted")
        return
    rng = random.Random(case["seed"])
    if m == "rand":
        n = rng.choice((0, 1, 3, 20, 200, 1500, 4096, 9000 if rng.random() < 0.3 else 300))
        mode = rng.randrange(4)
        if mode == 0:
            d = rng.randbytes(n)
        elif mode == 1:
            d = bytes(rng.choice(ALPHA) for _ in range(n))
        elif mode == 2:
            d = bytes([rng.choice((0x1B, 0x0D, 0x8D))]) * n
        else:
            d = bytes(rng.choice((0x1B, 0x1B, 0x1B, 0x0E, 0x0F)) for _ in range(n))
        check(obs, d + b"\r")
        obs.sample(d[:40] + b"\r", 2)
        for bad in (d.rstrip(b"\r") + b"\x1b", d.rstrip(b"\r") + b"\x8d", b""):
            obs.eval()
            try:
                r = U.escape_characters(bad)
            except ValueError:
                obs.count("refused-no-end")
                continue
            obs.fail(f"escaping {core.short(bad)} without end char gave {core.short(r)}", "no-end-accepted")
    else:
        E = core.load_elgas()
        c = device.rand_config(rng)
        # force reserved bytes into addresses and arguments
        kind = rng.choice(device.KINDS)
        args = device.gen_request(rng, kind, c["password"])
        if "amount" in args:
            args["amount"] = rng.choice((0x0D, 0x1B, 0x8D, 0x0D0D, 0x1B0E, 0x8D1B))
        out = bytes(device.make_connection(E, c).send(device.make_request(E, kind, args)))
        obs.eval()
        obs.expect(
            out.endswith(b"\r") and b"\r" not in out[:-1] and 0x8D not in out,
            lambda: f"reserved bytes inside a sent frame: {core.short(out)}", "escape",
        )
        obs.expect(ref.valid_frame(ref.unescape(out)), lambda: f"sent frame does not un-escape to a frame: {core.short(out)}", "escape")
        obs.count("sent-frames")
