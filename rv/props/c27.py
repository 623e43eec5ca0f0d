"""C27 redundancy codes."""
import random

from rv import core, device, ref

ID = "C27"
SCALE = 16
RULE = (
    "LRC, CHECKSUM, DRC and CRC of the code compared with bitwise reference definitions on the empty string, all "
    "one- and two-byte strings, single-bit changes and random strings up to 65535 bytes; distinct = distinct strings."
)
MIN = {"strings": 66000, "bit-changes": 2000, "buffer-changes": 1000}


def gen(ctx):
    for a in ctx.mine(range(256)):
        yield {"m": "two", "a": a}
    for s in ctx.seeds("rand", 400, 8000):
        yield {"m": "rand", "seed": s}
    for s in ctx.seeds("bits", 60, 2000):
        yield {"m": "bits", "seed": s}
    for n in ctx.mine((255, 256, 257, 1024, 4096, 65535)):
        yield {"m": "long", "n": n, "seed": ctx.seed}


def values(d):
    U = core.load_elgas()["utils"]
    return (U.calculate_lrc(d), U.calculate_checksum(d), U.calculate_drc(d), U.calculate_crc(d))


def check(obs, d):
    obs.eval()
    crc = ref.crc16(d) if len(d) < 300 else ref.crc16_fast(d)
    want = (ref.lrc(d), ref.checksum(d), ref.drc(d), (crc % 256) * 256 + crc // 256)
    for x in (bytearray(d), bytes(d)):
        got = values(x)
        if got != want:
            i = [a == b for a, b in zip(got, want)].index(False)
            obs.fail(f"{('LRC', 'CHECKSUM', 'DRC', 'CRC')[i]} of {core.short(d)} is {got[i]:#x}, definition gives {want[i]:#x}", "value")
    obs.count("strings")
    obs.seen(d)
    return want


def again(obs, d, rng):
    """One buffer which is changed between the calls."""
    b = bytearray(d)
    for _ in range(4):
        obs.eval()
        x = bytes(b)
        want = (ref.lrc(x), ref.checksum(x), ref.drc(x), ref.crc16(x) % 256 * 256 + ref.crc16(x) // 256)
        obs.equal(values(b), want, f"codes of the changed buffer {core.short(x)}", "value")
        obs.count("buffer-changes")
        if b and rng.random() < 0.7:
            b[rng.randrange(len(b))] ^= rng.randrange(1, 256)
        elif rng.random() < 0.5:
            b.append(rng.randrange(256))
        else:
            del b[-1:]


def run(case, obs):
    m = case["m"]
    if m == "two":
        check(obs, b"")
        check(obs, bytes((case["a"],)))
        for b in range(256):
            check(obs, bytes((case["a"], b)))
        return
    rng = random.Random(case["seed"])
    if m == "rand":
        d = device.rand_payload(rng, 0, rng.choice((4, 40, 400, 2000)))
        check(obs, d)
        again(obs, d[:200], rng)
        check(obs, bytes([rng.randrange(256)]) * rng.randrange(1, 600))
        obs.sample(d[:32], 2)
    elif m == "bits":
        d = bytearray(rng.randbytes(rng.randrange(1, 40)))
        before = check(obs, bytes(d))
        for i in range(len(d)):
            for bit in range(8):
                d[i] ^= 1 << bit
                after = check(obs, bytes(d))
                obs.expect(
                    after[0] != before[0] and after[1] != before[1] and after[2] != before[2] and after[3] != before[3],
                    "a single-bit change left a redundancy value unchanged", "independent-of-byte",
                )
                d[i] ^= 1 << bit
                obs.count("bit-changes")
    else:
        for d in (bytes(case["n"]), b"\xff" * case["n"], rng.randbytes(case["n"])):
            check(obs, d)
