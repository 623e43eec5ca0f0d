"""C10 BCD date and time."""
import datetime
import random

from rv import core, ref

ID = "C10"
RULE = (
    "All 36525 dates of 2000-2099 at several times of day and all 86400 times of day on several dates are encoded and "
    "decoded (with every DST flag combination); all 256 values of each byte and of byte pairs, and random six-byte "
    "strings, are decoded and compared with an independent calendar; other lengths and other years must be refused. "
    "Distinct = distinct byte strings judged."
)
MIN = {"dates-round-trip": 36525, "times-round-trip": 86400, "decoded-valid": 50000, "decoded-refused": 30000,
       "flags": 40000, "year-refused": 200, "length-refused": 500}
DAY0 = datetime.date(2000, 1, 1)


def gen(ctx):
    for lo in range(0, 36525, 500):
        if lo // 500 % ctx.nshards == ctx.shard:
            yield {"m": "days", "lo": lo, "seed": ctx.seed * 31 + lo, "per": 10 if ctx.thorough else 2}
    for h in range(24):
        if h % ctx.nshards == ctx.shard:
            yield {"m": "times", "hour": h, "seed": ctx.seed * 37 + h, "per": 6 if ctx.thorough else 1}
    for s in ctx.seeds("bytes", 64, 2000):
        yield {"m": "bytes", "seed": s}
    for i in range(16):
        if i % ctx.nshards == ctx.shard:
            yield {"m": "refuse", "seed": ctx.seed * 41 + i}
    if ctx.thorough:
        for d in range(256):
            if d % ctx.nshards == ctx.shard:
                yield {"m": "day-month-year", "day": d}
    else:
        for d in (0, 1, 0x28, 0x29, 0x30, 0x31, 0x32, 0x3A):
            if d % ctx.nshards == ctx.shard or d in (0x29, 0x30) and (d + 3) % ctx.nshards == ctx.shard:
                yield {"m": "day-month-year", "day": d, "years": [0, 1, 4, 0x10, 0x21, 0x24, 0x96, 0x99, 0xA0, 0x9A]}


def check_decode(U, obs, b):
    want = ref.parse_time(b)
    obs.eval()
    try:
        got = U.bytes_to_datetime(b)
    except ValueError:
        obs.expect(want is None, lambda: f"{bytes(b).hex()} refused, it is {want}", "refused-valid")
        obs.count("decoded-refused")
    except Exception as e:
        obs.fail(f"decoding {bytes(b).hex()} raised {type(e).__name__}: {e}, not ValueError", "wrong-exception")
    else:
        obs.expect(want is not None, lambda: f"{bytes(b).hex()} is no BCD date but decoded to {got}", "accepted-invalid")
        obs.expect(got[0].fold == 0 and got[0].tzinfo is None, lambda: f"{bytes(b).hex()} decoded to {got[0]!r}, which carries a zone or fold", "wrong-value")
        obs.expect(tuple(got) == want, lambda: f"{bytes(b).hex()} decoded to {got}, expected {want}", "wrong-value")
        obs.count("decoded-valid")


def check_encode(U, obs, t, flags):
    obs.eval()
    b = U.datetime_to_bytes(t)
    want = ref.time_bytes(t)
    if bytes(b) != want:
        obs.fail(f"{t.isoformat()} encoded as {bytes(b).hex()}, expected {want.hex()}", "encode")
    for dst, sup in flags:
        w = ref.time_bytes(t, dst, sup)
        try:
            got = U.bytes_to_datetime(w)
        except Exception as e:
            obs.fail(f"decoding {w.hex()} ({t.isoformat()}, dst {dst}, supports {sup}) raised {type(e).__name__}: {e}", "refused-valid")
        if tuple(got) != (t, dst, sup) or got[0].fold:
            obs.fail(f"{w.hex()} decoded to {got}, expected {(t, dst, sup)}", "wrong-value")
        obs.count("flags")


ALL_FLAGS = ((False, False), (True, False), (False, True), (True, True))


def run(case, obs):
    U = core.load_elgas()["utils"]
    rng = random.Random(case.get("seed", 0))
    m = case["m"]
    if m == "days":
        for i in range(case["lo"], min(36525, case["lo"] + 500)):
            d = DAY0 + datetime.timedelta(days=i)
            for k in range(case["per"]):
                t = datetime.datetime.combine(d, datetime.time(rng.randrange(24), rng.randrange(60), rng.randrange(60)))
                check_encode(U, obs, t, (ALL_FLAGS[(i + k) % 4],))
            obs.count("dates-round-trip")
            obs.seen("d", i)
    elif m == "times":
        h = case["hour"]
        for k in range(case["per"]):
            d = DAY0 + datetime.timedelta(days=rng.randrange(36525))
            for s in range(3600):
                t = datetime.datetime(d.year, d.month, d.day, h, s // 60, s % 60)
                check_encode(U, obs, t, (ALL_FLAGS[s % 4],))
                if k == 0:
                    obs.count("times-round-trip")
                    obs.seen("t", h, s)
    elif m == "bytes":
        for _ in range(30):
            t = datetime.datetime(2000, 1, 1) + datetime.timedelta(seconds=rng.randrange(36525 * 86400))
            base = bytearray(ref.time_bytes(t, rng.random() < 0.5, rng.random() < 0.5))
            pos = rng.randrange(6)
            for v in range(256):  # one byte takes every value
                x = bytearray(base)
                x[pos] = v
                check_decode(U, obs, rng.choice((bytes, bytearray))(x))
                obs.seen(bytes(x))
        for _ in range(200):
            x = rng.randbytes(6)
            check_decode(U, obs, x)
            obs.seen(x)
    elif m == "day-month-year":
        for mo in range(256):
            for y in case.get("years") or range(256):
                x = bytes((0x59, 0x59, 0x23, case["day"], mo, y))
                check_decode(U, obs, x)
            obs.seen("dmy", case["day"], mo)
    else:
        for n in list(range(0, 6)) + list(range(7, 20)):
            for _ in range(4):
                x = (ref.time_bytes(datetime.datetime(2024, 2, 29, 12, 0, 0)) * 4)[:n] if rng.random() < 0.5 else rng.randbytes(n)
                obs.eval()
                try:
                    got = U.bytes_to_datetime(x)
                except ValueError:
                    obs.count("length-refused")
                except Exception as e:
                    obs.fail(f"{n} bytes {x.hex()} raised {type(e).__name__}, not ValueError", "wrong-exception")
                else:
                    obs.fail(f"{n} bytes {x.hex()} decoded to {got}", "accepted-invalid")
        for y in [1, 999, 1899, 1970, 1990, 1999, 2100, 2101, 2199, 2200, 3000, 9999] + [rng.choice((rng.randrange(1, 2000), rng.randrange(2100, 10000))) for _ in range(20)]:
            t = datetime.datetime(y, rng.randrange(1, 13), rng.randrange(1, 29), rng.randrange(24), rng.randrange(60), rng.randrange(60))
            obs.eval()
            obs.seen("y", y)
            try:
                b = U.datetime_to_bytes(t)
            except ValueError:
                obs.count("year-refused")
            except Exception as e:
                obs.fail(f"encoding {t.isoformat()} raised {type(e).__name__}: {e}, not ValueError", "wrong-exception")
            else:
                obs.fail(f"{t.isoformat()} cannot be encoded in two year digits but gave {bytes(b).hex()}", "accepted-invalid")
        obs.sample({"years": "outside 2000-2099 refused"}, 1)
