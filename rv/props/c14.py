"""C14 splitting a parameter stream into records."""
import random
import struct

from rv import core, layouts

ID = "C14"
SCALE = 16
RULE = (
    "Streams of 1..400 records of mixed types are parsed and compared with the reference values and with parsing each "
    "record alone; streams are cut at every byte, given impossible lengths, records too short for their type, unknown types, bytes behind the last record and bad records.  Distinct "
    "= distinct streams."
)
MIN = {"streams": 200, "records": 6000, "truncations-refused": 4000, "cut-at-boundary": 80, "bad-length-refused": 400,
       "unknown-type-refused": 400, "bad-record": 150, "long-streams": 6, "differential": 280, "equal-neighbours": 200,
       "late-damage": 150, "padding-refused": 800, "short-refused": 3000}


def gen(ctx):
    for s in ctx.seeds("ok", 200, 5000):
        yield {"m": "ok", "seed": s}
    for s in ctx.seeds("long", 8, 100):
        yield {"m": "ok", "seed": s, "n": 400}
    for s in ctx.seeds("huge", 1, 60):
        yield {"m": "ok", "seed": s, "n": (1100, 2100, 4200)[s % 3]}
    for s in ctx.seeds("late", 16, 400):
        yield {"m": "late", "seed": s}
    for s in ctx.seeds("cut", 48, 1200):
        yield {"m": "cut", "seed": s}
    for s in ctx.seeds("short", 16, 400):
        yield {"m": "short", "seed": s}
    for s in ctx.seeds("len", 64, 1500):
        yield {"m": "length", "seed": s}
    for s in ctx.seeds("unk", 64, 1500):
        yield {"m": "unknown", "seed": s}
    for s in ctx.seeds("bad", 160, 4000):
        yield {"m": "bad", "seed": s}


def records(rng, n, small=False):
    pool = layouts.DECODABLE if not small else [l for l in layouts.DECODABLE if l.code not in (0, 141)]
    if rng.random() < 0.3:
        pool = rng.sample(pool, 2)
    out = []
    for _ in range(n):
        if out and rng.random() < 0.15:  # equal records, next to each other or apart
            out.append(out[-1] if rng.random() < 0.5 else rng.choice(out))
            continue
        lay = rng.choice(pool)
        data, want = layouts.gen_record(rng, lay)
        out.append((lay, data, want))
    return out


def stream_of(recs):
    return b"".join(layouts.envelope(lay.code, data) for lay, data, _ in recs)


def parse(E, s, rng=None):
    P = E["parser"].ScadaParameterParser
    if rng is not None and rng.random() < 0.3:
        return P(s).parse()
    return P().parse(s)


def must_refuse(E, obs, s, what, key):
    obs.eval()
    try:
        got = parse(E, s)
    except Exception:
        obs.seen(s)
        return
    obs.fail(f"{what} was accepted as {len(got)} object(s): {core.short(s)}", key)


def compare(obs, recs, got, s):
    obs.equal(len(got), len(recs), f"objects parsed from a stream of {len(recs)} records", "count")
    for i, ((lay, data, want), obj) in enumerate(zip(recs, got)):
        d = layouts.compare(obj, lay, want)
        obs.expect(not d, lambda: f"record {i} of {len(recs)} (type {lay.code}): {d[:3]}; stream {core.short(s)}", "content")


def run(case, obs):
    E = core.load_elgas()
    rng = random.Random(case["seed"])
    m = case["m"]
    if m == "ok":
        n = case.get("n") or rng.choice((1, 2, 3, 10, 40, 90))
        recs = records(rng, n)
        s = stream_of(recs)
        obs.eval()
        got = parse(E, rng.choice((bytes, bytearray))(s), rng)
        compare(obs, recs, got, s)
        obs.count("streams")
        obs.count("records", n)
        obs.count("equal-neighbours", sum(a[1] == b[1] for a, b in zip(recs, recs[1:])))
        if n > 255:
            obs.count("long-streams")
        obs.seen(s)
        obs.sample({"types": [l.code for l, _, _ in recs][:10], "bytes": len(s)}, 3)
    elif m == "cut":
        recs = records(rng, rng.choice((1, 2, 3, 4)), small=rng.random() < 0.8)
        s = stream_of(recs)
        bounds, pos = {}, 0
        for i, (lay, data, _) in enumerate(recs):
            pos += 3 + len(data)
            bounds[pos] = i + 1
        for n in range(1, len(s)):
            if n in bounds:
                obs.eval()
                got = parse(E, s[:n])
                compare(obs, recs[: bounds[n]], got, s[:n])
                obs.count("cut-at-boundary")
            else:
                must_refuse(E, obs, s[:n], f"a stream of {len(recs)} records cut to {n} of {len(s)} bytes (type {recs[0][0].code}...)", "truncated-accepted")
                obs.count("truncations-refused")
        # for one record the end of the stream is the only boundary
        obs.count("cut-at-boundary", 1)
    elif m == "short":
        # records whose length agrees with their bytes, which are too few for the fields of their type
        recs = records(rng, rng.choice((0, 1, 2)), small=True)
        for lay in rng.sample(layouts.DECODABLE, 6):
            for tail in (True, False) if lay.tail else (False,):
                data, _ = layouts.gen_record(rng, lay, tail=tail)
                ends = {len(data)}
                if tail:
                    ends.add(len(data) - sum(len(layouts.gen_field(rng, kind)) for _, kind in lay.tail))
                lengths = range(len(data)) if len(data) < 200 else sorted({*range(12), *range(len(data) - 60, len(data)), *rng.sample(range(len(data)), 40)})
                for n in lengths:
                    if n in ends:
                        continue
                    must_refuse(E, obs, stream_of(recs) + layouts.envelope(lay.code, data[:n]), f"a type {lay.code} record of {n} bytes instead of {len(data)}", "short-record-accepted")
                    obs.count("short-refused")
    elif m == "late":
        # the last of many records is damaged
        recs = records(rng, rng.choice((30, 99, 100, 101, 130, 255, 256, 257, 300)), small=True)
        with_tail = [l for l in layouts.DECODABLE if l.tail]
        lay = rng.choice(with_tail)
        data, _ = layouts.gen_record(rng, lay, tail=True)
        tail = sum(len(layouts.gen_field(rng, kind)) for _, kind in lay.tail)  # fixed-size fields all
        s = stream_of(recs) + layouts.envelope(lay.code, data)
        for n in {1, 2, len(data), rng.randrange(1, len(data) + 3), tail}:
            must_refuse(E, obs, s[: len(s) - n], f"a stream of {len(recs) + 1} records lacking its last {n} bytes (type {lay.code})", "truncated-accepted")
            obs.count("truncations-refused")
            obs.count("late-damage")
        for ln in (0, 1, 2, len(data) + 4, 0xFFFF):
            must_refuse(E, obs, stream_of(recs) + struct.pack("<HB", ln, lay.code) + data, f"a record length of {ln} after {len(recs)} records", "bad-length-accepted")
            obs.count("bad-length-refused")
    elif m == "length":
        recs = records(rng, rng.choice((1, 2, 3)), small=True)
        s = stream_of(recs)
        starts, pos = [], 0
        for _, data, _ in recs:
            starts.append(pos)
            pos += 3 + len(data)
        at = rng.choice(starts)
        remaining = len(s) - at
        for ln in (0, 1, 2, remaining + 1, remaining + 2, remaining + 255, 0xFFFF, 0x8000 + remaining):
            if ln > 0xFFFF:
                continue
            bad = s[:at] + struct.pack("<H", ln) + s[at + 2:]
            must_refuse(E, obs, bad, f"a record length of {ln} with {remaining} bytes left", "bad-length-accepted")
            obs.count("bad-length-refused")
        # bytes behind the last record, zeros too, are a record that makes no sense
        for n in range(1, 9):
            for fill in (b"\0" * n, b"\xff" * n):
                must_refuse(E, obs, s + fill, f"a stream of {len(recs)} records followed by {fill.hex()}", "padding-accepted")
                obs.count("padding-refused")
        # nothing but a header that declares an impossible length
        for ln in (0, 1, 2, 4, 200):
            must_refuse(E, obs, struct.pack("<HB", ln, recs[0][0].code), f"a lone header of length {ln}", "bad-length-accepted")
            obs.count("bad-length-refused")
    elif m == "unknown":
        known = set(layouts.BY_CODE)
        declared = {int(t) for t in E["parameters.enumerations"].ParameterObjectType}
        codes = [x for x in range(256) if x not in known and x not in declared]
        recs = records(rng, rng.choice((1, 2, 3)), small=True)
        for code in rng.sample(codes, 8):
            i = rng.randrange(len(recs) + 1)
            data = recs[0][1] if rng.random() < 0.5 else rng.randbytes(rng.randrange(0, 60))
            s = stream_of(recs[:i]) + layouts.envelope(code, data) + stream_of(recs[i:])
            must_refuse(E, obs, s, f"a stream with a record of unknown type {code} at position {i}", "unknown-accepted")
            obs.count("unknown-type-refused")
    else:
        # any mixture of good and damaged records behaves like its records one by one
        parts = []
        for lay, data, _ in records(rng, rng.choice((1, 2, 3, 5)), small=True):
            if rng.random() < 0.4:
                k = rng.randrange(4)
                if k == 0:
                    data = data[: rng.randrange(len(data))]
                elif k == 1:
                    data = data + rng.randbytes(rng.randrange(1, 6))
                elif k == 2:
                    data = b""
                else:
                    data = rng.randbytes(len(data))
                obs.count("bad-record")
            parts.append(layouts.envelope(lay.code, data))
        alone = []
        for p in parts:
            try:
                one = parse(E, p)
            except Exception:
                alone = None
                break
            obs.equal(len(one), 1, f"objects parsed from the single record {p.hex()}", "count")
            alone.append(one[0])
        s = b"".join(parts)
        obs.eval()
        obs.count("differential")
        try:
            got = parse(E, s)
        except Exception as e:
            obs.expect(alone is None, lambda: f"records parse alone but together raise {type(e).__name__}: {e}; stream {core.short(s)}", "depends-on-neighbour")
            obs.count("differential")
            return
        obs.expect(alone is not None, lambda: f"a record is refused alone but its stream gave {len(got)} objects: {core.short(s)}", "depends-on-neighbour")
        obs.equal(len(got), len(alone), "objects of the stream and of its records alone", "count")
        for a, b in zip(alone, got):
            obs.expect(repr(a) == repr(b), lambda: f"alone {a!r:.300}, in the stream {b!r:.300}", "depends-on-neighbour")
        obs.seen(s)
        obs.count("differential")
