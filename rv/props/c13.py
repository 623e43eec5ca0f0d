"""C13 parameter object decoding."""
import random

from rv import core, layouts

ID = "C13"
SCALE = 8
RULE = (
    "For every parameter object type an independent layout table encodes records with random, boundary and special "
    "field values (with and without the optional tail) and, on a zero and an all-ones record, toggles every single "
    "bit; the decoded object must equal the table's values in every field.  Distinct = distinct record byte strings."
)
MIN = {"decoded": 8000, "bit-toggled": 20000, "tail-present": 1500, "tail-absent": 1500, "undecodable-tried": 2, "types-declared": 36}


def gen(ctx):
    for i, code in enumerate(sorted(layouts.BY_CODE)):
        for part in range(8):
            if (i + part) % ctx.nshards == ctx.shard:
                yield {"m": "bits", "code": code, "part": part, "seed": ctx.seed}
    for s in ctx.seeds("rec", 1200, 30000):
        yield {"m": "rec", "seed": s}
    if ctx.shard == 0:
        yield {"m": "declared"}
        for code in layouts.UNDECODABLE:
            for tail in (False, True):
                yield {"m": "alarm", "code": code, "tail": tail, "seed": ctx.seed}


def decode(E, code, data):
    t = E["parameters.enumerations"].ParameterObjectType(code)
    return E["parameters.factory"].ParameterFactory.from_bytes(t, data)


def judge(E, obs, lay, data, want, via_stream):
    obs.eval()
    try:
        if via_stream:
            objs = E["parser"].ScadaParameterParser().parse(layouts.envelope(lay.code, data))
            obs.equal(len(objs), 1, f"objects in a stream of one {lay.cls} record", "count")
            obj = objs[0]
        else:
            obj = decode(E, lay.code, data)
    except core.Violation:
        raise
    except Exception as e:
        key = "undecodable"
        if lay.code in layouts.UNDECODABLE and isinstance(e, TypeError) and "error_bit_order" in str(e):
            key = f"undecodable-{lay.cls}"
        obs.fail(f"{lay.cls} record (type {lay.code}) is not decodable: {type(e).__name__}: {e}; data {core.short(data)}", key)
    d = layouts.compare(obj, lay, want)
    obs.expect(not d, lambda: f"type {lay.code}: {d[:4]}; data {core.short(data)}", "field")
    obs.equal(int(obj.object_type), lay.code, f"object_type of a decoded {lay.cls}", "object-type")
    obs.count("decoded")


def split_fields(lay, data, want_tail):
    """Re-derive expected values from raw bytes by walking the layout."""
    want, pos = {}, 0
    for name, kind in lay.fields + (lay.tail if want_tail else []):
        n = size(kind, data, pos)
        want.update(layouts.decode_field(name, kind, data[pos:pos + n], lay.bits))
        pos += n
    if not want_tail:
        want.update({n: None for n, _ in lay.tail})
    return want, pos


def size(kind, data, pos):
    if kind in ("bits", "access"):
        return 1
    if kind in ("f4", "f4r", "ip"):
        return 4
    if kind == "f8":
        return 8
    if kind == "gas":
        return 92
    if kind == "rows":
        return 1 + 10 * data[pos]
    return int(kind[1:])


def total(lay, tail):
    return sum(size(k, b"\0" * 4096, 0) for _, k in lay.fields + (lay.tail if tail else []))


def run(case, obs):
    E = core.load_elgas()
    m = case["m"]
    if m == "declared":
        known = {int(t) for t in E["parameters.enumerations"].ParameterObjectType}
        F = E["parameters.factory"]
        for code in known:
            t = E["parameters.enumerations"].ParameterObjectType(code)
            obs.eval()
            obs.expect(t in F.ParameterFactory.object_map or code in layouts.BY_CODE, lambda: f"declared type {t!r} has no decoder", "undecodable")
            obs.count("types-declared")
        missing = set(layouts.BY_CODE) - known
        obs.expect(not missing, lambda: f"object types {sorted(missing)} are no longer known", "undecodable")
        return
    rng = random.Random(case["seed"])
    if m == "alarm":
        lay = layouts.BY_CODE[case["code"]]
        obs.count("undecodable-tried")
        data, want = layouts.gen_record(rng, lay, tail=case["tail"])
        judge(E, obs, lay, data, want, False)
    elif m == "rec":
        for lay in layouts.DECODABLE:
            tail = rng.random() < 0.5
            data, want = layouts.gen_record(rng, lay, tail=tail, finite=rng.random() < 0.8)
            if not all_representable(want):
                continue
            judge(E, obs, lay, rng.choice((bytes, bytearray))(data), want, rng.random() < 0.4)
            if lay.tail:
                obs.count("tail-present" if tail else "tail-absent")
            obs.seen(data)
    else:
        code = case["code"]
        if code in layouts.UNDECODABLE:
            return
        lay = layouts.BY_CODE[code]
        full = bool(lay.tail)
        n = total(lay, full)
        for fill in (0, 0xFF):
            base = bytearray(bytes((fill,)) * n)
            rows_at = None
            pos = 0
            for name, kind in lay.fields:
                if kind == "rows":
                    rows_at = pos
                if kind in ("f4", "f4r", "f8", "gas") and fill:
                    k = size(kind, base, pos)
                    base[pos:pos + k] = bytes(k)  # all ones is not a number
                pos += size(kind, b"\0" * 4096, 0)
            if rows_at is not None:
                base[rows_at] = 0
            for byte in range(case["part"], n, 8):
                if byte == rows_at:
                    continue
                for bit in range(8):
                    x = bytearray(base)
                    x[byte] ^= 1 << bit
                    want, used = split_fields(lay, bytes(x), full)
                    if not all_representable(want):
                        continue
                    judge(E, obs, lay, bytes(x), want, False)
                    obs.count("bit-toggled")
                    obs.seen(bytes((code,)) + bytes(x))
        obs.sample({"type": lay.cls, "bytes": n}, 3)


def all_representable(want):
    """NaN never equals itself; records with NaN are left out of equality checks."""
    import math

    for v in want.values():
        if isinstance(v, dict):
            if any(math.isnan(x) for x in v.values()):
                return False
        elif isinstance(v, float) and (math.isnan(v)):
            return False
    return True
