"""C35 decoded objects are plain values."""
import copy
import pickle
import random

from rv import core, device, layouts, ref
from rv.props import c13, c21

ID = "C35"
SCALE = 12
RULE = (
    "Objects of every parameter type, every response kind, every frame kind and registration messages are decoded twice "
    "from the same bytes, from bytes that differ in exactly one field, and copied (copy, deepcopy, pickle of every "
    "protocol, into a list and back); equality, inequality, repr and the field values of the copies are compared with "
    "what the device sent, then one of two equal objects is modified and the other inspected.  Distinct = distinct "
    "(class, field changed, bytes)."
)
MIN = {"same-equal": 4000, "one-field-differs": 20000, "fields-covered": 400, "copies": 20000, "assigned": 4000, "not-shared": 60,
       "other-class": 3000, "responses": 800, "frames": 800, "registrations": 100, "buffers": 400}


def gen(ctx):
    for i, lay in enumerate(sorted(layouts.BY_CODE)):
        if i % ctx.nshards == ctx.shard and lay not in layouts.UNDECODABLE:
            for rep in range(3 if ctx.tier == "quick" else 60):
                yield {"m": "param", "code": lay, "seed": ctx.seed * 131 + 1000 * i + rep}
    for s in ctx.seeds("resp", 60, 1500):
        yield {"m": "response", "seed": s}
    for s in ctx.seeds("frame", 60, 1500):
        yield {"m": "frame", "seed": s}
    for s in ctx.seeds("call", 16, 400):
        yield {"m": "call", "seed": s}


def copies(obs, x, what, same):
    """Every usual way to copy; same(obj) lists differences to what was sent."""
    ways = [("copy", copy.copy), ("deepcopy", copy.deepcopy), ("deepcopy in a list", lambda o: copy.deepcopy([o, o])[1])]
    ways += [(f"pickle protocol {p}", lambda o, p=p: pickle.loads(pickle.dumps(o, p))) for p in range(2, pickle.HIGHEST_PROTOCOL + 1)]
    for name, way in ways:
        obs.eval()
        try:
            c = way(x)
        except (core.CaseTimeout, core.Violation):
            raise
        except Exception as e:
            obs.fail(f"{name} of {what} failed: {type(e).__name__}: {e}", "copy")
        obs.expect(type(c) is type(x) and c == x and not c != x, lambda: f"{name} of {what} is not equal to it: {c!r:.200}", "copy")
        d = same(c)
        obs.expect(not d, lambda: f"{name} of {what} has other values: {d[:3]}", "copy")
        obs.count("copies")


def pair(obs, make, what):
    """Two objects from the same bytes."""
    x, y = make(), make()
    obs.eval()
    obs.expect(x == y and not x != y, lambda: f"two {what} decoded from the same bytes are unequal", "equality")
    obs.expect(x is not y or not core.attributes(x), lambda: f"decoding {what} twice gives one object", "shared")
    obs.expect(repr(x) == repr(y), lambda: f"two equal {what} print differently", "equality")
    obs.expect(not x == None and x != {} and not x == repr(x), lambda: f"{what} equals something else", "equality")  # noqa: E711
    obs.count("same-equal")
    return x, y


def assign(obs, x, y, name, value, what):
    """Changing one object is seen by comparison and leaves the other alone."""
    old = getattr(y, name)
    if value == old:
        return
    z = copy.deepcopy(y)
    try:
        setattr(z, name, value)
    except AttributeError:
        obs.count("not-assignable")
        return
    obs.eval()
    obs.expect(z != x and not z == x, lambda: f"{what} with {name} set to {value!r:.80} still equals the one with {getattr(x, name)!r:.80}", "equality")
    obs.expect(getattr(x, name) == old and x == y, lambda: f"assigning {name} on a copy of {what} changed the original", "shared")
    obs.count("assigned")


def param_case(E, obs, rng, case):
    lay = layouts.BY_CODE[case["code"]]
    tail = bool(lay.tail) and rng.random() < 0.6
    raws = [(n, k, layouts.gen_field(rng, k)) for n, k in lay.fields + (lay.tail if tail else [])]

    def encode(parts):
        want = {}
        for n, k, r in parts:
            want.update(layouts.decode_field(n, k, r, lay.bits))
        if not tail:
            want.update({n: None for n, _ in lay.tail})
        return b"".join(r for _, _, r in parts), want

    data, want = encode(raws)
    if not c13.all_representable(want):
        return
    what = f"{lay.cls} objects"
    x, y = pair(obs, lambda: c13.decode(E, lay.code, data), what)
    copies(obs, x, what, lambda o: layouts.compare(o, lay, want))
    other = rng.choice([l for l in layouts.DECODABLE if l.cls != lay.cls])
    o = c13.decode(E, other.code, layouts.gen_record(rng, other)[0])
    obs.expect(x != o and not x == o, lambda: f"a {lay.cls} equals a {other.cls}", "equality")
    obs.count("other-class")
    for i, (n, k, r) in enumerate(raws):
        for _ in range(4):
            r2 = layouts.gen_field(rng, k) if rng.random() < 0.5 and k != "rows" else flip(rng, k, r)
            d2, w2 = encode(raws[:i] + [(n, k, r2)] + raws[i + 1:])
            if r2 == r or not c13.all_representable(w2) or w2 == want:
                continue
            z = c13.decode(E, lay.code, d2)
            obs.eval()
            changed = [f for f in want if w2[f] != want[f]]
            obs.expect(x != z and not x == z, lambda: f"two {what} which differ in {changed} compare as equal", "equality")
            obs.count("one-field-differs")
            obs.seen(lay.cls, n, r, r2)
            for f in changed:
                assign(obs, x, y, f, getattr(z, f), what)
        obs.count("fields-covered")
    # mutable parts belong to one object only
    for f, v in list(core.attributes(x).items()):
        w = getattr(y, f)
        before = repr(w)
        if isinstance(v, list):
            v.append("x")
        elif type(v).__module__.startswith("elgas"):
            for g in list(core.attributes(v)):
                setattr(v, g, -1.5)
        else:
            continue
        obs.expect(repr(getattr(y, f)) == before, lambda: f"two {what} share their {f}", "shared")
    d = layouts.compare(y, lay, want)
    obs.expect(not d, lambda: f"modifying one of two {what} changed the other: {d[:3]}", "shared")
    obs.count("not-shared")
    obs.sample({"class": lay.cls, "tail": tail}, 3)


def flip(rng, kind, raw):
    """The same field with one bit changed."""
    if kind == "rows":
        if len(raw) == 1:
            return b"\x01" + rng.randbytes(10)
        at = rng.randrange(1, len(raw))
    else:
        at = rng.randrange(len(raw))
    b = bytearray(raw)
    b[at] ^= 1 << rng.randrange(8)
    return bytes(b)


def response_case(E, obs, rng, case):
    for kind in device.KINDS:
        cls = getattr(E["application"], device.RESPONSE_CLASS[kind])
        data, want = device.gen_reply(rng, kind, rng.choice((40, 40, 1000)))
        x, y = pair(obs, lambda: cls.from_bytes(data), cls.__name__)
        copies(obs, x, cls.__name__, lambda o: device.diff_reply(o, kind, want))
        obs.count("responses")
        for _ in range(20):
            b = bytearray(data)
            if not b:
                break
            b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
            try:
                z = cls.from_bytes(bytes(b))
            except (core.CaseTimeout, core.Violation):
                raise
            except Exception:
                continue
            changed = [f for f in want if getattr(z, f) != getattr(x, f)]
            obs.eval()
            if changed:
                obs.expect(x != z and not x == z, lambda: f"two {cls.__name__} which differ in {changed} compare as equal", "equality")
                obs.count("one-field-differs")
                obs.seen(cls.__name__, changed[0], data, bytes(b))
                assign(obs, x, y, changed[0], getattr(z, changed[0]), cls.__name__)
        k2 = rng.choice([k for k in device.KINDS if k != kind])
        o = getattr(E["application"], device.RESPONSE_CLASS[k2]).from_bytes(device.gen_reply(rng, k2, 40)[0])
        obs.expect(x != o, lambda: f"a {cls.__name__} equals a {type(o).__name__}", "equality")
        obs.count("other-class")


def frame_case(E, obs, rng, case):
    for code, name in ((ref.REQ, "Request"), (ref.EREQ, "EncryptedRequest"), (ref.RESP, "Response"), (ref.ERESP, "EncryptedResponse")):
        cls = getattr(E["frames"], name)
        a = lambda: (rng.randrange(65536), rng.randrange(256))
        parts = [rng.choice(sorted(ref.SERVICE_CODES)), rng.randbytes(rng.choice((0, 1, 30))), a(), a()]
        wire = lambda p: ref.frame(code, *p)
        fields = lambda f: (int(f.service), bytes(f.data), (f.destination_address_1, f.destination_address_2), (f.source_address_1, f.source_address_2))
        raw = wire(parts)
        x, y = pair(obs, lambda: cls.from_bytes(raw), name)
        copies(obs, x, name, lambda o: [] if fields(o) == tuple(parts) and o.to_bytes() == raw else [fields(o)])
        obs.count("frames")
        # decoded from a buffer: what it holds can be changed, in one frame only
        x, y = pair(obs, lambda: cls.from_bytes(bytearray(raw)), name)
        z = cls.from_bytes(bytearray(raw))
        if isinstance(x.data, bytearray):
            x.data += b"changed"
            if len(x.data) > 7:
                x.data[0] ^= 0xFF
        z.data = b"replaced"
        obs.expect(fields(y) == tuple(parts) and y.to_bytes() == raw and cls.from_bytes(bytearray(raw)) == y,
                   lambda: f"two {name} frames share their data", "shared")
        obs.count("buffers")
        for i in range(4):
            p = list(parts)
            p[i] = (rng.choice(sorted(ref.SERVICE_CODES)), rng.randbytes(30), a(), a())[i]
            if i > 1:  # only one of both numbers
                p[i] = (p[i][0], parts[i][1]) if rng.random() < 0.5 else (parts[i][0], p[i][1])
            if p == parts:
                continue
            z = cls.from_bytes(wire(p))
            obs.eval()
            obs.expect(x != z and not x == z, lambda: f"two {name} frames which differ ({fields(x)}, {fields(z)}) compare as equal", "equality")
            obs.count("one-field-differs")
            obs.seen(name, i, raw)


def call_case(E, obs, rng, case):
    cls = E["application"].CallRequest
    msg = c21.message(rng, range(4))
    x, y = pair(obs, lambda: cls.from_bytes(msg), "CallRequest")
    copies(obs, x, "CallRequest", lambda o: [n for n, v in c21.fields_of(msg).items() if not (getattr(o, n) == v)])
    obs.count("registrations")
    pos = 0
    for n, k in c21.FIELDS:
        if n[0] != "-":
            raw = c21.gen_raw(rng, k, range(4))
            m2 = msg[:pos] + raw + msg[pos + len(raw):]
            if c21.fields_of(m2) != c21.fields_of(msg):
                z = cls.from_bytes(m2)
                obs.eval()
                obs.expect(x != z and not x == z, lambda: f"two CallRequest which differ in {n} compare as equal", "equality")
                obs.count("one-field-differs")
                obs.seen("CallRequest", n, m2)
                assign(obs, x, y, n, getattr(z, n), "CallRequest")
        pos += c21.size(k)


def run(case, obs):
    E = core.load_elgas()
    rng = random.Random(case["seed"])
    {"param": param_case, "response": response_case, "frame": frame_case, "call": call_case}[case["m"]](E, obs, rng, case)
