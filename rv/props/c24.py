"""C24 decoding is a pure function of its bytes."""
import random

from rv import core, device, layouts, ref
from rv.props import c21

ID = "C24"
SCALE = 16
RULE = (
    "Every decoder (un-escaping, frames, response data, encrypted payloads, registration messages, parameter streams, "
    "date/times, redundancy functions; valid and damaged input) runs several times on one bytearray, on an equal bytes "
    "object and, after the caller overwrote the buffer, the first value is compared with its snapshot; values delivered "
    "by connections are re-checked after the buffer is reused and the connection is used further.  Distinct = distinct "
    "(decoder, input)."
)
MIN = {"buffers-compared": 20000, "repeated": 9000, "bytes-vs-bytearray": 6000, "after-reuse": 3000, "held-by-connection": 800,
       "refused-consistently": 700, "decoders": 3000}

KINDS = ("return_characters", "escape_characters", "response-frame", "request-frame", "factory", "pdu", "decrypt", "call",
         "params", "time", "sums", "request-escape")


def gen(ctx):
    for s in ctx.seeds("pure", 3600, 80000):
        yield {"m": "pure", "kind": KINDS[s % len(KINDS)], "seed": s}
    for s in ctx.seeds("conn", 240, 4000):
        yield {"m": "conn", "seed": s}


def snap(x, depth=0):
    """Deep value of a decoded object: types, fields and bytes."""
    if isinstance(x, (bytes, bytearray)):
        return ("bytes", bytes(x))  # bytes and bytearray are the same value
    if isinstance(x, (list, tuple)):
        return [type(x).__name__] + [snap(v, depth + 1) for v in x]
    if isinstance(x, dict):
        return sorted((repr(k), snap(v, depth + 1)) for k, v in x.items())
    if x is None or isinstance(x, (int, float, str, bool)):
        return (type(x).__name__, repr(x))
    d = {} if isinstance(x, type) or type(x).__module__.split(".")[0] != "elgas" else core.attributes(x)
    if d and depth < 6:
        return [type(x).__name__] + [(k, snap(v, depth + 1)) for k, v in sorted(d.items()) if k[:1] != "_"]
    return repr(x)


def make(E, rng, kind):
    """(decoder, input bytes)."""
    c = device.rand_config(rng, encrypted=False)
    damaged = rng.random() < 0.25
    U, F, A = E["utils"], E["frames"], E["application"]

    def hurt(b):
        if not damaged or len(b) < 2:
            return b
        i = rng.randrange(len(b))
        return rng.choice((b[:i], b[:i] + bytes((b[i] ^ (1 << rng.randrange(8)),)) + b[i + 1:]))

    frame_kind = rng.choice((ref.RESP, ref.ERESP))
    rk = rng.choice(device.KINDS)
    data, _ = device.gen_reply(rng, rk, rng.choice((20, 300)))
    service = ref.KIND_SERVICE[rk]
    if kind == "return_characters":
        return U.return_characters, hurt(ref.wire(frame_kind, service, data, c["dst"], c["src"]))
    if kind == "escape_characters":
        return U.escape_characters, hurt(ref.frame(frame_kind, service, data, c["dst"], c["src"]))
    if kind == "response-frame":
        cls = F.Response if frame_kind == ref.RESP else F.EncryptedResponse
        return cls.from_bytes, hurt(ref.frame(frame_kind, service, data, c["dst"], c["src"]))
    if kind == "request-frame":
        k = rng.choice((ref.REQ, ref.EREQ))
        cls = F.Request if k == ref.REQ else F.EncryptedRequest
        return cls.from_bytes, hurt(ref.frame(k, service, data, c["dst"], c["src"]))
    if kind == "factory":
        return F.ResponseFactory.from_bytes, hurt(ref.frame(frame_kind, service, data, c["dst"], c["src"]))
    if kind == "pdu":
        return getattr(A, device.RESPONSE_CLASS[rk]).from_bytes, hurt(data)
    if kind == "decrypt":
        key, kid = rng.randbytes(16), rng.randrange(1, 8)
        x = E["security"].CipherContext(key_id=device.key_id(E, kid), key=key)
        return x.decrypt, hurt(ref.encrypt(key, kid, data, rng))
    if kind == "call":
        return A.CallRequest.from_bytes, hurt(c21.message(rng, range(4)))
    if kind == "params":
        objs = device.gen_objects(rng, rng.choice((1, 2, 6)))
        b = hurt(b"".join(layouts.envelope(l.code, d) for l, d, _ in objs))
        x = rng.random()
        if x < 0.4:
            return E["parser"].ScadaParameterParser().parse, b
        if x < 0.7:  # one parser object for the same bytes, again and again
            held = {}

            def again(x):
                if id(x) not in held:
                    held[id(x)] = (x, E["parser"].ScadaParameterParser(data=x))
                return held[id(x)][1].parse()

            return again, b
        return (lambda x: E["parser"].ScadaParameterParser(data=x).parse()), b
    if kind == "time":
        return U.bytes_to_datetime, hurt(ref.time_bytes(device.rand_time(rng), rng.random() < 0.5, rng.random() < 0.5))
    if kind == "request-escape":
        return (lambda x: F.Request.from_bytes(U.return_characters(x))), hurt(ref.wire(ref.REQ, service, data, c["dst"], c["src"]))
    sums = (U.calculate_lrc, U.calculate_checksum, U.calculate_drc, U.calculate_crc)
    return (lambda x: [f(x) for f in sums]), data


def outcome(fn, x):
    try:
        return "value", fn(x)
    except (core.Violation, core.CaseTimeout):
        raise
    except Exception as e:
        return "error", type(e).__name__


def run(case, obs):
    E = core.load_elgas()
    rng = random.Random(case["seed"])
    if case["m"] == "conn":
        return connection(E, obs, rng)
    kind = case["kind"]
    fn, data = make(E, rng, kind)
    original = bytes(data)
    obs.count("decoders")
    obs.seen(kind, original)
    buf = bytearray(original)
    got = outcome(fn, buf)
    first = (got[0], snap(got[1]))
    obs.eval()
    obs.count("buffers-compared")
    obs.expect(buf == original, lambda: f"{kind} changed its input of {len(original)} bytes: {core.short(original)} became {core.short(bytes(buf))}", "input-changed")
    for i in range(3):
        again = outcome(fn, buf)
        obs.expect((again[0], snap(again[1])) == first,
                   lambda: f"{kind} on the same bytearray gives {snap(again[1])!r:.300} the {i + 2}. time, first {first[1]!r:.300}; input {core.short(original)}", "not-repeatable")
        obs.expect(buf == original, f"{kind} changed its input when repeated", "input-changed")
        obs.count("repeated")
        obs.count("buffers-compared", 2)
    b = outcome(fn, original)
    obs.expect((b[0], snap(b[1])) == first,
               lambda: f"{kind} gives {b[0]} {snap(b[1])!r:.300} for bytes and {first[0]} {first[1]!r:.300} for bytearray {core.short(original)}", "bytes-differ")
    obs.count("bytes-vs-bytearray", 2)
    if first[0] == "error":
        obs.count("refused-consistently", 2)
    # a second, different input must not change what was delivered for the first
    other = bytes(rng.randrange(256) for _ in range(len(original)))
    outcome(fn, bytearray(other))
    for i in range(len(buf)):
        buf[i] = other[i] ^ 0x5A
    del buf[len(buf) // 2:]
    obs.expect((got[0], snap(got[1])) == first, lambda: f"a value decoded by {kind} changed when its input buffer was reused", "aliased")
    obs.expect((b[0], snap(b[1])) == first, lambda: f"a value decoded by {kind} changed when something else was decoded", "aliased")
    obs.count("after-reuse", 2)
    obs.sample({"decoder": kind, "input": original[:40]}, 3)


def connection(E, obs, rng):
    c = device.rand_config(rng)
    conn = device.make_connection(E, c)
    held = []
    recv = bytearray(4096)  # the caller's one receive buffer
    for _ in range(rng.randrange(4, 10)):
        kind = rng.choice(device.KINDS)
        args = device.gen_request(rng, kind, c["password"])
        req = device.make_request(E, kind, args)
        before = snap(req)
        conn.send(req)
        obs.eval()
        obs.expect(snap(req) == before, f"sending changed the {kind} request object", "input-changed")
        data, want = device.gen_reply(rng, kind, 60)
        for p in device.split(rng, device.reply_wire(c, ref.KIND_SERVICE[kind], data, rng)):
            recv[: len(p)] = p
            piece = recv[: len(p)]  # a bytearray the caller keeps on using
            conn.receive_data(piece)
            obs.expect(piece == p, "receive_data changed the caller's buffer", "input-changed")
            obs.count("buffers-compared")
            for i in range(len(piece)):
                piece[i] = 0x0D
        ev = conn.next_event()
        d = device.diff_reply(ev, kind, want)
        obs.expect(not d, lambda: f"{kind} reply received through a reused buffer: {d}", "aliased")
        held.append((ev, snap(ev), kind))
        for e, s, k in held:
            obs.expect(snap(e) == s, lambda: f"a delivered {k} response changed when the connection was used further", "aliased")
            obs.count("held-by-connection")
    obs.seen("conn", [k for _, _, k in held])
