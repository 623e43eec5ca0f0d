"""C09 tampered or wrongly keyed encrypted payloads."""
import random
import struct

from rv import core, device, ref

ID = "C09"
SCALE = 12
RULE = (
    "An encrypted payload is tampered with (every bit, truncation at every byte, extension, block moves, length and "
    "key-id changes, foreign keys, wrong or differently computed CRCs re-encrypted with the right key) and given to "
    "the cipher and, inside a valid outer frame, to a connection; acceptance must equal the reference rule.  "
    "Distinct = distinct tampered payloads the reference refuses."
)
MIN = {"refused": 15000, "accepted": 150, "conn-refused": 1500, "conn-recovered": 1500, "forged-crc": 500,
       "foreign-key": 200, "key-id": 400, "truncated": 1000, "no-cipher-refused": 60, "length-field": 400}


def gen(ctx):
    for s in ctx.seeds("tamper", 160, 4000):
        yield {"m": "direct", "seed": s}
    for s in ctx.seeds("conn", 240, 5000):
        yield {"m": "conn", "seed": s}


def forged(rng, key, kid, data):
    """Payloads made with the right key but a CRC computed some other way."""
    head = struct.pack("<HB", len(data), kid)
    pad = -(len(data) + 2) % 16
    body = data + bytes(rng.randrange(126) for _ in range(pad))
    alt = {
        "crc-swapped": ref.crc_wire(head + body)[::-1],
        "crc-of-body": ref.crc_wire(body),
        "crc-of-data": ref.crc_wire(head + data) if pad else bytes(2),
        "crc-zero": b"\0\0",
        "crc-ones": b"\xff\xff",
        "crc-low-only": bytes((ref.crc_wire(head + body)[0], ref.crc_wire(head + body)[1] ^ 0x40)),
        "crc-high-only": bytes((ref.crc_wire(head + body)[0] ^ 1, ref.crc_wire(head + body)[1])),
        "crc-no-id": ref.crc_wire(head[:2] + body),
        "crc-no-length": ref.crc_wire(head[2:] + body),
        "crc-other-id": ref.crc_wire(struct.pack("<HB", len(data), kid % 7 + 1) + body),
    }
    for name, crc in alt.items():
        yield name, head + ref.aes_cbc(key, body + crc)


def tampered(rng, key, kid, data, full):
    good = ref.encrypt(key, kid, data, rng)
    yield "good", good
    bits = range(len(good) * 8)
    for b in bits if full else rng.sample(bits, 12):
        x = bytearray(good)
        x[b // 8] ^= 1 << (b % 8)
        yield ("length-field" if b < 16 else "key-id" if b < 24 else "bit"), bytes(x)
    cuts = range(len(good))
    for n in cuts if full else rng.sample(cuts, 3):
        yield "truncated", good[:n]
    for k in (1, 2, 15, 16, 17, 32):
        yield "extended", good + rng.randbytes(k)
    yield "extended", good + good[3:]
    blocks = [good[i:i + 16] for i in range(3, len(good), 16)]
    if len(blocks) > 1:
        i = rng.randrange(len(blocks) - 1)
        sw = list(blocks)
        sw[i], sw[i + 1] = sw[i + 1], sw[i]
        yield "blocks", good[:3] + b"".join(sw)
        yield "blocks", good[:3] + b"".join(blocks[1:])
        yield "blocks", good[:3] + b"".join(blocks[:-1])
        yield "blocks", good[:3] + b"".join(blocks[:1] + blocks)
    for k in (0, 1, 2, 3, 4, 5, 6, 7, 8, 255, kid + 16, kid + 128):
        if k != kid and k < 256:
            yield "key-id", good[:2] + bytes((k,)) + good[3:]
    for k in (1, 2, 3, 4, 5, 6, 7):
        if k != kid:
            yield "key-id", ref.encrypt(key, k, data, rng)
    others = [k for k in range(256) if k != kid]
    for k in others if full else rng.sample(others, 3):
        yield "key-id", ref.encrypt(key, k, data[:20], rng)
    for d in (-1, 1, -16, 16, 256):
        n = len(data) + d
        if 0 <= n < 65536:
            yield "length-field", struct.pack("<H", n) + good[2:]
    # the length replaced under a CRC that covers another one, both also beyond the data
    n = len(good) - 3
    for a in (len(data), n - 2, n - 1, n, n + 1, 255, 256, 32767, 65535):
        for b in {len(data), n - 2, n - 1, n, n + 1, 2 * n, 32768, 65535, a ^ 1, a ^ 256} - {a}:
            body = data + bytes(n - 2 - len(data))
            crc = ref.crc_wire(struct.pack("<HB", a, kid) + body)
            yield "length-field", struct.pack("<HB", b, kid) + ref.aes_cbc(key, body + crc)
    yield "foreign-key", ref.encrypt(rng.randbytes(16), kid, data, rng)
    k2 = bytearray(key)
    k2[rng.randrange(16)] ^= 1 << rng.randrange(8)
    yield "foreign-key", ref.encrypt(bytes(k2), kid, data, rng)
    yield "plain", data
    for name, p in forged(rng, key, kid, data):
        yield "forged-crc", p


def verdict(key, kid, p):
    try:
        return ref.decrypt(key, kid, p)
    except ref.BadFrame:
        return None


def overlong(p):
    """A length field that reaches beyond the data although the CRC covers it."""
    return len(p) >= 3 and struct.unpack("<H", p[:2])[0] > len(p) - 5


def direct(case, obs, E, rng):
    key, kid = rng.randbytes(16), rng.randrange(1, 8)
    S = E["security"]
    ctx = S.CipherContext(device.key_id(E, kid), key)
    n = rng.choice((0, 1, 13, 14, 15, 16, 30, 31, rng.randrange(60)))
    data = device.rand_payload(rng, n, n)
    for name, p in tampered(rng, key, kid, data, True):
        want = verdict(key, kid, p)
        if want is not None and overlong(p):
            continue
        obs.eval()
        try:
            got = ctx.decrypt(p)
        except Exception as e:
            obs.expect(want is None, lambda: f"a genuine payload ({name}) was refused with {type(e).__name__}: {e}; key {key.hex()} payload {core.short(p)}", "refused-genuine")
            obs.count("refused")
            obs.seen(p)
        else:
            obs.expect(want is not None, lambda: f"tampered payload ({name}) accepted as {core.short(bytes(got))}; key {key.hex()} id {kid} payload {core.short(p)}", "accepted-tampered")
            obs.equal(got, want, f"data of an accepted payload ({name})", "wrong-data")
            obs.count("accepted")
        if want is None:
            obs.count(name)


def through_connection(case, obs, E, rng):
    c = device.rand_config(rng, encrypted=True)
    conn = device.make_connection(E, c)
    need = E["state"].NEED_DATA
    for _ in range(2):
        kind = rng.choice(device.KINDS)
        data, want = device.gen_reply(rng, kind, 40)
        service = ref.KIND_SERVICE[kind]
        conn.send(device.make_request(E, kind, device.gen_request(rng, kind, c["password"])))
        bad = [(n, p) for n, p in tampered(rng, c["key"], c["key_id"], data, False) if verdict(c["key"], c["key_id"], p) is None]
        for name, p in rng.sample(bad, 8):
            conn.receive_data(ref.wire(ref.ERESP, service, p, c["src"], c["dst"]))
            obs.eval()
            for _ in range(3):
                try:
                    ev = conn.next_event()
                except Exception:
                    obs.count("conn-raised")
                    continue
                obs.expect(ev is need, lambda: f"tampered {kind} response ({name}) was delivered: {ev!r:.200}; key {c['key'].hex()} payload {core.short(p)}", "delivered-tampered")
                break
            obs.count("conn-refused")
            obs.seen("c", p)
        good = device.reply_wire(c, service, data, rng)
        conn.receive_data(good)
        try:
            ev = conn.next_event()
        except Exception as e:
            obs.fail(f"the genuine {kind} response after tampered ones raised {type(e).__name__}: {e}", "refused-genuine")
        obs.expect(ev is not need, lambda: f"the genuine {kind} response after tampered ones was not delivered", "refused-genuine")
        d = device.diff_reply(ev, kind, want)
        obs.expect(not d, lambda: f"genuine response differs: {d}", "wrong-data")
        obs.count("conn-recovered", 4)
    # a connection without a key has nothing it could accept
    p = device.rand_config(rng, encrypted=False)
    conn = device.make_connection(E, p)
    conn.send(device.make_request(E, kind, device.gen_request(rng, kind, p["password"])))
    conn.receive_data(ref.wire(ref.ERESP, service, ref.encrypt(c["key"], c["key_id"], data, rng), p["src"], p["dst"]))
    obs.eval()
    for _ in range(3):
        try:
            ev = conn.next_event()
        except Exception:
            continue
        obs.expect(ev is need, lambda: f"a connection without key delivered {ev!r:.200} from an encrypted response", "delivered-tampered")
    obs.count("no-cipher-refused")


def run(case, obs):
    E = core.load_elgas()
    rng = random.Random(case["seed"])
    (direct if case["m"] == "direct" else through_connection)(case, obs, E, rng)
