"""C21 call registration message."""
import datetime
import random
import struct

from rv import core, device, layouts, ref

ID = "C21"
SCALE = 12
RULE = (
    "Registration messages with random, boundary and all-decimal values in every field are encoded by an independent "
    "table, decoded bare and inside escaped request frames (plain and encrypted), truncated at every byte and with "
    "every single bit of the numeric fields toggled.  Distinct = distinct messages."
)
MIN = {"decoded": 2500, "framed": 500, "truncated-refused": 10000, "bit-toggled": 4000}

# field, kind
FIELDS = [
    ("-length", "u2"), ("version", "u1"), ("guid", "raw16"), ("station_id", "t17"), ("sim_card_id", "bcd10"),
    ("modem_id", "bcd8"), ("protocol", "proto"), ("address_1", "u2"), ("address_2", "u1"), ("signal_strength", "u1"),
    ("connections", "u4"), ("last_connection_time", "sec"), ("connection_errors", "u4"),
    ("last_connection_error_time", "sec"), ("resets", "u4"), ("last_reset_time", "sec"), ("tcp_data", "u4"),
    ("all_data", "u4"), ("serial_number", "su4"), ("ip_address", "ip"), ("last_modem_error_time", "sec"),
    ("last_modem_error", "u1"), ("modem_battery_capacity", "u2"), ("modem_battery_voltage", "u2"), ("firmware_version", "t33"),
]
SIZE = {"proto": 1, "sec": 4, "su4": 4, "ip": 4, "raw16": 16, "bcd10": 10, "bcd8": 8}


def size(kind):
    return SIZE.get(kind) or int(kind[1:])


TOTAL = sum(size(k) for _, k in FIELDS)


def gen(ctx):
    for s in ctx.seeds("msg", 2400, 60000):
        yield {"m": "msg", "seed": s}
    for s in ctx.seeds("frame", 600, 12000):
        yield {"m": "frame", "seed": s}
    for s in ctx.seeds("cut", 80, 1000):
        yield {"m": "cut", "seed": s}
    for s in ctx.seeds("bits", 8, 200):
        yield {"m": "bits", "seed": s}


def gen_raw(rng, kind, protocols):
    if kind == "proto":
        return bytes((rng.choice(protocols),))
    if kind in ("sec", "su4"):
        return layouts.gen_int(rng, 4).to_bytes(4, "little")
    if kind == "ip":
        return rng.choice((bytes(4), b"\xff" * 4, rng.randbytes(4)))
    if kind == "raw16":
        return rng.randbytes(16)
    if kind.startswith("bcd"):
        n = int(kind[3:])
        digits = rng.choice((0, 10 ** (2 * n) - 1, rng.randrange(10 ** (2 * n)), rng.randrange(10 ** n), 7, 10 ** (2 * n - 1)))
        return ref.bcd_number(digits, n)
    if kind[0] == "t":
        return layouts.gen_text(rng, int(kind[1:]))
    return layouts.gen_int(rng, int(kind[1:])).to_bytes(int(kind[1:]), "little")


def expect(kind, raw):
    if kind == "sec":
        return ref.EPOCH + datetime.timedelta(seconds=struct.unpack("<I", raw)[0])
    if kind == "su4":
        return str(struct.unpack("<I", raw)[0])
    if kind == "ip":
        return "%d.%d.%d.%d" % tuple(raw)
    if kind == "raw16":
        return raw
    if kind == "proto":
        return raw[0]
    if kind.startswith("bcd"):
        s = "".join("%d%d" % divmod(x, 16) for x in raw).lstrip("0")
        return s or "0"
    if kind[0] == "t":
        return ref.text(raw)
    return sum(x << (8 * i) for i, x in enumerate(raw))


def message(rng, protocols):
    return b"".join(gen_raw(rng, k, protocols) if n != "-length" else struct.pack("<H", TOTAL - 2) for n, k in FIELDS)


def fields_of(msg):
    out, pos = {}, 0
    for n, k in FIELDS:
        raw = msg[pos:pos + size(k)]
        pos += size(k)
        if n[0] != "-":
            out[n] = expect(k, raw)
    return out


def judge(obs, got, msg):
    obs.eval()
    bad = []
    for n, v in fields_of(msg).items():
        g = getattr(got, n, "<missing>")
        ok = bytes(g) == v if isinstance(v, bytes) and isinstance(g, (bytes, bytearray)) else g == v and not (isinstance(v, str) and not isinstance(g, str))
        if not ok:
            bad.append(f"{n} = {g!r}, device sent {v!r}")
    named = getattr(core.load_elgas()["constants"].Protocol, device.PROTOCOL_NAMES[fields_of(msg)["protocol"]], None)
    if got.protocol != named:
        bad.append(f"protocol = {got.protocol!r}, device sent {named!r}")
    obs.expect(not bad, lambda: f"registration message {msg.hex()}: {bad[:4]}", "field")


def run(case, obs):
    E = core.load_elgas()
    C = E["application"].CallRequest
    protocols = range(4)
    rng = random.Random(case["seed"])
    m = case["m"]
    msg = message(rng, protocols)
    if m == "msg":
        judge(obs, C.from_bytes(rng.choice((bytes, bytearray))(msg)), msg)
        obs.count("decoded")
        obs.seen(msg)
        obs.sample(msg.hex(), 1)
    elif m == "frame":
        key, kid = rng.randbytes(16), rng.randrange(1, 8)
        enc = rng.random() < 0.3
        a = lambda: (rng.randrange(65536), rng.randrange(256))
        payload = ref.encrypt(key, kid, msg, rng) if enc else msg
        w = ref.wire(ref.EREQ if enc else ref.REQ, 0x87, payload, a(), a())
        raw = E["utils"].return_characters(w)
        frame = (E["frames"].EncryptedRequest if enc else E["frames"].Request).from_bytes(raw)
        obs.equal(int(frame.service), 0x87, "service of a registration frame", "frame")
        data = frame.data
        if enc:
            S = E["security"]
            data = S.CipherContext(device.key_id(E, kid), key).decrypt(data)
        judge(obs, C.from_bytes(data), msg)
        obs.count("decoded")
        obs.count("framed")
        obs.seen(w)
    elif m == "cut":
        for n in range(len(msg)):
            obs.eval()
            try:
                got = C.from_bytes(msg[:n])
            except Exception:
                obs.count("truncated-refused")
                continue
            obs.fail(f"a registration message cut to {n} of {len(msg)} bytes was decoded: {got!r:.300}", "truncated-accepted")
        obs.seen(msg)
    else:
        pos = 0
        for n, k in FIELDS:
            if n[0] != "-" and not k.startswith("bcd") and k != "proto":
                for bit in range(8 * size(k)):
                    x = bytearray(msg)
                    x[pos + bit // 8] ^= 1 << (bit % 8)
                    judge(obs, C.from_bytes(bytes(x)), bytes(x))
                    obs.count("bit-toggled")
                    obs.seen(bytes(x))
            elif k.startswith("bcd"):  # every digit in every place
                for place in range(2 * size(k)):
                    for d in range(10):
                        x = bytearray(msg)
                        sh = 4 if place % 2 == 0 else 0
                        i = pos + place // 2
                        x[i] = (x[i] & (0x0F if sh else 0xF0)) | (d << sh)
                        judge(obs, C.from_bytes(bytes(x)), bytes(x))
                        obs.count("bit-toggled")
            pos += size(k)
