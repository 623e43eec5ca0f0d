"""C12 response decoding."""
import random

from rv import core, device, layouts, ref

ID = "C12"
SCALE = 12
RULE = (
    "A simulated device encodes replies of every kind with random and boundary values in every field; the decoded "
    "object must carry exactly those values, decoded directly, through plain and encrypted frames, for payloads of 0 "
    "to 60000 bytes; every bit of the fixed fields is toggled on its own.  Distinct = distinct reply byte strings."
)
MIN = {"direct": 6000, "framed-plain": 600, "framed-encrypted": 600, "bit-toggled": 3000, "big": 30, "kinds": 6}


def gen(ctx):
    for s in ctx.seeds("direct", 6000, 150000):
        yield {"m": "direct", "seed": s}
    for s in ctx.seeds("frame", 1600, 30000):
        yield {"m": "frame", "seed": s}
    for s in ctx.seeds("bits", 64, 1000):
        yield {"m": "bits", "seed": s}
    for s in ctx.seeds("big", 40, 400):
        yield {"m": "big", "seed": s}


def framed(E, obs, rng, c, conn, kind, data, want):
    conn.send(device.make_request(E, kind, device.gen_request(rng, kind, c["password"])))
    conn.receive_data(device.reply_wire(c, ref.KIND_SERVICE[kind], data, rng))
    obs.eval()
    try:
        ev = conn.next_event()
    except Exception as e:
        obs.fail(f"{kind} reply {core.short(data)} raised {type(e).__name__}: {e}", "refused")
    d = device.diff_reply(ev, kind, want)
    obs.expect(not d, lambda: f"{kind} reply {core.short(data)}: {d}", "field")


def run(case, obs):
    E = core.load_elgas()
    A = E["application"]
    rng = random.Random(case["seed"])
    m = case["m"]
    kind = rng.choice(device.KINDS)
    if m == "direct":
        data, want = device.gen_reply(rng, kind, rng.choice((0, 1, 20, 300, 1500)))
        obs.eval()
        pdu = getattr(A, device.RESPONSE_CLASS[kind]).from_bytes(rng.choice((bytes, bytes, bytearray))(data))
        d = device.diff_reply(pdu, kind, want)
        obs.expect(not d, lambda: f"{kind} reply {core.short(data)}: {d}", "field")
        obs.equal(int(pdu.service), ref.KIND_SERVICE[kind], f"service number of a {kind} response", "service")
        obs.count("direct")
        obs.seen(data)
        obs.sample({"kind": kind, "reply": data[:60].hex()}, 3)
    elif m == "frame":
        c = device.rand_config(rng)
        conn = device.make_connection(E, c)
        for _ in range(rng.choice((1, 1, 3))):
            kind = rng.choice(device.KINDS)
            data, want = device.gen_reply(rng, kind, rng.choice((0, 40, 300)))
            framed(E, obs, rng, c, conn, kind, data, want)
            obs.count("framed-encrypted" if c["key"] else "framed-plain")
            obs.seen(data)
    elif m == "bits":
        kind = rng.choice([k for k in device.KINDS if k != "write_time"])
        data, _ = device.gen_reply(rng, kind, 6)
        klass = getattr(A, device.RESPONSE_CLASS[kind])
        for bit in range(8 * len(data)):
            x = bytearray(data)
            x[bit // 8] ^= 1 << (bit % 8)
            x = bytes(x)
            want = decode(kind, x)
            obs.eval()
            try:
                pdu = klass.from_bytes(x)
            except Exception as e:
                obs.expect(want is None, lambda: f"{kind} reply {x.hex()} raised {type(e).__name__}: {e}", "refused")
                continue
            if want is None:
                continue  # invalid clock or archive number: C10 and the enum judge those
            d = device.diff_reply(pdu, kind, want)
            obs.expect(not d, lambda: f"{kind} reply {x.hex()}: {d}", "field")
            obs.count("bit-toggled")
            obs.seen(x)
    else:
        c = device.rand_config(rng)
        kind = rng.choice(("values", "params", "archive", "archive_by_time", "time"))
        data, want = device.gen_reply(rng, kind, 100)
        n = rng.choice((5000, 60000, 65000 - len(data), 32768, 255, 256, 257))
        # grow the opaque payload
        extra = device.rand_payload(rng, n, n)
        if kind == "values":
            data, want["data"] = data[:6] + extra + data[-19:], extra
        elif kind == "time":
            data, want["extra_data"] = data[:7] + extra + data[-2:], extra
        else:
            data, want["data"] = data[:5] + extra, extra
        conn = device.make_connection(E, c)
        framed(E, obs, rng, c, conn, kind, data, want)
        obs.count("big")
        obs.seen(data)
    if m == "big":
        obs.count("kinds", 1)


def decode(kind, x):
    """Reference decoding of a reply, or None when a fixed field is invalid."""
    if kind in ("archive", "archive_by_time"):
        if x[0] not in device.ARCHIVES:
            return None
        return {"archive": x[0], "oldest_record_id": int.from_bytes(x[1:5], "little"), "data": x[5:]}
    if kind == "params":
        return {"object_number": x[0] + 256 * x[1], "object_amount": x[2] + 256 * x[3], "is_end": x[4] != 0, "data": x[5:]}
    t = ref.parse_time(x[:6])
    if t is None:
        return None
    if kind == "time":
        return {"time": t[0], "is_dst": t[1], "device_supports_dst": t[2], "data_access_result": x[6:7], "extra_data": x[7:-2]}
    return {"current_time": t[0], "is_dst": t[1], "supports_dst": t[2], "data": x[6:-19], "data_access": x[-19],
            "status": x[-18:-10], "summary_status": x[-10:-2], "parameter_crc": x[-2:]}
