"""C33 encoding never modifies what it encodes and can be repeated."""
import random

from rv import core, device, ref
from rv.props.c24 import snap

ID = "C33"
SCALE = 16
RULE = (
    "One request object is encoded several times and sent through several connections (plain, encrypted, other "
    "addresses), in between other requests; one frame object, cipher and payload buffer likewise.  Objects and buffers "
    "are snapshotted before and after, every message is read by the reference decoder, fields are reassigned in between, and messages handed out earlier "
    "are compared again at the end.  Distinct = distinct (request, connections) and (encoder, input)."
)
MIN = {"requests-unchanged": 6000, "messages-read": 12000, "same-request-again": 4000, "other-connection": 3000,
       "messages-kept": 8000, "frames-repeated": 4000, "ciphers-repeated": 3000, "buffers-unchanged": 8000, "after-refusal": 400, "reassigned": 8000}

ENCODERS = ("request", "response", "erequest", "eresponse", "cipher", "escape", "sums", "time")


def gen(ctx):
    for s in ctx.seeds("send", 400, 9000):
        yield {"m": "send", "seed": s}
    for s in ctx.seeds("enc", 1600, 40000):
        yield {"m": "enc", "kind": ENCODERS[s % len(ENCODERS)], "seed": s}


def run(case, obs):
    E = core.load_elgas()
    rng = random.Random(case["seed"])
    (send_case if case["m"] == "send" else encoder_case)(E, obs, rng, case)


def request_args(rng, kind, password):
    args = device.gen_request(rng, kind, password)
    for k in ("device_time", "oldest_timestamp"):
        if k in args and rng.random() < 0.6:
            args[k] = args[k].replace(microsecond=rng.choice((1, 500000, 999999)))
        if k in args and rng.random() < 0.3:
            args[k] = args[k].replace(fold=rng.randrange(2), tzinfo=rng.choice(device.ZONES))
    return args


def send_case(E, obs, rng, case):
    configs = [device.rand_config(rng, encrypted=e) for e in rng.sample([True, False, True, False], 3)]
    conns = [device.make_connection(E, c) for c in configs]
    requests = []
    for _ in range(rng.choice((1, 2, 4))):
        kind = rng.choice(device.KINDS)
        args = request_args(rng, kind, rng.choice(configs)["password"])
        requests.append((kind, args, device.make_request(E, kind, args)))
    frozen = [snap(r) for _, _, r in requests]
    handed = []
    used = {}
    for _ in range(rng.choice((4, 8))):
        i = rng.randrange(len(requests))
        kind, args, req = requests[i]
        j = rng.randrange(len(conns))
        c, conn = configs[j], conns[j]
        what = f"{type(req).__name__} (sent {used.get(i, 0)} times before) on connection {j} ({'encrypted' if c['key'] else 'plain'})"
        obs.eval()
        try:
            wire = conn.send(req)
        except Exception as e:
            obs.fail(f"{what} was refused: {type(e).__name__}: {e}", "not-repeatable")
        obs.expect(isinstance(wire, (bytes, bytearray)), lambda: f"{what} gave {type(wire).__name__}", "not-repeatable")
        handed.append((what, wire, bytes(wire)))
        try:
            fields, _ = device.read_request(c, bytes(wire))
        except ref.BadFrame as e:
            obs.fail(f"{what} is unreadable for its device: {e}", "not-repeatable")
        d = device.check_request(fields, kind, args)
        obs.expect(not d, lambda: f"{what}: the device reads {d[:3]}", "not-repeatable")
        obs.count("messages-read")
        obs.expect(snap(req) == frozen[i], lambda: f"{what} changed the request to {snap(req)!r:.300}", "request-changed")
        obs.count("requests-unchanged")
        if i in used:
            obs.count("same-request-again")
            if used.get((i, "conn")) != j:
                obs.count("other-connection")
        used[i] = used.get(i, 0) + 1
        used[(i, "conn")] = j
        # the answer, so that the next request may be sent
        data, want = device.gen_reply(rng, kind, 40)
        buf = bytearray(device.reply_wire(c, ref.KIND_SERVICE[kind], data, rng))
        conn.receive_data(buf if rng.random() < 0.5 else bytes(buf))
        ev = conn.next_event()
        d = device.diff_reply(ev, kind, want)
        obs.expect(not d, lambda: f"{what}: answer decoded as {d[:3]}", "not-repeatable")
        if rng.random() < 0.2:  # a request that cannot be encoded in between
            bad = device.make_request(E, "params", {"password": c["password"], "object_count": 2**17, "buffer_length": 1})
            before = snap(bad)
            try:
                conn.send(bad)
            except Exception:
                obs.count("after-refusal")
                obs.expect(snap(bad) == before, lambda: f"a refused request was changed to {snap(bad)!r:.300}", "request-changed")
            else:
                obs.fail("an object count of 2**17 was sent", "not-repeatable")
        if rng.random() < 0.3:  # the caller fills in other values and sends the object again
            new = request_args(rng, kind, c["password"])
            try:
                for k, v in core.attributes(device.make_request(E, kind, new)).items():
                    setattr(req, k, v)
            except AttributeError:
                obs.count("not-assignable")
            else:
                requests[i], frozen[i] = (kind, new, req), snap(req)
                obs.count("reassigned")
    for what, wire, copy in handed:
        obs.expect(bytes(wire) == copy, lambda: f"the bytes handed out for {what} changed later", "output-changed")
        obs.count("messages-kept")
    for (kind, args, req), f in zip(requests, frozen):
        obs.expect(snap(req) == f, lambda: f"{type(req).__name__} was changed after it had been sent", "request-changed")
    obs.seen(repr([(k, sorted(map(str, a.items()))) for k, a, _ in requests]), len(handed))
    obs.sample({"requests": [k for k, _, _ in requests], "sent": len(handed)}, 3)


FRAME = {"request": ("Request", ref.REQ), "response": ("Response", ref.RESP), "erequest": ("EncryptedRequest", ref.EREQ),
         "eresponse": ("EncryptedResponse", ref.ERESP)}


def encoder_case(E, obs, rng, case):
    kind = case["kind"]
    U, S = E["utils"], E["security"]
    payload = device.rand_payload(rng, 0, rng.choice((20, 300, 2000)))
    src = rng.choice((bytes, bytearray))(payload)
    keep = bytes(src)

    def same_input(what):
        obs.expect(bytes(src) == keep, lambda: f"{what} changed its input from {core.short(keep)} to {core.short(bytes(src))}", "input-changed")
        obs.count("buffers-unchanged")

    outs = []
    if kind in FRAME:
        name, code = FRAME[kind]
        service = rng.choice(list(E["constants"].ServiceNumber))
        dst, s = (rng.randrange(65536), rng.randrange(256)), (rng.randrange(65536), rng.randrange(256))
        f = getattr(E["frames"], name)(service=service, destination_address_1=dst[0], destination_address_2=dst[1],
                                       source_address_1=s[0], source_address_2=s[1], data=src)
        want = ref.frame(code, int(service), keep, dst, s)
        before = snap(f)
        for i in range(3):
            obs.eval()
            out = f.to_bytes()
            obs.expect(bytes(out) == want, lambda: f"encoding {name} for the {i + 1}. time gave {core.short(bytes(out))}, want {core.short(want)}", "not-repeatable")
            obs.expect(snap(f) == before, lambda: f"encoding changed the {name}", "request-changed")
            same_input(name + ".to_bytes")
            esc = U.escape_characters(out)
            obs.expect(bytes(out) == want, lambda: f"escaping changed the frame {core.short(want)}", "input-changed")
            obs.expect(bytes(esc) == ref.escape(want), lambda: "escaped frame differs", "not-repeatable")
            outs += [(out, bytes(out)), (esc, bytes(esc))]
            obs.count("frames-repeated")
        f.data = other = device.rand_payload(rng, 0, 40)
        f.destination_address_1 = a1 = rng.randrange(65536)
        want = ref.frame(code, int(service), other, (a1, dst[1]), s)
        out = f.to_bytes()
        obs.expect(bytes(out) == want, lambda: f"encoding {name} after data and address were assigned gave {core.short(bytes(out))}, want {core.short(want)}", "not-repeatable")
        obs.count("reassigned")
        if isinstance(src, bytearray):  # what was handed out does not follow the caller's buffer
            src[:] = bytes(len(src))
            src += b"x"
    elif kind == "cipher":
        kid = rng.randrange(1, 8)
        key = rng.randbytes(16)
        ctx = S.CipherContext(device.key_id(E, kid), key)
        for i in range(3):
            obs.eval()
            out = ctx.encrypt(src)
            same_input("encrypt")
            try:
                got = ref.decrypt(key, kid, bytes(out))
            except ref.BadFrame as e:
                obs.fail(f"the {i + 1}. encryption of {core.short(keep)} cannot be opened: {e}", "not-repeatable")
            obs.expect(got == keep, lambda: f"the {i + 1}. encryption of {core.short(keep)} holds {core.short(got)}", "not-repeatable")
            buf = bytearray(out)
            copy = bytes(out)
            dec = ctx.decrypt(buf)
            obs.expect(bytes(buf) == copy and bytes(dec) == keep, lambda: "decrypting changed its input or gave other data", "input-changed")
            outs += [(out, copy), (dec, bytes(dec))]
            obs.count("ciphers-repeated")
            obs.expect(ctx.key == key and int(ctx.key_id) == kid, lambda: "the cipher's key or key id changed", "request-changed")
    elif kind == "escape":
        src = rng.choice((bytes, bytearray))(keep + b"\r")
        keep = bytes(src)
        want = ref.escape(keep)
        for i in range(3):
            obs.eval()
            out = U.escape_characters(src)
            obs.expect(bytes(out) == want, lambda: f"escaping {core.short(keep)} for the {i + 1}. time gave {core.short(bytes(out))}", "not-repeatable")
            same_input("escape_characters")
            outs.append((out, bytes(out)))
        if isinstance(src, bytearray):
            src[:] = bytes(len(src))
    elif kind == "sums":
        for fn, want in ((U.calculate_lrc, ref.lrc(keep)), (U.calculate_checksum, ref.checksum(keep)), (U.calculate_drc, ref.drc(keep))):
            for i in range(2):
                obs.eval()
                got = fn(src)
                obs.expect(got == want, lambda: f"{fn.__name__} of {core.short(keep)} gave {got}, want {want}", "not-repeatable")
                same_input(fn.__name__)
        a, b = U.calculate_crc(src), U.calculate_crc(src)
        obs.expect(a == b, lambda: f"two CRCs of {core.short(keep)}: {a}, {b}", "not-repeatable")
        same_input("calculate_crc")
    else:
        t = device.rand_time(rng)
        for i in range(3):
            obs.eval()
            out = U.datetime_to_bytes(t)
            obs.expect(bytes(out) == ref.time_bytes(t), lambda: f"encoding {t} for the {i + 1}. time gave {bytes(out).hex()}", "not-repeatable")
            outs.append((out, bytes(out)))
    for out, copy in outs:
        obs.expect(bytes(out) == copy, lambda: f"bytes handed out by {kind} changed later", "output-changed")
        obs.count("messages-kept")
    obs.seen(kind, keep)
