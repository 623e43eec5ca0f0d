"""C20 secrets stay out of representations and logs."""
import base64
import contextlib
import io
import json
import logging
import pprint
import random
import traceback

import structlog

from rv import core, device, net, ref

ID = "C20"
SCALE = 2
RULE = (
    "Clients with random passwords and keys make successful and failing exchanges (device errors, noise, truncated and "
    "unexpected replies, wrong keys, timeouts, unencodable requests; in memory, over TCP and over a pseudo terminal) "
    "while every log event at every level is captured and rendered in eight ways, and client, connection, cipher and "
    "every request made and the text and traceback of every exception are printed; every text is searched for the secrets in plain, escaped, hex, base64 and list "
    "form.  Distinct = distinct (operation, ending, encrypted, log event names)."
)
MIN = {"texts-searched": 60000, "log-events": 20000, "debug-events-encrypted": 3000, "info-events": 4000, "reprs": 4000,
       "requests-seen": 1200, "failed-exchanges": 400, "good-exchanges": 400, "real-transport": 40,
       "error-texts": 400, "refused-settings": 400, "refused-requests": 400,
       "odd-keys": 300, "link-errors": 15, "hints": 5000}

CAPTURED = []
REQUESTS = []


def before_load():
    core.LOG_HOOK = lambda level, event: CAPTURED.append((level, dict(event)))


class Handler(logging.Handler):
    def emit(self, record):
        CAPTURED.append((record.levelname.lower(), {"event": record.getMessage(), "args": record.args}))


def setup():
    """Remember every request object that gets encoded."""
    E = core.load_elgas()
    for name, cls in vars(E["application"]).items():
        if isinstance(cls, type) and name.endswith("Request") and "to_bytes" in vars(cls):
            def wrapped(self, *a, _f=cls.to_bytes, **k):
                REQUESTS.append(self)
                return _f(self, *a, **k)

            cls.to_bytes = wrapped
    logging.getLogger().addHandler(Handler())
    logging.getLogger().setLevel(1)


def gen(ctx):
    for s in ctx.seeds("mem", 400, 8000):
        yield {"m": "mem", "seed": s}
    for s in ctx.seeds("real", 96, 800):
        yield {"m": ("tcp", "pty")[s % 2], "seed": s}


def needles(c):
    """Texts which reveal the password or the key."""
    pw = c["password"]
    raw = pw.encode("latin-1")
    out = {pw, repr(pw)[1:-1], ascii(pw)[1:-1], json.dumps(pw)[1:-1], repr(raw)[2:-1], repr(bytearray(raw))[12:-2],
           repr(list(raw))[1:-1], base64.b64encode(raw).decode(), pw[::-1], repr([*pw])[1:-1]}
    hexes = {raw.hex()}
    if c["key"]:
        k = c["key"]
        for part in (k[:8], k[8:16], k[4:12], k):
            if len(part) < 6:
                continue
            out |= {repr(part)[2:-1], repr(list(part))[1:-1], part.decode("latin-1"), repr(part.decode("latin-1"))[1:-1],
                    json.dumps(part.decode("latin-1"))[1:-1]}
            hexes.add(part.hex())
        out.add(base64.b64encode(k).decode())
        out.add(str(int.from_bytes(k, "big")))
        out.add(str(int.from_bytes(k, "little")))
    return out, hexes


class Search:
    def __init__(self, obs, c):
        self.obs = obs
        self.plain, self.hexes = needles(c)

    def __call__(self, text, where):
        self.obs.eval()
        self.obs.count("texts-searched")
        for n in self.plain:
            if n in text:
                self.obs.fail(f"{where} shows a secret: {text[:300]!r} contains {n!r}", "leak")
        low = text.lower()
        if any(h in low for h in self.hexes) or any(
            h in low.replace(" ", "").replace(":", "").replace("\\x", "") for h in self.hexes
        ):
            self.obs.fail(f"{where} shows a secret in hex: {text[:300]!r}", "leak")


RENDERERS = {
    "key-value": structlog.processors.KeyValueRenderer(),
    "json": structlog.processors.JSONRenderer(),
    "console": structlog.dev.ConsoleRenderer(colors=False, exception_formatter=structlog.dev.plain_traceback),
    "logfmt": structlog.processors.LogfmtRenderer(),
}


def renderings(level, event):
    for name, r in RENDERERS.items():
        try:
            yield name, str(r(None, level, dict(event)))
        except (ValueError, TypeError):
            continue  # this renderer cannot show this event
    yield "values", " ".join(f"{k}={v}" for k, v in event.items())
    yield "json-str", json.dumps(event, default=str)
    yield "percent", " ".join("%s=%r" % (k, v) for k, v in event.items() if not isinstance(v, (str, bytes)))
    yield "pprint", pprint.pformat([v for v in event.values() if not isinstance(v, (str, bytes))], width=10**6)


def shown(search, obs, what, x):
    for name, text in (("repr", repr(x)), ("str", str(x)), ("format", f"{x}"), ("list", repr([x])), ("pprint", pprint.pformat({"x": x}, width=10**6))):
        obs.count("reprs")
        search(text, f"{name} of {what}")


def error_texts(search, obs, e):
    """What is printed about an exception: its text, its causes, its traceback."""
    text = "".join(traceback.format_exception(e))
    seen = set()
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        text += "\n" + str(e)
        if not isinstance(e, UnicodeError):  # whose arguments include the text that could not be encoded
            text += "\n" + repr(e)
        e = e.__cause__ or e.__context__
    obs.count("error-texts")
    search(text, "the text of an exception")


def refused_settings(E, obs, rng, c):
    """Settings that are refused must not be quoted either."""
    chars = rng.sample("abcdefghjkmnpqrstuvwxyzABCDEFGHJKMNPQRSTUVWXYZ23456789", 20)
    key = c["key"] or rng.randbytes(16)
    for pw, pid, k, kid in (
        ("".join(chars[: rng.randrange(7, 21)]), c["password_id"], c["key"], c["key_id"]),
        (c["password"], rng.choice((800, 850, -1)), key, 1),
        (c["password"], c["password_id"], key, None),
    ):
        cc = {**c, "password": pw, "password_id": pid, "key": k, "key_id": kid}
        search = Search(obs, cc)
        for make in (device.make_client, None):
            try:
                if make:
                    make(E, cc, device.MemoryTransport(E, None))
                else:
                    device.make_connection(E, cc)
            except Exception as e:
                obs.count("refused-settings")
                error_texts(search, obs, e)
        if len(pw) > 6:
            conn = device.make_connection(E, c)
            for kind in device.KINDS:
                args = device.gen_request(rng, kind, E["utils"].to_secret_str(pw))
                if "password" not in args:
                    continue
                try:
                    conn.send(device.make_request(E, kind, args))
                except Exception as e:
                    obs.count("refused-requests")
                    error_texts(search, obs, e)


def hints(E, obs, rng):
    """Representations do not show a part of a secret either, be it one character."""
    marks = rng.sample("\u2600\u2602\u2603\u2604\u260e\u2615\u2622\u262f\u263a\u266b\u2693\u26a1", rng.randrange(1, 7))
    pw = "".join(marks)
    key = bytes(rng.sample(range(0xE0, 0x100), 16))
    c = {**device.rand_config(rng, addresses=False), "password": pw, "key": key, "key_id": rng.randrange(1, 8)}
    client = device.make_client(E, c, device.MemoryTransport(E, None))
    parts = {*marks, *(ascii(m)[1:-1] for m in marks), *(f"\\x{b:02x}" for b in key), *(chr(b) for b in key)}
    things = [("a client", client), ("its connection", client.elgas_connection), ("its cipher", client.elgas_connection.cipher_context)]
    for kind in device.KINDS:
        args = device.gen_request(rng, kind, client.password)
        if "password" in args:
            things.append((f"a {kind} request", device.make_request(E, kind, args)))
    for what, x in things:
        for text in (repr(x), str(x), f"{x}", repr([x]), repr({"x": (x,)})):
            obs.eval()
            obs.count("hints")
            shown = [p for p in parts if p in text]
            obs.expect(not shown, lambda: f"{what} shows {shown!r} of its password or key: {text[:300]!r}", "hint")


def odd_keys(E, obs, rng, c):
    """Keys which the cipher cannot use are secrets all the same."""
    for n in (8, 15, 17, 24, 32, 40):
        cc = {**c, "key": rng.randbytes(n), "key_id": rng.randrange(1, 8)}
        search = Search(obs, cc)
        tr = device.MemoryTransport(E, device.SimDevice(cc, rng))
        try:
            client = device.make_client(E, cc, tr)
        except Exception as e:
            error_texts(search, obs, e)
            continue
        mark = len(CAPTURED)
        client.connect()
        shown(search, obs, "a client with an unusable key", client)
        shown(search, obs, "its connection", client.elgas_connection)
        shown(search, obs, "its cipher", client.elgas_connection.cipher_context)
        try:
            client.read_time()
        except Exception as e:
            error_texts(search, obs, e)
        for level, event in CAPTURED[mark:]:
            for name, text in renderings(level, event):
                search(text, f"log event {event.get('event')!r} at {level}, rendered as {name},")
        obs.count("odd-keys")


def faults(rng, c):
    """A fault for SimDevice and its name."""
    name = rng.choice(("none", "none", "none", "error", "noise", "silence", "truncated", "other-key", "other-key-id", "unexpected", "link", "bad-argument"))
    if name == "error":
        return name, lambda kind: ("error", rng.randrange(1, 256))
    if name == "noise":
        return name, lambda kind: ("raw", lambda w: [rng.randbytes(20) + b"\r", w])
    if name == "silence":
        return name, lambda kind: ("raw", lambda w: [])
    if name == "truncated":
        return name, lambda kind: ("raw", lambda w: [w[: rng.randrange(1, len(w))] + rng.choice((b"", b"\r"))])
    if name == "other-key":
        other = {**c, "key": rng.randbytes(16), "key_id": c["key_id"] or 1}
        return name, lambda kind: ("raw", lambda w: [device.reply_wire(other, ref.KIND_SERVICE[kind], rng.randbytes(40), rng, encrypted=True)])
    if name == "other-key-id":
        other = {**c, "key": c["key"] or rng.randbytes(16), "key_id": (c["key_id"] or 1) % 7 + 1}
        return name, lambda kind: ("raw", lambda w: [device.reply_wire(other, ref.KIND_SERVICE[kind], rng.randbytes(40), rng, encrypted=True)])
    if name == "unexpected":
        def wrong(kind):
            k = rng.choice([k for k in device.KINDS if k != kind])
            return ("raw", lambda w: [device.reply_wire(c, ref.KIND_SERVICE[k], device.gen_reply(rng, k)[0], rng)])
        return name, wrong
    return name, None


def run(case, obs):
    E = core.load_elgas()
    rng = random.Random(case["seed"])
    c = device.rand_config(rng, addresses=rng.random() < 0.5)
    alphabet = rng.choice((device.PW_CHARS, "abcdefghjkmnpqrstuvwxyzABCDEFGHJKMNPQRSTUVWXYZ23456789"))
    # characters none of which occurs twice: no accidental look-alikes in ordinary text
    c["password"] = "".join(rng.sample(alphabet, 6))
    if case["m"] == "mem":
        hints(E, obs, rng)
    objects = device.gen_objects(rng, rng.choice((1, 3)))
    dev = device.SimDevice(c, rng, objects=objects, page=lambda i, left: rng.choice((1, left)), max_payload=40)
    search = Search(obs, c)
    del CAPTURED[:], REQUESTS[:]
    text_out = io.StringIO()
    peer = stop = None
    plan = net.Plan()
    if case["m"] == "mem":
        tr = device.MemoryTransport(E, dev)
    else:
        peer = net.TcpPeer() if case["m"] == "tcp" else net.PtyPeer()
        tr = peer.transport(E, 0.3 if rng.random() < 0.5 else 2)
    endings = []
    try:
        with contextlib.redirect_stdout(text_out), contextlib.redirect_stderr(text_out), (
            net.hostile(plan) if peer else contextlib.nullcontext()
        ):
            client = device.make_client(E, c, tr)
            own = client.elgas_connection
            (own.destination_address_1, own.destination_address_2), (own.source_address_1, own.source_address_2) = c["dst"], c["src"]
            client.connect()
            if peer:
                peer.accept()
                stop = net.serve(peer, dev)
            for _ in range(6 if not peer else 4):
                kind = rng.choice(device.KINDS)
                method, kw = device.gen_call(rng, kind, len(objects))
                name, dev.fault = faults(rng, c)
                if peer and name == "silence":
                    tr.timeout = 0.3
                real_send = None
                if name == "bad-argument":
                    for k in ("amount", "oldest_record_id", "read_from"):
                        if k in kw:
                            kw[k] = 2**40
                    if "device_time" in kw:
                        kw["device_time"] = kw["device_time"].replace(year=1999, day=1)
                if name == "link" and not peer:
                    def broken(data, E=E):
                        raise E["exceptions"].CommunicationError("link down")
                    tr.send, real_send = broken, True
                if name == "link" and peer:
                    make = rng.choice(list((net.ERRNOS if case["m"] == "tcp" else net.SERIAL_ERRORS).values()))
                    setattr(plan, rng.choice(("send", "send", "recv")), lambda *a: (_ for _ in ()).throw(make()))
                    obs.count("link-errors")
                try:
                    device.do_call(E, client, method, kw)
                    obs.count("good-exchanges")
                    endings.append((method, name, "ok"))
                except (core.Violation, core.CaseTimeout):
                    raise
                except Exception as e:
                    obs.count("failed-exchanges")
                    error_texts(search, obs, e)
                    endings.append((method, name, type(e).__name__))
                    if real_send:
                        del tr.send
                    plan.send = plan.recv = None
                    if stop:
                        stop()
                    try:
                        client.disconnect()
                    except E["exceptions"].CommunicationError:
                        pass
                    client.connect()
                    if peer:
                        if case["m"] == "tcp":
                            peer.hang_up()
                            peer.accept()
                        else:
                            peer.pending()
                        stop = net.serve(peer, dev)
                if real_send and "send" in vars(tr):
                    del tr.send
                plan.send = plan.recv = None
            connection = client.elgas_connection
            shown(search, obs, "the client", client)
            shown(search, obs, "its connection", connection)
            if c["key"]:
                shown(search, obs, "its cipher", connection.cipher_context)
            for r in REQUESTS[:]:
                obs.count("requests-seen")
                shown(search, obs, "a request", r)
            client.disconnect()
            refused_settings(E, obs, rng, c)
            if rng.random() < 0.25:
                odd_keys(E, obs, rng, c)
    finally:
        if stop:
            stop()
        if peer:
            obs.count("real-transport")
            peer.close()
    for level, event in CAPTURED:
        obs.count("log-events")
        debug = level in ("debug", "notset")
        if debug and not c["key"]:
            continue
        obs.count("debug-events-encrypted" if debug else "info-events")
        for name, text in renderings(level, event):
            search(text, f"log event {event.get('event')!r} at {level}, rendered as {name},")
    search(text_out.getvalue(), "standard output")
    obs.seen(bool(c["key"]), endings, sorted({str(e.get("event"))[:30] for _, e in CAPTURED}))
    obs.sample({"encrypted": bool(c["key"]), "endings": endings, "log events": len(CAPTURED)}, 2)
