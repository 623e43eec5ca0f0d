"""C23 connections and clients do not influence each other."""
import random
import sys
import threading
import time

from rv import core, device, layouts, ref
from rv.props import c21

ID = "C23"
SCALE = 8
RULE = (
    "Random scripts (bare connections with good, noisy, erroneous, unsolicited and partial input and unencodable "
    "requests; client sessions; parameter parsing; frame, cipher and registration decoding) run once alone and then "
    "interleaved step by step with 2-8 others in one thread, and in 2-8 threads with a switch interval of a "
    "microsecond and yields injected at random executed lines; every script's trace of sent requests, delivered "
    "values and errors must be the one it has alone.  Distinct = distinct interleavings (sequence of script numbers)."
)
MIN = {"interleavings": 300, "threaded-runs": 40, "steps": 20000, "switches": 12000, "delivered": 4000, "errors": 1500,
       "scripts": 1500, "yields": 5000, "clients": 250, "connections": 500, "thread-switches-seen": 400, "same-settings": 500}
ASSUMPTIONS = ["one connection, client, transport or parser object is used by one thread at a time"]
CASE_ALARM_S = 90.0


def gen(ctx):
    for s in ctx.seeds("mix", 360, 6000):
        yield {"m": "mix", "seed": s}
    for s in ctx.seeds("thread", 56, 900):
        yield {"m": "thread", "seed": s}


# -- scripts: generators which yield after each small step ------------------


def text(x):
    """Value of a delivered object, free of identities and of bytes/bytearray differences."""
    if isinstance(x, (bytes, bytearray)):
        return bytes(x).hex()
    if isinstance(x, (list, tuple)):
        return [text(v) for v in x]
    attrs = getattr(type(x), "__attrs_attrs__", None)
    if attrs is not None:
        return [type(x).__name__] + [(a.name, text(getattr(x, a.name))) for a in attrs]
    return repr(x)


def guard(trace, obs, name, fn, *a):
    try:
        r = fn(*a)
    except (core.Violation, core.CaseTimeout, core.Inconclusive):
        raise
    except Exception as e:
        trace.append((name, "error", type(e).__name__))
        obs.count("errors")
        return None
    return r


def connection_script(E, obs, seed, trace, shared):
    rng = random.Random(seed)
    c = {**device.rand_config(rng), **shared}
    conn = device.make_connection(E, c)
    obs.count("connections")
    yield
    out = None
    for _ in range(rng.randrange(8, 20)):
        op = rng.random()
        if op < 0.35 or out is None:
            kind = rng.choice(device.KINDS)
            args = device.gen_request(rng, kind, c["password"])
            if rng.random() < 0.1 and "amount" in args:
                args["amount"] = 70000
            w = guard(trace, obs, "send", conn.send, device.make_request(E, kind, args))
            if w is not None:
                try:
                    fields, _ = device.read_request(c, w)
                    trace.append(("sent", text(sorted((k, str(v)) for k, v in fields.items()))))
                    d = device.check_request(fields, kind, args)
                except ref.BadFrame as e:
                    trace.append(("sent", "unreadable"))
                    d = [str(e)]
                obs.expect(not d, lambda: f"a connection used next to others put a wrong request on the wire: {d}", "cross-talk")
                out = kind
            yield
        elif op < 0.85:
            want = None
            x = rng.random()
            if x < 0.6:
                data, want = device.gen_reply(rng, out, 60)
                w = device.reply_wire(c, ref.KIND_SERVICE[out], data, rng)
            elif x < 0.75:
                w = device.reply_wire(c, ref.KIND_SERVICE[out], bytes((rng.randrange(1, 256),)), rng)
            elif x < 0.85:
                k = rng.choice(device.KINDS)
                w = device.reply_wire(c, ref.KIND_SERVICE[k], device.gen_reply(rng, k, 30)[0], rng)
            elif x < 0.95:
                w = rng.randbytes(15) + b"\r"
            else:
                w = device.reply_wire(c, ref.KIND_SERVICE[out], device.gen_reply(rng, out, 30)[0], rng)[:-3]
            for p in device.split(rng, w):
                conn.receive_data(p)
                yield
            ev = guard(trace, obs, "event", conn.next_event)
            if ev is not None:
                trace.append(("event", text(ev)))
                if type(ev).__name__.endswith("Response"):
                    obs.count("delivered")
                    out = None
            yield
        elif op < 0.93:
            ev = guard(trace, obs, "event", conn.next_event)
            if ev is not None:
                trace.append(("event", text(ev)))
            yield
        else:  # another connection comes into being meanwhile
            device.make_connection(E, device.rand_config(rng))
            yield
    trace.append(("end", text(conn.password), conn.password_id, conn.source_address_1, conn.destination_address_1,
                  text(conn.encryption_key or b"")))


class SteppedTransport(device.MemoryTransport):
    """Gives the scheduler a chance inside a client call (threads only)."""

    def send(self, data):
        super().send(data)
        time.sleep(0)

    def recv(self):
        time.sleep(0)
        return super().recv()


def client_script(E, obs, seed, trace, shared):
    rng = random.Random(seed)
    c = {**device.rand_config(rng, addresses="client"), **{k: v for k, v in shared.items() if k not in ("src", "dst")}}
    objects = device.gen_objects(rng, rng.choice((1, 6)))
    sizes = [rng.choice((1, 2, 5)) for _ in range(50)]
    dev = device.SimDevice(c, rng, objects, page=lambda i, left: sizes[i % 50], max_payload=60)
    client = device.make_client(E, c, SteppedTransport(E, dev))
    client.connect()
    obs.count("clients")
    yield
    for _ in range(rng.randrange(4, 9)):
        kind = rng.choice(device.KINDS)
        method, kw = device.gen_call(rng, kind, len(objects))
        byte = rng.randrange(1, 256) if rng.random() < 0.2 else None
        dev.fault = (lambda k: ("error", byte)) if byte else None
        mark = len(dev.log)
        ok = []
        r = guard(trace, obs, method, lambda: (ok.append(1), device.do_call(E, client, method, kw), ok.append(2))[1])
        trace.append((method, text(r)))
        if len(ok) == 2:
            obs.count("delivered")
            d = device.check_call(c, dev, mark, kind, kw, r) if not byte else ["no error raised"]
            obs.expect(not d, lambda: f"a client used next to others: {method} {kw}: {d[:3]}", "cross-talk")
        elif not byte:
            obs.fail(f"a client used next to others: {method} {kw} failed with {trace[-2]}", "cross-talk")
        yield
    client.disconnect()
    trace.append(("end", text(sorted((str(f),) for f, *_ in dev.log))))


def parser_script(E, obs, seed, trace, shared):
    rng = random.Random(seed)
    parser = E["parser"].ScadaParameterParser()
    yield
    for _ in range(rng.randrange(4, 10)):
        objs = device.gen_objects(rng, rng.randrange(1, 5))
        data = b"".join(layouts.envelope(l.code, d) for l, d, _ in objs)
        if rng.random() < 0.2:
            data = data[: rng.randrange(1, len(data))]
        r = guard(trace, obs, "parse", parser.parse, data)
        trace.append(("parse", text(r)))
        yield


def codec_script(E, obs, seed, trace, shared):
    rng = random.Random(seed)
    key = rng.randbytes(16)
    kid = rng.randrange(1, 8)
    cipher = E["security"].CipherContext(key_id=device.key_id(E, kid), key=key)
    F = E["frames"]
    yield
    for _ in range(rng.randrange(6, 14)):
        x = rng.randrange(4)
        if x == 0:
            d = rng.randbytes(rng.randrange(60))
            e = guard(trace, obs, "encrypt", cipher.encrypt, d)
            trace.append(("encrypt", text(ref.decrypt(key, kid, bytes(e)))))
        elif x == 1:
            d = ref.encrypt(key, kid, rng.randbytes(rng.randrange(60)), rng)
            trace.append(("decrypt", text(guard(trace, obs, "decrypt", cipher.decrypt, d))))
        elif x == 2:
            f = ref.frame(rng.choice((ref.RESP, ref.REQ)), 0x64, rng.randbytes(20), (rng.randrange(65536), 3), (7, 8))
            cls = F.Response if f[2] == ref.RESP else F.Request
            trace.append(("frame", text(guard(trace, obs, "frame", cls.from_bytes, f))))
            trace.append(("escape", text(bytes(E["utils"].escape_characters(f)))))
        else:
            msg = c21.message(rng, range(4))
            r = guard(trace, obs, "call", E["application"].CallRequest.from_bytes, msg)
            trace.append(("call", text(r)))
        yield


SCRIPTS = (connection_script, connection_script, client_script, parser_script, codec_script)


def one_line(E, obs, rng):
    """Clients with the same settings, also on the same transport, have a conversation each."""
    c = device.rand_config(rng, addresses=False)
    tr = device.MemoryTransport(E, None)
    make = lambda: device.make_client(E, c, tr if rng.random() < 0.7 else device.MemoryTransport(E, None))
    clients = [make() for _ in range(rng.choice((2, 3)))]
    kinds = [rng.choice(device.KINDS) for _ in clients]
    wants = []
    for cl, kind in zip(clients, kinds):
        obs.eval()
        try:
            cl.elgas_connection.send(device.make_request(E, kind, device.gen_request(rng, kind, c["password"])))
        except Exception as e:
            obs.fail(f"a client's {kind} request is refused while another client, with the same settings, awaits an answer: {type(e).__name__}: {e}", "one-line")
    for cl, kind in zip(clients, kinds):
        data, want = device.gen_reply(rng, kind, 20)
        w = device.reply_wire(c, ref.KIND_SERVICE[kind], data, rng)
        n = rng.randrange(1, len(w))
        cl.elgas_connection.receive_data(w[:n])
        wants.append((cl, kind, want, w[n:]))
    for cl, kind, want, rest in rng.sample(wants, len(wants)):
        cl.elgas_connection.receive_data(rest)
        try:
            d = device.diff_reply(cl.elgas_connection.next_event(), kind, want)
        except Exception as e:
            d = f"{type(e).__name__}: {e}"
        obs.expect(not d, lambda: f"next to another client with the same settings, a client's {kind} answer gave {d}", "one-line")
    obs.count("same-settings", len(clients))


def run(case, obs):
    E = core.load_elgas()
    rng = random.Random(case["seed"])
    n = rng.choice((2, 2, 3, 4, 8))
    shared = {}
    if rng.random() < 0.5:  # the same settings everywhere except one
        base = device.rand_config(rng)
        keep = rng.sample(["password", "password_id", "src", "dst", "key"], 3)
        shared = {k: base[k] for k in keep if k != "key"}
        if "key" in keep:
            shared["key_id"] = rng.randrange(1, 8)
            shared["key"] = rng.choice((base["key"], rng.randbytes(16))) or rng.randbytes(16)
    same = rng.random() < 0.3
    scripts = []
    for i in range(n):
        over = dict(shared)
        if shared.get("key") and rng.random() < 0.5:
            # same key id, other key: unrelated, or different in one place only
            if rng.random() < 0.5:
                over["key"] = rng.randbytes(16)
            else:
                at = rng.choice((0, 7, 8, 15, rng.randrange(16)))
                near = bytearray(shared["key"])
                near[at] ^= 1 << rng.randrange(8)
                over["key"] = bytes(near)
        f = rng.choice(SCRIPTS) if not same else connection_script
        scripts.append((f, case["seed"] * 31 + (0 if same and rng.random() < 0.5 else i), over))
    if case["m"] == "mix":
        one_line(E, obs, rng)
    alone = []
    for f, s, over in scripts:
        trace = []
        for _ in f(E, obs, s, trace, over):
            pass
        alone.append(trace)
        obs.count("scripts")
    together = [[] for _ in scripts]
    if case["m"] == "mix":
        order = interleave(E, obs, rng, scripts, together)
        obs.count("interleavings")
        obs.seen(order)
    else:
        order = threads(E, obs, rng, scripts, together)
        obs.count("threaded-runs")
        obs.seen("thread", case["seed"], len(order))
    for (f, s, over), a, b in zip(scripts, alone, together):
        obs.eval()
        if a != b:
            i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
            obs.fail(
                f"{f.__name__} behaves differently next to {n - 1} others ({case['m']}): step {i} of {len(a)} is "
                f"{str(b[i:i + 1])[:300]}, alone {str(a[i:i + 1])[:300]}", "cross-talk",
            )
    obs.sample({"mode": case["m"], "scripts": [f.__name__ for f, _, _ in scripts], "order": str(order)[:80]}, 2)


def interleave(E, obs, rng, scripts, together):
    gens = {}
    waiting = list(range(len(scripts)))
    order = []
    last = None
    burst = rng.choice((1, 1, 2, 5))
    while waiting or gens:
        if waiting and (not gens or rng.random() < 0.2):
            i = waiting.pop(rng.randrange(len(waiting)))
            f, s, over = scripts[i]
            gens[i] = f(E, obs, s, together[i], over)
        i = rng.choice(list(gens))
        for _ in range(rng.randrange(1, burst + 1)):
            order.append(i)
            obs.count("steps")
            if i != last:
                obs.count("switches")
            last = i
            try:
                next(gens[i])
            except StopIteration:
                del gens[i]
                break
    return order


class Safe:
    """Observations from several threads."""

    def __init__(self, obs):
        self.obs, self.lock = obs, threading.Lock()

    def __getattr__(self, name):
        f = getattr(self.obs, name)
        if name in ("fail", "expect", "equal"):
            return f

        def locked(*a, **k):
            with self.lock:
                return f(*a, **k)

        return locked


def threads(E, obs, rng, scripts, together):
    safe = Safe(obs)
    start = threading.Barrier(len(scripts))
    errors = []
    order = []
    rate = rng.choice((0.002, 0.01, 0.05))
    yields = [0]

    def body(i):
        f, s, over = scripts[i]
        mine = random.Random(s * 7 + i)

        def local(frame, event, arg):
            if event == "line" and mine.random() < rate:
                yields[0] += 1
                if not order or order[-1] != i:
                    order.append(i)
                time.sleep(0)
            return local

        def tracer(frame, event, arg):
            return local if core.in_repo(frame.f_code.co_filename) else None

        try:
            start.wait(60)
            sys.settrace(tracer)
            for _ in f(E, safe, s, together[i], over):
                pass
        except BaseException as e:
            errors.append(e)
        finally:
            sys.settrace(None)

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(scripts))]
        for t in ts:
            t.start()
        for t in ts:
            t.join(80)
            if t.is_alive():
                raise core.Inconclusive("a script's thread did not end")
    finally:
        sys.setswitchinterval(old)
    if errors:
        raise errors[0]
    obs.count("yields", yields[0])
    obs.count("thread-switches-seen", len(order))
    return order
