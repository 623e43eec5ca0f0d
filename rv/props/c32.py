"""C32 a client that runs for years does not grow."""
import gc
import os
import random
import threading
import tracemalloc

from rv import core, device, layouts, net, ref

ID = "C32"
SCALE = 4
RULE = (
    "Thousands of operations of one kind (good and failing exchanges, noise, reconnections, decoding, parsing, schema "
    "loads, real TCP lines) run in one process under tracemalloc; memory held after collection, file descriptors and "
    "threads must not grow with the number of operations.  Growth is only reported when it continues over 2000 further "
    "operations, so bounded caches pass.  Distinct = distinct (workload, configuration)."
)
MIN = {"operations": 30000, "windows": 100, "workloads": 50, "descriptors-counted": 50, "answered": 8000,
       "device-errors": 3000, "failed": 1200, "decoded": 4000, "refused": 1500}
CASE_ALARM_S = 240.0
WORK = ("good", "errors", "noise", "silence", "reconnect", "bad-argument", "glued", "mixed", "new-client", "call",
        "parse", "bad-parse", "schema", "bad-schema", "tcp", "tcp-reconnect", "tcp-timeout", "cipher",
        "noise-only", "frames-only", "mismatch-only", "unanswered",
        "fresh-client", "fresh-call", "fresh-parse", "fresh-schema", "fresh-cipher", "fresh-noise", "fresh-arguments")
LIMIT = 4  # bytes per operation (one pointer in a list is 8)


def gen(ctx):
    i = 0
    for rep in range(4 if ctx.tier == "quick" else 20):
        for w in WORK:
            if i % ctx.nshards == ctx.shard:
                yield {"w": w, "enc": rep % 2, "seed": ctx.seed * 6151 + i}
            i += 1


def fds():
    return len(os.listdir("/proc/self/fd"))


def run(case, obs):
    E = core.load_elgas()
    rng = random.Random(case["seed"])
    w = case["w"]
    counts = dict.fromkeys(("answered", "device-errors", "failed", "decoded", "refused"), 0)
    step, close, weight = workload(E, rng, case, counts)
    made = [0]

    def many(n):
        for _ in range(n):
            step()
            made[0] += 1
        gc.collect()
        obs.count("operations", n)
        obs.count("windows")
        return tracemalloc.get_traced_memory()[0], fds(), threading.active_count()

    tracemalloc.start()
    try:
        a = many(200 // weight + 20)
        n = 600 // weight
        b = many(n)
        obs.eval()
        obs.count("workloads")
        obs.count("descriptors-counted")
        obs.seen(w, case["enc"], case["seed"])
        obs.maximum("growth-bytes-per-1000-operations", int(max(0, b[0] - a[0]) * 1000 / n))
        if b[0] - a[0] > LIMIT * n + 4096 or b[1] > a[1] or b[2] > a[2]:
            many((6000 if w.startswith("fresh") else 2000) // weight)  # caches of bounded size fill
            c = many(10)
            n = 2000 // weight
            d = many(n)
            if d[0] - c[0] > LIMIT * n + 4096:
                c = d  # once more: one table somewhere may have doubled
                d = many(n)
            obs.expect(d[0] - c[0] <= LIMIT * n + 4096,
                       lambda: f"{w} ({'encrypted' if case['enc'] else 'plain'}): after {made[0]} operations memory still grows, "
                               f"by {(d[0] - c[0]) / n:.0f} bytes per operation", "grows")
            obs.expect(d[1] <= c[1] or c[1] <= a[1], lambda: f"{w}: open descriptors grew {a[1]}, {b[1]}, {c[1]}, {d[1]}", "descriptors")
            obs.expect(d[2] <= c[2] or c[2] <= a[2], lambda: f"{w}: threads grew {a[2]}, {b[2]}, {c[2]}, {d[2]}", "threads")
            obs.count("second-look")
    finally:
        tracemalloc.stop()
        close()
        for k, n in counts.items():
            obs.count(k, n)
    obs.sample({"workload": w, "enc": case["enc"], "growth": b[0] - a[0]}, 4)


def workload(E, rng, case, counts):
    """(one operation, close, how many ordinary operations one of them costs)."""
    w = case["w"]
    if w.startswith("tcp"):
        return tcp_workload(E, rng, w)
    if w.startswith("fresh"):
        return fresh_workload(E, rng, w, case, counts)
    if w in ("noise-only", "frames-only", "mismatch-only", "unanswered"):
        return connection_workload(E, rng, w, case)
    if w in ("parse", "bad-parse", "schema", "bad-schema", "call", "cipher"):
        return decode_workload(E, rng, w, counts)
    c = device.rand_config(rng, encrypted=bool(case["enc"]), addresses="client")
    objects = device.gen_objects(rng, 2)
    dev = device.SimDevice(c, rng, objects, max_payload=60)
    tr = device.MemoryTransport(E, dev)
    # the operations repeat, so that whatever is kept once per distinct value is seen in the first round
    calls = [device.gen_call(rng, k, 2) for k in device.KINDS for _ in range(2)]
    state = {"client": device.make_client(E, c, tr)}
    state["client"].connect()
    noise = rng.randbytes(60).replace(b"\r", b"x") + b"\r"

    def fault(kind):
        f = w if w != "mixed" else rng.choice(("good", "errors", "noise", "silence", "glued"))
        if f == "errors":
            return "error", rng.choice((1, 2, 4, 8, 16, 32, 64, 128, 3))
        if f == "noise":
            return "raw", lambda x: [noise, x]
        if f == "silence":
            return "raw", lambda x: [x[: rng.randrange(1, len(x) - 1)]]
        if f == "glued":
            return "raw", lambda x: [noise * 3 + x + x[: len(x) // 2]]
        return None

    dev.fault = fault

    def step():
        client = state["client"]
        method, kw = rng.choice(calls)
        if w == "bad-argument":
            kw = dict(kw)
            for k in ("amount", "oldest_record_id", "read_from"):
                if k in kw:
                    kw[k] = 2**40
        try:
            device.do_call(E, client, method, kw)
            counts["answered"] += 1
        except (core.Violation, core.CaseTimeout):
            raise
        except Exception as e:
            if isinstance(e, E["exceptions"].ElgasError):
                counts["device-errors"] += 1
            else:
                counts["failed"] += 1
            client.disconnect()
            client.connect()
        if w == "reconnect":
            client.disconnect()
            client.connect()
        elif w == "new-client":
            state["client"] = device.make_client(E, c, tr)
            state["client"].connect()
        del dev.log[:], dev.bad[:], tr.sent[:]
        tr.recv_calls = 0

    return step, lambda: None, 1


def connection_workload(E, rng, w, case):
    """One connection that never sees its answer."""
    c = device.rand_config(rng, encrypted=bool(case["enc"]))
    conn = device.make_connection(E, c)
    pieces = [rng.randbytes(rng.randrange(1, 60)).replace(b"\r", b"x") + b"\r" for _ in range(6)]
    if w == "frames-only":  # intact frames that cannot be used
        pieces = [device.reply_wire(c, 0x55, b"abcdef", rng), ref.wire(ref.REQ, 0x6C, b"", c["src"], c["dst"]),
                  device.reply_wire(c, 0x6C, b"", rng)[:-3] + b"\r"]
    kind = rng.choice(device.KINDS)
    other = rng.choice([k for k in device.KINDS if k != kind])
    requests = [device.make_request(E, kind, device.gen_request(rng, kind, c["password"])) for _ in range(3)]
    wrong = [device.reply_wire(c, ref.KIND_SERVICE[other], device.gen_reply(rng, other, 30)[0], rng) for _ in range(3)]
    if w in ("noise-only", "frames-only"):
        conn.send(requests[0])

    def poll():
        for _ in range(50):
            try:
                if conn.next_event() is E["state"].NEED_DATA:
                    return
            except (core.CaseTimeout, core.Violation):
                raise
            except Exception:
                pass

    def step():
        if w in ("noise-only", "frames-only"):
            conn.receive_data(rng.choice(pieces))
            poll()
        else:
            conn.reset()
            conn.send(rng.choice(requests))
            if w == "mismatch-only":
                conn.receive_data(rng.choice(wrong))
                poll()

    return step, lambda: None, 1


def decode_workload(E, rng, w, counts):
    from rv.props import c21

    A, F = E["application"], E["parameters.factory"]
    recs = [(lay, *layouts.gen_record(rng, lay)) for lay in layouts.DECODABLE]
    P = E["parser"].ScadaParameterParser
    types = E["parameters.enumerations"].ParameterObjectType
    if w == "call":
        protocols = range(4)
        msgs = [c21.message(rng, protocols) for _ in range(20)]
        msgs += [rng.randbytes(rng.randrange(141)) for _ in range(10)]

        def step():
            try:
                A.CallRequest.from_bytes(rng.choice(msgs))
                counts["decoded"] += 1
            except (core.CaseTimeout, core.Violation):
                raise
            except Exception:
                counts["refused"] += 1
    elif w in ("parse", "bad-parse"):
        streams = [b"".join(layouts.envelope(l.code, d) for l, d, _ in rng.sample(recs, 3)) for _ in range(20)]
        if w == "bad-parse":
            streams = [s[:-1] for s in streams] + [rng.randbytes(50) for _ in range(10)]
        shared = P()

        def step():
            try:
                (shared if rng.random() < 0.5 else P()).parse(rng.choice(streams))
                counts["decoded"] += 1
            except (core.CaseTimeout, core.Violation):
                raise
            except Exception:
                counts["refused"] += 1
    elif w in ("schema", "bad-schema"):
        items = []
        for lay, data, _ in rng.sample(recs, 12):
            t = types(lay.code)
            schema = F.ParameterSchemaFactory.by_parameter_id(t)
            dumped = schema().dump(F.ParameterFactory.from_bytes(t, data))
            if w == "bad-schema":
                dumped.pop(sorted(dumped)[0])
            items.append((schema, dumped))

        def step():
            schema, dumped = rng.choice(items)
            try:
                schema().dump(schema().load(dumped))
                counts["decoded"] += 1
            except (core.CaseTimeout, core.Violation):
                raise
            except Exception:
                counts["refused"] += 1
        return step, lambda: None, 4
    else:
        S = E["security"]
        payloads = [rng.randbytes(rng.randrange(60)) for _ in range(10)]
        keys = [rng.randbytes(16) for _ in range(5)]

        def step():
            ctx = S.CipherContext(device.key_id(E, rng.randrange(1, 8)), rng.choice(keys))
            x = ctx.encrypt(rng.choice(payloads))
            try:
                ctx.decrypt(x if rng.random() < 0.5 else x[:-1] + b"x")
            except ValueError:
                pass
    return step, lambda: None, 1


def fresh_workload(E, rng, w, case, counts):
    """Operations on values that were never used before."""
    from rv.props import c21

    if w == "fresh-client":
        def step():
            c = device.rand_config(rng, encrypted=bool(case["enc"]), addresses="client")
            dev = device.SimDevice(c, rng, device.gen_objects(rng, 2), max_payload=60)
            client = device.make_client(E, c, device.MemoryTransport(E, dev))
            client.connect()
            for _ in range(2):
                method, kw = device.gen_call(rng, rng.choice(device.KINDS), 2)
                if rng.random() < 0.2:
                    kw = {k: 2**40 + rng.randrange(2**40) if k in ("amount", "oldest_record_id", "read_from") else v for k, v in kw.items()}
                if rng.random() < 0.2:
                    dev.fault = lambda kind: ("error", rng.choice((1, 2, 4, 8, 16, 32, 64, 128)))
                try:
                    device.do_call(E, client, method, kw)
                    counts["answered"] += 1
                except (core.Violation, core.CaseTimeout):
                    raise
                except Exception:
                    counts["failed"] += 1
            client.disconnect()

        return step, lambda: None, 3
    if w == "fresh-arguments":  # one client that asks for something else every time
        c = device.rand_config(rng, encrypted=bool(case["enc"]), addresses="client")
        tr = device.MemoryTransport(E, device.SimDevice(c, rng, device.gen_objects(rng, 2), max_payload=60))
        client = device.make_client(E, c, tr)
        client.connect()

        def step():
            if rng.random() < 0.1:
                client.disconnect()
                client.connect()
            device.do_call(E, client, *device.gen_call(rng, rng.choice(("archive", "archive_by_time", "write_time", "params")), 2))
            counts["answered"] += 1
            del tr.device.log[:], tr.device.bad[:], tr.sent[:]
            tr.recv_calls = 0

        return step, lambda: None, 1
    if w == "fresh-noise":
        c = device.rand_config(rng, encrypted=bool(case["enc"]))
        conn = device.make_connection(E, c)
        conn.send(device.make_request(E, "time", device.gen_request(rng, "time", c["password"])))

        def step():
            conn.receive_data(rng.choice((
                lambda: rng.randbytes(rng.randrange(40)).replace(b"\r", b"x") + b"\r",
                lambda: device.reply_wire(c, 0x55, rng.randbytes(rng.randrange(2, 30)), rng),
                lambda: ref.wire(ref.REQ, 0x6C, rng.randbytes(6), c["src"], c["dst"]),
            ))())
            for _ in range(50):
                try:
                    if conn.next_event() is E["state"].NEED_DATA:
                        break
                except (core.CaseTimeout, core.Violation):
                    raise
                except Exception:
                    pass

        return step, lambda: None, 1
    A, F = E["application"], E["parameters.factory"]
    types = E["parameters.enumerations"].ParameterObjectType

    def step():
        try:
            if w == "fresh-call":
                A.CallRequest.from_bytes(c21.message(rng, range(4)) if rng.random() < 0.8 else rng.randbytes(rng.randrange(141)))
            elif w == "fresh-cipher":
                S = E["security"]
                ctx = S.CipherContext(device.key_id(E, rng.randrange(1, 8)), rng.randbytes(16))
                ctx.decrypt(ctx.encrypt(rng.randbytes(rng.randrange(60))) + rng.choice((b"", b"x")))
            else:
                lay = rng.choice(layouts.DECODABLE)
                data = layouts.gen_record(rng, lay)[0]
                if w == "fresh-parse":
                    E["parser"].ScadaParameterParser().parse(layouts.envelope(lay.code, data) + rng.choice((b"", b"", b"x")))
                else:
                    t = types(lay.code)
                    schema = F.ParameterSchemaFactory.by_parameter_id(t)
                    dumped = schema().dump(F.ParameterFactory.from_bytes(t, data))
                    if rng.random() < 0.3:
                        dumped["surplus %d" % rng.getrandbits(60)] = rng.getrandbits(60)
                    schema().load(dumped)
            counts["decoded"] += 1
        except (core.CaseTimeout, core.Violation):
            raise
        except Exception:
            counts["refused"] += 1

    return step, lambda: None, 3 if w == "fresh-schema" else 1


def tcp_workload(E, rng, w):
    peer = net.TcpPeer()
    tr = peer.transport(E, 0.001 if w == "tcp-timeout" else 10)
    comm = E["exceptions"].CommunicationError
    lines = [rng.randbytes(n).replace(b"\r", b"x") + b"\r" for n in (0, 5, 40, 100)]

    def open_():
        tr.timeout = 10
        tr.connect()
        peer.hang_up()
        peer.accept()

    open_()

    def step():
        line = rng.choice(lines)
        tr.send(line)
        if peer.read(len(line)) != line:
            raise core.Violation("bytes sent did not arrive", "send")
        peer.write(line)
        if tr.recv() != line:
            raise core.Violation("bytes received differ", "recv")
        if w != "tcp":
            if w == "tcp-timeout":
                peer.write(b"part")
                peer.hang_up()
                try:
                    tr.recv()
                except comm:
                    pass
            tr.disconnect()
            open_()

    def close():
        try:
            tr.disconnect()
        finally:
            peer.close()

    return step, close, 1 if w == "tcp" else 2
