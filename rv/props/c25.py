"""C25 a reconnected client starts clean, whatever went wrong before."""
import random

from rv import core, device, net, ref

ID = "C25"
LEVEL = "fault_enumeration"
RULE = (
    "Every combination of failing operation, failure kind (silence, link error while sending or receiving, partial "
    "reply cut at every byte, corrupt, undecodable, unexpected, wrongly encrypted and error replies, glued and late "
    "replies, unencodable arguments, failing disconnect or connect) and following operation is run through a client in "
    "memory, over TCP and over a pseudo terminal; after disconnect and connect the following operations must be "
    "answered exactly.  Distinct = distinct (transport, failures, following operations, cut position)."
)
MIN = {"reconnected-clean": 2500, "failures": 2500, "other-failure": 800, "partial": 600, "late-reply": 200, "link-error": 200,
       "tcp": 24, "pty": 24, "several-failures": 200, "connect-failed": 60, "disconnect-failed": 60, "next-ops": 5000, "late-after-disconnect": 80, "answer-behind": 60}
CASE_ALARM_S = 60.0

FAILURES = ("silence", "partial", "corrupt", "unexpected", "other-key", "malformed", "device-error", "send-error",
            "recv-error", "late-reply", "late-other-reply", "glued", "encrypt-mismatch", "bad-argument", "interrupted", "noise-tail",
            "answer-behind")


def gen(ctx):
    i = 0
    for f in FAILURES:
        for kind in device.KINDS:
            for nxt in device.KINDS:
                if i % ctx.nshards == ctx.shard:
                    yield {"m": "mem", "fail": [f], "kind": kind, "next": nxt, "seed": ctx.seed * 7919 + i}
                i += 1
    for s in ctx.seeds("cut", 640, 12000):
        yield {"m": "mem", "fail": ["partial"], "kind": None, "next": None, "seed": s, "cut": s}
    for s in ctx.seeds("more", 560, 12000):
        rng = random.Random(s)
        yield {"m": "mem", "fail": [rng.choice(FAILURES) for _ in range(rng.randrange(1, 5))], "kind": None, "next": None, "seed": s}
    for s in ctx.seeds("real", 72, 900):
        rng = random.Random(s)
        yield {"m": ("tcp", "pty")[s % 2], "fail": [rng.choice(("partial", "silence", "corrupt", "unexpected", "device-error", "late-reply", "noise-tail", "answer-behind", "answer-behind"))],
               "kind": None, "next": None, "seed": s}


class Trouble:
    """The device's and link's misbehaviour for one operation."""

    def __init__(self, E, obs, rng, c, dev, tr, cut):
        self.E, self.obs, self.rng, self.c, self.dev, self.tr, self.cut = E, obs, rng, c, dev, tr, cut

    def plan(self, failure, kind):
        rng, c, dev, tr, E = self.rng, self.c, self.dev, self.tr, self.E
        other = rng.choice([k for k in device.KINDS if k != kind])
        comm = E["exceptions"].CommunicationError

        def raw(fn):
            dev.fault = lambda k: ("raw", fn)

        def reply(k):
            return device.reply_wire(c, ref.KIND_SERVICE[k], device.gen_reply(rng, k, 40)[0], rng)

        if failure == "silence":
            raw(lambda w: [])
        elif failure in ("partial", "late-reply"):
            def part(w):
                n = self.cut % len(w) if self.cut is not None else rng.randrange(1, len(w))
                self.rest = w[n:]
                return device.split(rng, w[:n]) if n else []
            raw(part)
        elif failure == "corrupt":
            def bad(w):
                i = rng.randrange(len(w) - 1)
                v = rng.choice([v for v in range(256) if v not in (w[i], 13)])
                x = w[:i] + bytes((v,)) + w[i + 1:]
                try:
                    ref.parse_frame(ref.unescape(x))
                    return []
                except ref.BadFrame:
                    return [x]
            raw(bad)
        elif failure in ("unexpected", "late-other-reply"):
            raw(lambda w: [reply(other)])
        elif failure == "other-key":
            o = {**c, "key": rng.randbytes(16), "key_id": rng.randrange(1, 8)}
            raw(lambda w: [device.reply_wire(o, ref.KIND_SERVICE[kind], rng.randbytes(30), rng, encrypted=True)])
        elif failure == "answer-behind":  # both in one delivery: the answer stays behind what ended the exchange
            first = reply(other) if rng.random() < 0.6 else device.reply_wire(c, ref.KIND_SERVICE[kind], bytes((rng.randrange(1, 256),)), rng)
            raw(lambda w: [first + w * rng.choice((1, 1, 3))])
        elif failure == "encrypt-mismatch":
            raw(lambda w: [device.reply_wire(c, 0x64, rng.randbytes(16), rng, encrypted=False)])
        elif failure == "malformed":  # an intact frame whose data makes no sense
            raw(lambda w: [device.reply_wire(c, ref.KIND_SERVICE[kind], rng.choice((b"", b"\xff" * rng.randrange(2, 9))), rng)])
        elif failure == "device-error":
            dev.fault = lambda k: ("error", rng.randrange(1, 256))
        elif failure == "send-error":
            def send(data):
                if rng.random() < 0.5:
                    type(tr).send(tr, data)  # the request got out all the same
                raise comm("link down")
            tr.send = send
        elif failure == "recv-error":
            raw(lambda w: [w[: rng.randrange(len(w))], comm("reset"), w])
        elif failure == "glued":
            raw(lambda w: [w[: rng.randrange(1, len(w))] + b"\r" + w[: rng.randrange(1, len(w))]])
        elif failure == "noise-tail":
            big = rng.choice((30, 30, 5000))
            raw(lambda w: [rng.randbytes(9).replace(b"\r", b"x") + b"\r", rng.randbytes(rng.randrange(1, big)).replace(b"\r", b"x")])
        elif failure == "interrupted":
            raw(lambda w: [w[: rng.randrange(len(w))], KeyboardInterrupt()])


def run(case, obs):
    E = core.load_elgas()
    rng = random.Random(case["seed"])
    comm = E["exceptions"].CommunicationError
    c = device.rand_config(rng, addresses="client")
    objects = device.gen_objects(rng, 4)
    dev = device.SimDevice(c, rng, objects, page=lambda i, left: rng.choice((1, left)), max_payload=rng.choice((60, 60, 4000)))
    m = case["m"]
    peer = stop = None
    if m == "mem":
        tr = device.MemoryTransport(E, dev)
    else:
        peer = net.TcpPeer() if m == "tcp" else net.PtyPeer()
        tr = peer.transport(E, 20)
        obs.count(m)
    client = device.make_client(E, c, tr)
    trouble = Trouble(E, obs, rng, c, dev, tr, case.get("cut"))

    def connect():
        nonlocal stop
        client.connect()
        if peer:
            if m == "tcp":
                peer.hang_up()
                peer.accept()
            else:
                peer.pending()
            stop = net.serve(peer, dev)

    try:
        connect()
        obs.seen(m, case["fail"], case["kind"], case["next"], case.get("cut"))
        for _ in range(rng.choice((0, 1))):
            good(E, obs, rng, c, dev, client, objects, rng.choice(device.KINDS), "before any failure")
        done = []
        for failure in case["fail"]:
            kind = case["kind"] or rng.choice(device.KINDS)
            trouble.plan(failure, kind)
            method, kw = device.gen_call(rng, kind, len(objects))
            if failure == "bad-argument":
                for k in ("amount", "oldest_record_id", "read_from"):
                    if k in kw:
                        kw[k] = 2**40
                if "device_time" in kw:
                    kw["device_time"] = kw["device_time"].replace(year=1980)
            if peer:
                tr.timeout = 0.15
                client.disconnect()
                stop()
                connect()
                mark_fault = dev.fault
                dev.fault = mark_fault
            try:
                device.do_call(E, client, method, kw)
            except (core.Violation, core.CaseTimeout):
                raise
            except KeyboardInterrupt:
                pass
            except Exception:
                pass
            vars(tr).pop("send", None) if m == "mem" else None
            dev.fault = None
            if m == "mem":
                if failure == "late-reply":
                    client.elgas_connection.receive_data(getattr(trouble, "rest", b""))
                    obs.count("late-reply")
                elif failure == "late-other-reply":
                    k = rng.choice(device.KINDS)
                    client.elgas_connection.receive_data(
                        device.reply_wire(c, ref.KIND_SERVICE[k], device.gen_reply(rng, k, 40)[0], rng)[: rng.choice((7, 10**6))])
                    obs.count("late-reply")
                tr.inbox.append(b"left over\r")
            elif failure == "late-reply" and getattr(trouble, "rest", None):
                peer.write(trouble.rest)
            obs.count("failures")
            obs.count("kind:" + failure)
            obs.count({"partial": "partial", "send-error": "link-error", "recv-error": "link-error"}.get(failure, "other-failure"))
            done.append((method, failure))
            if stop:
                stop()
                stop = None
            # disconnecting and connecting may fail as well, before it works
            if m == "mem" and rng.random() < 0.15:
                def bad_disconnect():
                    type(tr).disconnect(tr)
                    raise comm("shutdown failed")
                tr.disconnect = bad_disconnect
                try:
                    client.disconnect()
                except comm:
                    obs.count("disconnect-failed")
                del tr.disconnect
            else:
                try:
                    client.disconnect()
                except comm:
                    pass
            if m == "mem" and "late" in failure and rng.random() < 0.5:
                client.elgas_connection.receive_data(rng.choice((getattr(trouble, "rest", b"x"), b"\r\x02\xfe", rng.randbytes(20), rng.randbytes(9000))))
                obs.count("late-after-disconnect")
            elif m == "mem" and rng.random() < 0.2:  # read by the application on its own, waiting or not
                k = rng.choice((kind, rng.choice(device.KINDS)))
                w = device.reply_wire(c, ref.KIND_SERVICE[k], device.gen_reply(rng, k, 40)[0], rng)
                client.elgas_connection.receive_data(rng.choice((w, w[: rng.randrange(1, len(w))], rng.randbytes(20))))
                obs.count("read-by-application")
            if m == "mem" and rng.random() < 0.15:
                def bad_connect():
                    raise comm("no answer")
                tr.connect = bad_connect
                try:
                    client.connect()
                except comm:
                    obs.count("connect-failed")
                del tr.connect
            if peer:
                tr.timeout = 20
            connect()
            kinds = [case["next"]] if case["next"] else []
            kinds += [rng.choice(device.KINDS) for _ in range(rng.choice((1, 2)))]
            if failure == "answer-behind":
                kinds = [kind] * rng.choice((1, 2)) + kinds
                obs.count("answer-behind")
            elif len(case["fail"]) > 1 and rng.random() < 0.4:
                kinds = []  # straight into the next failure
            for k in kinds:
                good(E, obs, rng, c, dev, client, objects, k, f"after {done[-3:]} and reconnecting over {m}")
            obs.count("reconnected-clean")
        if len(case["fail"]) > 1:
            obs.count("several-failures")
        good(E, obs, rng, c, dev, client, objects, rng.choice(device.KINDS), f"at the end, after {done}")
        obs.sample({"transport": m, "failures": done}, 3)
    finally:
        if stop:
            stop()
        if peer:
            peer.close()


def good(E, obs, rng, c, dev, client, objects, kind, when):
    method, kw = device.gen_call(rng, kind, len(objects))
    mark = len(dev.log)
    del dev.bad[:]
    obs.eval()
    try:
        r = device.do_call(E, client, method, kw)
    except (core.Violation, core.CaseTimeout):
        raise
    except Exception as e:
        obs.fail(f"{method} {when} ({'encrypted' if c['key'] else 'plain'}) raised {type(e).__name__}: {e}", "not-clean")
    d = device.check_call(c, dev, mark, kind, kw, r)
    obs.expect(not d, lambda: f"{method} {when}: {d[:3]}", "not-clean")
    obs.count("next-ops")
