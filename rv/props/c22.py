"""C22 whole client sessions against a simulated device."""
import datetime
import random

from rv import core, device, net, ref
from rv.props import c07

ID = "C22"
RULE = (
    "Random sessions of client operations against a simulated device, in memory, over loopback TCP and over a pseudo "
    "terminal, plain and encrypted, with stray end characters, arbitrary splits and delays, device errors, line noise, "
    "unexpected replies, lost replies and unencodable arguments mixed in; the device's own request log and the values "
    "it sent decide every call.  Distinct = distinct (transport, encrypted, last three operations and endings)."
)
MIN = {"calls-answered": 6000, "device-errors": 600, "encrypted-sessions": 150, "plain-sessions": 150, "link-failures": 300,
       "reconnects": 300, "bad-arguments": 250, "tcp-sessions": 24, "pty-sessions": 24, "noise-survived": 300,
       "after-device-error": 500, "param-pages": 800, "same-call-again": 1000}


def gen(ctx):
    for s in ctx.seeds("mem", 480, 9000):
        yield {"m": "mem", "len": 20, "seed": s}
    for s in ctx.seeds("long", 8, 80):
        yield {"m": "mem", "len": 200, "seed": s}
    for s in ctx.seeds("tcp", 32, 400):
        yield {"m": "tcp", "len": 15, "seed": s}
    for s in ctx.seeds("pty", 32, 400):
        yield {"m": "pty", "len": 15, "seed": s}


class Session:
    def __init__(self, E, obs, rng, m):
        self.E, self.obs, self.rng, self.m = E, obs, rng, m
        self.c = device.rand_config(rng, addresses="client")
        # the request is addressed to everybody (0, 0); the device answers with its own address
        self.c["own"] = rng.choice(((0, 0), (rng.randrange(65536), rng.randrange(256)), (13, 13), (0x1B0D, 0x8D)))
        self.objects = device.gen_objects(rng, rng.choice((1, 3, 12)))
        self.dev = device.SimDevice(
            self.c, rng, self.objects, page=lambda i, left: rng.choice((1, 2, left)), max_payload=rng.choice((10, 80, 600))
        )
        self.peer = self.stop = None
        if m == "mem":
            self.tr = device.MemoryTransport(E, self.dev)
        else:
            self.peer = net.TcpPeer() if m == "tcp" else net.PtyPeer()
            self.tr = self.peer.transport(E, 20)
        self.client = device.make_client(E, self.c, self.tr)
        self.history = []
        self.last = None

    def connect(self):
        self.client.connect()
        if self.peer:
            if self.m == "tcp":
                self.peer.hang_up()
                self.peer.accept()
            else:
                self.peer.pending()
            import time

            delay = (lambda: time.sleep(self.rng.choice((0, 0, 0.0003, 0.002)))) if self.rng.random() < 0.5 else None
            self.stop = net.serve(self.peer, self.dev, delay)

    def disconnect(self):
        if self.stop:
            self.stop()
            self.stop = None
        try:
            self.client.disconnect()
        except self.E["exceptions"].CommunicationError:
            pass

    def close(self):
        if self.stop:
            self.stop()
        if self.peer:
            self.peer.close()

    # -- one operation each

    def fault(self, kind):
        """(name, device fault or None) for the next request(s)."""
        rng = self.rng
        x = rng.random()
        if x < 0.62:
            return "none", None
        if x < 0.77:
            byte = rng.randrange(1, 256)
            page = rng.choice((1, 1, 2)) if kind == "params" else 1
            count = [0]

            def error(k):
                count[0] += 1
                return ("error", byte) if count[0] == page else None

            return ("error", byte, page), error
        if x < 0.84:
            n = rng.randrange(1, 4)
            return "noise", lambda k: ("raw", lambda w: [self.noise(w) for _ in range(n)] + device.split(rng, w))
        if self.m == "mem" or x < 0.87:
            other = rng.choice([k for k in device.KINDS if k != kind])

            def unexpected(k):
                data = device.gen_reply(rng, other, 30)[0]
                return ("raw", lambda w: [device.reply_wire(self.c, ref.KIND_SERVICE[other], data, rng)])

            if x < 0.89:
                return "unexpected", unexpected
            if x < 0.92:
                return "lost", lambda k: ("raw", lambda w: [])
            if x < 0.96:
                return "half", lambda k: ("raw", lambda w: [w[: rng.randrange(1, len(w))]])
            return "bad-argument", None
        return "none", None

    def noise(self, w):
        rng = self.rng
        x = rng.randrange(3)
        if x == 0:
            return rng.randbytes(rng.randrange(1, 40)).replace(b"\r", b"x") + b"\r"
        if x == 1:
            i = rng.randrange(len(w) - 1)
            v = rng.choice([v for v in range(256) if v not in (w[i], 13)])
            bad = w[:i] + bytes((v,)) + w[i + 1:]
            return bad if not decodes(self.c, bad) else b"\r"
        bad = w[: rng.randrange(1, len(w))].replace(b"\r", b"") + b"\r"
        return bad if not decodes(self.c, bad) else b"\r"

    def op(self):
        E, obs, rng, dev = self.E, self.obs, self.rng, self.dev
        kind = rng.choice(device.KINDS)
        method, kw = device.gen_call(rng, kind, len(self.objects))
        if self.last and rng.random() < 0.2:  # the very same call once more
            kind, method, kw = self.last[0], self.last[1], dict(self.last[2])
            obs.count("same-call-again")
        self.last = (kind, method, dict(kw))
        name, dev.fault = self.fault(kind)
        if name == "bad-argument":
            bad = {"amount": 65536, "oldest_record_id": 2**32, "read_from": 65536, "device_time": datetime.datetime(2100, 1, 1)}
            keys = [k for k in kw if k in bad]
            if keys:
                k = rng.choice(keys)
                kw[k] = bad[k]
            else:
                name = "none"
        if dev.fault and name == "noise":
            # the noisy answer is recorded by the device as an ordinary one
            raw = dev.fault
            dev.fault = None
            dev.before = raw
        mark, sent = len(dev.log), len(self.tr.sent) if self.m == "mem" else 0
        what = f"{method}({kw}) in a {'encrypted' if self.c['key'] else 'plain'} session over {self.m}, {name}, after {self.history[-3:]}"
        obs.eval()
        error = result = None
        try:
            result = device.do_call(E, self.client, method, kw)
        except (core.Violation, core.CaseTimeout):
            raise
        except Exception as e:
            error = e
        dev.before = None
        log = dev.log[mark:]
        self.history.append((method, name if isinstance(name, str) else name[0], "error" if error else "ok"))
        obs.seen(self.m, bool(self.c["key"]), *self.history[-3:])
        if name in ("none", "noise") or (isinstance(name, tuple) and name[2] > len(log)):
            if error:
                obs.fail(f"{what}: raised {type(error).__name__}: {error}", "answer-lost")
            d = device.check_call(self.c, dev, mark, kind, kw, result)
            obs.expect(not d, lambda: f"{what}: {d[:4]}", "wrong-answer")
            obs.count("calls-answered")
            if kind == "params":
                obs.count("param-pages", len(log))
            if name == "noise":
                obs.count("noise-survived")
            if self.history[-2:-1] and self.history[-2][1] == "error":
                obs.count("after-device-error")
        elif name == "bad-argument":
            obs.expect(error is not None, lambda: f"{what}: no error for an argument that does not fit", "no-error")
            obs.expect(not log and not dev.bad, f"{what}: a request was sent although its argument does not fit", "sent")
            obs.count("bad-arguments")
        else:
            obs.expect(error is not None, lambda: f"{what}: returned {result!r:.200} although the device did not answer so", "invented-answer")
            want = 1 if not isinstance(name, tuple) else name[2]
            obs.expect(len(log) == want, f"{what}: {len(log)} requests reached the device", "duplicate-request")
            obs.expect(not dev.bad, lambda: f"{what}: unreadable request {dev.bad}", "bad-request")
            if isinstance(name, tuple):
                c07.judge_exception(obs, E, error, name[1], what)
                obs.count("device-errors")
                if rng.random() < 0.8:
                    return  # without reconnecting
            else:
                obs.expect(isinstance(error, (E["exceptions"].CommunicationError, E["exceptions"].ElgasError, E["exceptions"].LocalElgasProtocolError)),
                           lambda: f"{what}: raised {type(error).__name__}: {error}", "foreign-exception")
                obs.count("link-failures")
            self.disconnect()
            self.connect()
            obs.count("reconnects")
        if self.m == "mem":
            n = len(self.tr.sent) - sent
            obs.expect(n == len(log), f"{what}: {n} sends for {len(log)} requests", "duplicate-request")


def decodes(c, wire):
    try:
        ref.parse_frame(ref.unescape(wire))
    except ref.BadFrame:
        return False
    return True




def run(case, obs):
    E = core.load_elgas()
    rng = random.Random(case["seed"])
    s = Session(E, obs, rng, case["m"])
    s.dev.before = None
    plain_deliver = s.dev.deliver

    def deliver(w):
        if s.dev.before:
            return s.dev.before(None)[1](w)
        return plain_deliver(w)

    s.dev.deliver = deliver
    if case["m"] != "mem":
        obs.count(case["m"] + "-sessions")
        s.tr.timeout = 20
    obs.count("encrypted-sessions" if s.c["key"] else "plain-sessions")
    try:
        s.connect()
        for _ in range(case["len"]):
            s.op()
        s.disconnect()
        obs.sample({"transport": case["m"], "encrypted": bool(s.c["key"]), "history": s.history[:8]}, 2)
    finally:
        s.close()
