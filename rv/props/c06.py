"""C06 query/response discipline against a one-outstanding-request model."""
import datetime
import random

from rv import core, device, ref

ID = "C06"
SCALE = 12
RULE = (
    "Histories of sends (encodable or not), matching, mismatching and unsolicited responses are run on one "
    "connection and compared step by step with the model 'at most one outstanding request'.  All request x response "
    "pairs are enumerated; distinct = distinct (model state, operation) sequences."
)
MIN = {
    "sent": 2000, "delivered": 2000, "send-refused": 1000, "response-refused": 1500,
    "unsolicited-refused": 500, "unencodable": 500, "pairs": 72, "trailing": 400, "device-error": 250, "half-answered": 200,
}


def gen(ctx):
    i = 0
    for a in (None,) + device.KINDS:
        for b in device.KINDS:
            for enc in (False, True):
                if i % ctx.nshards == ctx.shard:
                    yield {"m": "pair", "out": a, "in": b, "enc": enc, "seed": ctx.seed * 977 + i}
                i += 1
    for s in ctx.seeds("hist", 400, 8000):
        yield {"m": "hist", "seed": s}


def unencodable(rng, kind, password):
    a = device.gen_request(rng, kind, password)
    bads = []
    if "password" in a:
        bads += [("password", "\u0141\u0142\u0107abc"), ("password", None)]
    if "amount" in a:
        bads += [("amount", 65536), ("amount", -1)]
    if "oldest_record_id" in a:
        bads += [("oldest_record_id", 2**32), ("oldest_record_id", -1)]
    if "object_count" in a:
        bads += [("object_count", 65536), ("buffer_length", 70000)]
    if "device_time" in a:
        bads += [("device_time", datetime.datetime(1999, 12, 31)), ("device_time", None)]
    if "oldest_timestamp" in a:
        bads += [("oldest_timestamp", datetime.datetime(1970, 1, 1)), ("oldest_timestamp", None)]
    if not bads:
        return None
    k, v = rng.choice(bads)
    a[k] = v
    return a


class Model:
    def __init__(self, E, obs, rng, c):
        self.E, self.obs, self.rng, self.c = E, obs, rng, c
        self.conn = device.make_connection(E, c)
        self.out = None
        self.trace = []
        self.Err = E["exceptions"].LocalElgasProtocolError

    def send(self, kind):
        obs = self.obs
        args = device.gen_request(self.rng, kind, self.c["password"])
        self.trace.append(("send", kind, self.out))
        obs.eval()
        try:
            w = self.conn.send(device.make_request(self.E, kind, args))
        except self.Err:
            obs.expect(self.out is not None, lambda: f"send of {kind} refused although nothing is outstanding; history {self.trace}", "refused-when-idle")
            obs.count("send-refused")
            return
        obs.expect(self.out is None, lambda: f"send of {kind} accepted while {self.out} is outstanding; history {self.trace}", "second-request")
        try:
            fields, _ = device.read_request(self.c, w)
        except ref.BadFrame as e:
            obs.fail(f"sent frame unreadable by device: {e}", "frame")
        obs.equal(fields["kind"], kind, "kind of sent request", "frame")
        self.out = kind
        obs.count("sent")

    def send_bad(self, kind):
        obs = self.obs
        args = unencodable(self.rng, kind, self.c["password"])
        if args is None:
            return
        self.trace.append(("send-unencodable", kind, self.out))
        obs.eval()
        try:
            w = self.conn.send(device.make_request(self.E, kind, args))
        except Exception:
            obs.count("unencodable")
            return
        obs.fail(f"request {kind} with unencodable {args!r:.200} gave bytes {core.short(w)}", "unencodable-sent")

    def respond(self, kind):
        obs = self.obs
        data, want = device.gen_reply(self.rng, kind, 40)
        self.trace.append(("response", kind, self.out))
        w = device.reply_wire(self.c, ref.KIND_SERVICE[kind], data, self.rng)
        if kind == self.out and self.rng.random() < 0.3:
            w += self.extra()
        pieces = device.split(self.rng, w)
        stop = 0
        if kind == self.out and self.rng.random() < 0.2:
            # part of the answer is there: the request is still outstanding
            n = self.rng.randrange(1, min(len(w), 12))
            pieces, stop = [w[:n], w[n:]], 1
        for p in pieces:
            self.conn.receive_data(p)
            if stop == 1:
                stop = 2
                if self.rng.random() < 0.5:
                    self.conn.next_event()
                self.send(self.rng.choice(device.KINDS))
                obs.count("half-answered")
        obs.eval()
        try:
            ev = self.conn.next_event()
        except self.Err:
            obs.expect(kind != self.out, lambda: f"the matching {kind} response was refused; history {self.trace[-8:]}", "match-refused")
            obs.count("response-refused" if self.out else "unsolicited-refused")
            again = self.conn.next_event()
            obs.expect(again is self.E["state"].NEED_DATA, lambda: f"after a refused response the connection gave {again!r:.200}", "refused-redelivered")
            return
        obs.expect(kind == self.out, lambda: f"{kind} response gave {ev!r:.200} while {self.out} was outstanding; history {self.trace[-8:]}", "mismatch-delivered")
        d = device.diff_reply(ev, kind, want)
        obs.expect(not d, lambda: f"delivered {kind} response differs: {d}; history {self.trace[-8:]}", "content")
        self.out = None
        obs.count("delivered")


    def extra(self):
        """Bytes behind an answer which must not be taken for an answer to a later request."""
        rng = self.rng
        k = rng.choice(device.KINDS)
        w = device.reply_wire(self.c, ref.KIND_SERVICE[k], device.gen_reply(rng, k, 30)[0], rng)
        self.obs.count("trailing")
        self.trace.append(("trailing", k, self.out))
        return rng.choice((w, w, w + b"\r", w[: rng.randrange(1, len(w))], b"\r" + w))

    def error(self):
        """The device answers with an error; whatever came with it is void."""
        obs, rng = self.obs, self.rng
        if not self.out:
            return
        w = device.reply_wire(self.c, ref.KIND_SERVICE[self.out], bytes((rng.randrange(1, 256),)), rng)
        self.trace.append(("device-error", self.out, self.out))
        if rng.random() < 0.5:
            w += self.extra()
        for p in device.split(rng, w):
            self.conn.receive_data(p)
        obs.eval()
        try:
            ev = self.conn.next_event()
        except self.E["exceptions"].ElgasError:
            self.out = None
            obs.count("device-error")
            return
        obs.fail(f"a device error was delivered as {ev!r:.200}; history {self.trace[-8:]}", "error-delivered")


def run(case, obs):
    E = core.load_elgas()
    rng = random.Random(case["seed"])
    if case["m"] == "pair":
        m = Model(E, obs, rng, device.rand_config(rng, encrypted=case["enc"]))
        if case["out"]:
            m.send(case["out"])
        m.respond(case["in"])
        for k in device.KINDS:
            m.send(k)
        if m.out:
            for k in device.KINDS:
                if k != m.out:
                    m.respond(k)
            m.respond(m.out)
        m.respond(case["in"])
        for k in device.KINDS:
            m.send_bad(k)
            m.send(k)
            m.send_bad(k)
            m.respond(k)
        obs.count("pairs")
    else:
        m = Model(E, obs, rng, device.rand_config(rng))
        for _ in range(rng.choice((5, 20, 60))):
            r = rng.random()
            kind = rng.choice(device.KINDS)
            if r < 0.4:
                m.send(kind)
            elif r < 0.5:
                m.send_bad(kind)
            elif r < 0.55:
                m.error()
            elif r < 0.78 and m.out:
                m.respond(m.out)
            else:
                m.respond(kind)
        if m.out:
            m.respond(m.out)
        m.send("time")
        m.respond("time")
    for i in range(len(m.trace) - 2):
        obs.seen(m.trace[i:i + 3])
    obs.sample(m.trace[:8], 2)
