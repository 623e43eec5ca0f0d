"""C31 an operation interrupted at any point neither swallows the interrupt nor spoils the client."""
import gc
import random
import select
import sys
import weakref

from rv import core, device, net, ref

ID = "C31"
LEVEL = "fault_enumeration"
SCALE = 6
RULE = (
    "Every client operation (and connect, disconnect) is run once to list the elgas lines it executes; it is then run "
    "again with an exception a signal handler would raise (KeyboardInterrupt, SystemExit, a time limit) injected at the "
    "first, last and a random execution of each of those lines, and inside the socket and serial calls.  The interrupt "
    "must reach the caller, and after disconnect and connect the following operations must be answered exactly and no "
    "handle may stay open.  Distinct = distinct (transport, encrypted, operation, line, occurrence, exception)."
)
MIN = {"interrupted": 3000, "recovered": 3000, "lines-interrupted": 600, "tcp": 300, "pty": 200, "in-syscall": 60,
       "connect-interrupted": 60, "disconnect-interrupted": 40, "twice": 300, "reached-caller": 2000, "link-gone": 300}
CASE_ALARM_S = 90.0
HANG_IS_VIOLATION = True
OPS = device.KINDS


class Alarm(Exception):
    """A time limit as raised by a program's own SIGALRM handler."""


class Stop(BaseException):
    pass


def gen(ctx):
    i = 0
    for enc in (0, 1):
        for kind in OPS:
            for part in range(8):
                if i % ctx.nshards == ctx.shard:
                    yield {"m": "mem", "kind": kind, "enc": enc, "part": part, "parts": 8, "seed": ctx.seed * 4099 + i, "cap": 50 if ctx.tier == "quick" else 2000}
                i += 1
    for s in ctx.seeds("mem", 24, 900):
        yield {"m": "mem", "kind": OPS[s % len(OPS)], "enc": s // 7 % 2, "part": s % 5, "parts": 5, "seed": s, "odd": 1, "cap": 50}
    for s in ctx.seeds("real", 32, 500):
        yield {"m": ("tcp", "pty")[s % 2], "kind": None, "enc": s // 2 % 2, "seed": s}
    for s in ctx.seeds("sys", 12, 300):
        yield {"m": "syscall", "kind": None, "enc": s % 2, "seed": s}


class Lines:
    """Lists executed elgas lines, or raises at one execution of one of them."""

    def __init__(self, at=None, error=None, only=None):
        self.at, self.error, self.only = at, error, only
        self.count = {}
        self.fired = False

    def __call__(self, frame, event, arg):
        if not core.in_repo(frame.f_code.co_filename) or (self.only and self.only not in frame.f_code.co_filename):
            return None
        if frame.f_code.co_name in ("__repr__", "__del__"):
            return None
        return self.local

    def local(self, frame, event, arg):
        if event == "line" and not self.fired:
            k = (frame.f_code.co_filename, frame.f_lineno)
            n = self.count[k] = self.count.get(k, 0) + 1
            if self.at == (k, n):
                self.fired = True
                raise self.error
        return self.local

    def run(self, fn):
        sys.settrace(self)
        try:
            return fn()
        finally:
            sys.settrace(None)


def errors(rng):
    return rng.choice((KeyboardInterrupt, KeyboardInterrupt, SystemExit, Stop, Alarm))


class Rig:
    """A client, its device and (for real transports) its peer."""

    def __init__(self, E, rng, m, enc):
        self.E, self.m, self.rng = E, m, rng
        self.c = device.rand_config(rng, encrypted=bool(enc), addresses="client")
        self.objects = device.gen_objects(rng, 3)
        self.dev = device.SimDevice(self.c, rng, self.objects, page=lambda i, left: min(2, left), max_payload=40)
        self.peer = self.stop = None
        if m == "mem":
            self.tr = device.MemoryTransport(E, self.dev)
        else:
            self.peer = net.TcpPeer() if m == "tcp" else net.PtyPeer()
            self.tr = self.peer.transport(E, 20)
        self.client = device.make_client(E, self.c, self.tr)

    def connect(self):
        """Connect and let the device answer."""
        if self.m == "tcp":  # connections given up before they were accepted
            while select.select([self.peer.server], [], [], 0)[0]:
                self.peer.accept().close()
                self.peer.conn = None
        self.client.connect()
        self.attend()

    def attend(self):
        if self.m == "tcp":
            self.peer.hang_up()
            self.peer.accept()
        elif self.m == "pty":
            self.peer.pending()
        if self.peer:
            self.stop = net.serve(self.peer, self.dev)

    def quiet(self):
        if self.stop:
            self.stop()
            self.stop = None

    def close(self):
        self.quiet()
        if self.peer:
            self.peer.close()


def perform(E, rig, kind, kw):
    method, args = kw
    return device.do_call(E, rig.client, method, args)


def interrupted(E, obs, rig, fn, error, what, lines, struck=None):
    """Run fn with the interrupt; judge how it ends. True when it was interrupted."""
    fired = lambda: lines.fired if lines is not None else bool(struck)
    obs.eval()
    try:
        if lines is None:
            fn()
        else:
            lines.run(fn)
    except (core.Violation, core.CaseTimeout, core.Inconclusive):
        raise
    except BaseException as e:
        ended = e
        if ended is error:
            obs.count("reached-caller")
        elif not isinstance(error, Exception) and fired():
            obs.fail(f"{what}: {type(error).__name__} reached the caller as {type(e).__name__}: {e}", "interrupt-converted")
        ended.__traceback__ = None
        return fired()
    if not fired():
        return False  # this time the line was not reached
    if not isinstance(error, Exception):
        obs.fail(f"{what}: {type(error).__name__} never reached the caller", "interrupt-swallowed")
    return True


def recover(E, obs, rng, rig, what):
    comm = E["exceptions"].CommunicationError
    rig.quiet()
    try:
        rig.client.disconnect()
    except comm:
        pass
    try:
        rig.connect()
    except (core.Violation, core.CaseTimeout, core.Inconclusive):
        raise
    except Exception as e:
        if isinstance(e, OSError) and not isinstance(e, comm):
            raise
        obs.fail(f"{what}, disconnect: connect raised {type(e).__name__}: {e}", "not-reusable")
    for _ in range(rng.choice((1, 2))):
        good(E, obs, rng, rig, f"{what}, disconnect and connect")
    obs.count("recovered")


def good(E, obs, rng, rig, when, kind=None):
    kind = kind or rng.choice(OPS)
    method, kw = device.gen_call(rng, kind, len(rig.objects))
    mark = len(rig.dev.log)
    del rig.dev.bad[:]
    obs.eval()
    try:
        r = device.do_call(E, rig.client, method, kw)
    except (core.Violation, core.CaseTimeout):
        raise
    except Exception as e:
        obs.fail(f"{method} after {when} raised {type(e).__name__}: {e}", "not-clean")
    d = device.check_call(rig.c, rig.dev, mark, kind, kw, r)
    obs.expect(not d, lambda: f"{method} after {when}: {d[:3]}", "not-clean")


def points(rng, count, part, parts):
    """(line, occurrence) pairs of one share of the executed lines."""
    out = []
    for i, (k, n) in enumerate(sorted(count.items())):
        if i % parts == part:
            out += [(k, x) for x in sorted({1, n, rng.randrange(1, n + 1)})]
    return out


def short_line(at):
    (f, line), n = at
    return f"{f.rsplit('/elgas/')[-1]}:{line} (execution {n})"


def memory_case(E, obs, rng, case):
    rig = Rig(E, rng, "mem", case["enc"])
    kind = case["kind"]
    rig.connect()
    kw = device.gen_call(rng, kind, len(rig.objects))
    rig.dev.strays = False
    rig.dev.chunks = lambda w: device.split(rng, w, rng.choice((0, 3))) if case.get("odd") else [w]
    listing = Lines()
    listing.run(lambda: perform(E, rig, kind, kw))
    todo = points(rng, listing.count, case["part"], case["parts"])
    if len(todo) > case["cap"]:
        todo = rng.sample(todo, case["cap"])
    gone, plain = [0], rig.tr.disconnect

    def disconnect():
        plain()
        if gone[0]:
            raise E["exceptions"].CommunicationError("the link was gone already")

    rig.tr.disconnect = disconnect
    for at in todo:
        gone[0] = rng.random() < 0.3
        obs.count("link-gone", gone[0])
        error = errors(rng)()
        what = f"{kw[0]} ({'encrypted' if case['enc'] else 'plain'}) interrupted at {short_line(at)}"
        if interrupted(E, obs, rig, lambda: perform(E, rig, kind, kw), error, what, Lines(at, error)):
            obs.count("interrupted")
            obs.seen("mem", case["enc"], kind, at, type(error).__name__)
            if rng.random() < 0.2:  # and the next attempt as well
                try:
                    rig.client.disconnect()
                except E["exceptions"].CommunicationError:
                    pass
                rig.client.connect()
                error = errors(rng)()
                if interrupted(E, obs, rig, lambda: perform(E, rig, kind, kw), error, what + ", twice", Lines(at, error)):
                    obs.count("twice")
        recover(E, obs, rng, rig, what)
    obs.count("lines-interrupted", len(listing.count) // case["parts"])
    rig.close()


def real_case(E, obs, rng, case):
    m = case["m"]
    plan = net.Plan()
    with net.hostile(plan):
        rig = Rig(E, rng, m, case["enc"])
        try:
            rig.dev.strays = False
            listing = {}
            for step in ("connect", "op", "disconnect"):
                kind = rng.choice(OPS)
                kw = device.gen_call(rng, kind, len(rig.objects))
                fn = {"connect": rig.client.connect, "op": lambda: perform(E, rig, kind, kw), "disconnect": rig.client.disconnect}[step]
                listing = Lines()
                listing.run(fn)
                if step == "connect":
                    rig.attend()
                pts = points(rng, listing.count, 0, 1) if step != "op" else rng.sample(points(rng, {k: n for k, n in listing.count.items() if k[0].endswith(("transport.py", "client.py"))}, 0, 1), 4)
                if len(pts) > 14:
                    pts = rng.sample(pts, 14)
                for at in pts:
                    rig.quiet()
                    try:
                        rig.client.disconnect()
                    except E["exceptions"].CommunicationError:
                        pass
                    if step != "connect":
                        rig.connect()
                    error = errors(rng)()
                    what = f"{step} ({kw[0] if step == 'op' else m}) interrupted at {short_line(at)}"
                    if interrupted(E, obs, rig, fn, error, what, Lines(at, error)):
                        obs.count("interrupted")
                        obs.count(m)
                        if step != "op":
                            obs.count(step + "-interrupted")
                        obs.seen(m, case["enc"], step, at, type(error).__name__)
                    recover(E, obs, rng, rig, what)
            rig.quiet()
            rig.client.disconnect()
            check_handles(obs, plan, rig)
        finally:
            rig.close()


def check_handles(obs, plan, rig):
    refs = [weakref.ref(h) for h in plan.handles]
    del plan.handles[:]
    gc.collect()
    alive = [r() for r in refs if r() is not None]
    still = [h for h in alive if not h.rv_closed]
    obs.expect(not still, lambda: f"{len(still)} handles are open and still referenced after the last disconnect", "leak")
    plan.handles.extend(alive)
    obs.count("handles-accounted", len(refs))


def syscall_case(E, obs, rng, case):
    """The interrupt arrives while the operating system is being waited for."""
    m = rng.choice(("tcp", "pty"))
    plan = net.Plan()
    with net.hostile(plan):
        rig = Rig(E, rng, m, case["enc"])
        try:
            for _ in range(6):
                step = rng.choice(("recv", "recv", "send", "connect"))
                error = errors(rng)()
                kind = rng.choice(OPS)
                kw = device.gen_call(rng, kind, len(rig.objects))
                what = f"{step} call of a {m} transport interrupted in {kw[0] if step != 'connect' else 'connect'}"
                left = [rng.choice((0, 1, 5, 15))]

                struck = []

                def hit(*a):
                    struck.append(1)
                    raise error

                def later(handle, n):
                    if left[0] == 0:
                        struck.append(1)
                        raise error
                    left[0] -= 1
                    real = net.RealSocket.recv if m == "tcp" else net.RealSerial.read
                    return real(handle, n)

                if step == "connect":
                    plan.connect = hit
                    fn = rig.client.connect
                else:
                    rig.connect()
                    if step == "send":
                        plan.send = hit
                    else:
                        plan.recv = later
                    fn = lambda: perform(E, rig, kind, kw)
                if interrupted(E, obs, rig, fn, error, what, None, struck):
                    obs.count("in-syscall")
                    obs.seen("syscall", m, step, kind, left[0], type(error).__name__)
                plan.connect = plan.send = plan.recv = None
                recover(E, obs, rng, rig, what)
                rig.quiet()
                rig.client.disconnect()
            check_handles(obs, plan, rig)
        finally:
            rig.close()


def run(case, obs):
    E = core.load_elgas()
    rng = random.Random(case["seed"])
    if case["m"] == "mem":
        memory_case(E, obs, rng, case)
    elif case["m"] == "syscall":
        syscall_case(E, obs, rng, case)
    else:
        real_case(E, obs, rng, case)
    obs.sample({k: case[k] for k in ("m", "kind", "enc")}, 3)
