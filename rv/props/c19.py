"""C19 transport life cycle against a two-state model, under faults, with handle accounting."""
import os
import random

from rv import core, net

ID = "C19"
SCALE = 16
LEVEL = "fault_enumeration"
RULE = (
    "Random sequences of connect, disconnect, send and receive on both transports over real loopback sockets and "
    "pseudo terminals, with operating-system errors injected into connect, shutdown, close, send and receive and peers "
    "that close or reset, are run next to a connected/disconnected model that predicts RuntimeError, "
    "CommunicationError or success; every socket and port object ever opened is accounted for, plus the process's "
    "descriptor table.  Distinct = distinct (transport, state, operation, fault, outcome) with the three before it."
)
MIN = {"ops": 8000, "reconnected": 700, "double-connect": 300, "not-connected-refused": 300, "noop-disconnect": 300,
       "failed-connect": 200, "failed-disconnect": 150, "broken-then-disconnected": 300, "descriptor-audits": 300,
       "exchanges": 1500, "peer-closed": 60, "handles-opened": 1200, "factory-faults": 40, "connect-while-broken": 200, "connect-while-lost": 100}
ASSUMPTIONS = ["after a failed send or receive the transport may be either still connected or already disconnected"]
CASE_ALARM_S = 60.0

SHUT = ["reset", "pipe", "notconn", "timeout", "io", "badf", "timedout"]


def gen(ctx):
    for s in ctx.seeds("life", 400, 6000):
        yield {"t": ("tcp", "pty")[s % 2], "len": 40, "seed": s}


class Run:
    def __init__(self, E, obs, rng, t):
        self.E, self.obs, self.rng, self.t = E, obs, rng, t
        self.plan = net.Plan()
        self.plan.limit = 10**6
        self.peer = net.TcpPeer() if t == "tcp" else net.PtyPeer()
        self.gone = False  # pty master closed for good
        self.state = "D"
        self.tr = self.peer.transport(E, rng.choice((1, 5)))
        self.trace = []
        self.had = False

    def errors(self):
        return net.ERRNOS if self.t == "tcp" else net.SERIAL_ERRORS

    def pick_fault(self):
        name = self.rng.choice(list(self.errors()))
        return name, self.errors()[name]

    def outcome(self, fn, *a):
        self.obs.eval()
        self.obs.count("ops")
        try:
            return "ok", fn(*a)
        except self.E["exceptions"].CommunicationError:
            return "comm", None
        except RuntimeError as e:
            return "runtime", e
        except (core.Violation, core.CaseTimeout):
            raise
        except Exception as e:
            return f"{type(e).__name__}: {e}", e

    def step(self, op, fault, got, allowed):
        self.trace.append((self.state, op, fault, got))
        self.obs.seen(self.t, *self.trace[-4:])
        self.obs.expect(
            got in allowed,
            lambda: f"{self.t} transport: {op}{' with ' + fault if fault else ''} while "
            f"{dict(D='disconnected', C='connected', B='connection broken')[self.state]} ended with {got}, "
            f"expected {' or '.join(allowed)}; before it: {self.trace[-6:-1]}",
            "wrong-outcome",
        )

    def audit(self):
        n = self.plan.open_handles()
        if self.state == "D":
            self.obs.expect(not n, lambda: f"{self.t} transport disconnected but {len(n)} socket or port still open; history {self.trace[-6:]}", "leak")
        else:
            self.obs.expect(len(n) <= 1, lambda: f"{self.t} transport holds {len(n)} sockets or ports; history {self.trace[-6:]}", "leak")

    # -- operations

    def connect(self):
        rng, plan = self.rng, self.plan
        if self.state == "B":
            if self.t == "tcp" and rng.random() < 0.5:
                return self.connect_broken()
            return self.disconnect()
        opened = len(plan.handles)
        fault = None
        if self.state == "D" and rng.random() < 0.35:
            fault, make = self.pick_fault()
            plan.connect = lambda: (_ for _ in ()).throw(make())
            x = rng.random()
            if self.t == "pty" and x < 0.3:
                # the port opens, then configuring it fails
                plan.connect = None
                plan.configure = make
                self.obs.count("factory-faults")
            elif self.t == "tcp" and x < 0.3:

                def late():
                    raise make()

                plan.connect, plan.after_connect = None, late
                self.obs.count("factory-faults")
        got, _ = self.outcome(self.tr.connect)
        plan.connect = plan.configure = plan.after_connect = None
        if self.state == "C":
            self.step("connect", fault, got, ("runtime",))
            self.obs.expect(len([h for h in plan.handles[opened:]]) == 0 or not any(not h.rv_closed for h in plan.handles[opened:]),
                            "a refused second connect opened another socket or port", "leak")
            self.obs.count("double-connect")
            self.exchange()  # the first connection still works
            return
        if fault:
            self.step("connect", fault, got, ("comm",))
            self.drain_backlog()
            self.obs.count("failed-connect")
        else:
            self.step("connect", fault, got, ("ok",))
            if self.t == "tcp":
                self.peer.hang_up()
                self.peer.accept()
            else:
                self.peer.pending()
            self.state = "C"
            self.obs.count("handles-opened")
            if self.had:
                self.obs.count("reconnected")
            self.had = True
        self.audit()

    def connect_broken(self):
        """After a failed send or receive the transport is either still connected or already disconnected."""
        got, _ = self.outcome(self.tr.connect)
        self.step("connect", None, got, ("runtime", "ok"))
        self.obs.count("connect-while-broken")
        if got == "ok":
            self.peer.hang_up()
            self.peer.accept()
            self.state = "C"
        self.audit()

    def lost(self):
        """The peer goes away unnoticed: the transport is connected until it is told otherwise."""
        if self.state != "C":
            return
        if self.rng.random() < 0.3:
            return self.closed_from_outside()
        if self.t != "tcp":
            return
        (self.peer.drop if self.rng.random() < 0.7 else self.peer.hang_up)()
        if self.rng.random() < 0.7:
            got, _ = self.outcome(self.tr.connect)
            self.step("connect after the peer went away", None, got, ("runtime",))
            self.obs.count("connect-while-lost")
            self.audit()
        self.state = "B"

    def closed_from_outside(self):
        """Somebody closed the socket or port behind the transport's back; that does not disconnect the transport."""
        handle = self.tr.tcp_socket if self.t == "tcp" else self.tr.serial_port
        handle.close()
        got, _ = self.outcome(self.tr.connect)
        self.step("connect after the handle was closed from outside", None, got, ("runtime",))
        self.obs.count("closed-from-outside")
        self.audit()
        self.state = "B"

    def drain_backlog(self):
        """Connections the kernel accepted before a late fault."""
        if self.t != "tcp":
            return
        self.peer.server.settimeout(0)
        try:
            while True:
                fd, _ = self.peer.server._accept()
                os.close(fd)
        except OSError:
            pass
        self.peer.server.settimeout(30)

    def disconnect(self):
        rng, plan = self.rng, self.plan
        fault = None
        if self.state != "D" and rng.random() < 0.4:
            where = rng.choice(("shutdown", "close", "both")) if self.t == "tcp" else "close"
            name = rng.choice(SHUT) if self.t == "tcp" else rng.choice(list(net.SERIAL_ERRORS))
            make = self.errors()[name]

            def boom():
                raise make()

            if where in ("shutdown", "both"):
                plan.shutdown = boom
            if where in ("close", "both"):
                plan.close = boom
            fault = f"{where}:{name}"
        got, _ = self.outcome(self.tr.disconnect)
        plan.shutdown = plan.close = None
        if self.state == "D":
            self.step("disconnect", fault, got, ("ok",))
            self.obs.count("noop-disconnect")
        elif self.state == "C" and not fault and not self.gone:
            self.step("disconnect", fault, got, ("ok",))
        else:
            self.step("disconnect", fault, got, ("ok", "comm"))
            if fault:
                self.obs.count("failed-disconnect")
            if self.state == "B":
                self.obs.count("broken-then-disconnected")
        self.state = "D"
        self.audit()
        if self.gone:  # the terminal's name may be given to somebody else now: go on with a new one
            self.peer, self.gone, self.had = net.PtyPeer(), False, False
            self.tr = self.peer.transport(self.E, self.rng.choice((1, 5)))

    def exchange(self):
        line = self.rng.randbytes(self.rng.randrange(20)).replace(b"\r", b"x") + b"\r"
        self.peer.write(line)
        got, data = self.outcome(self.tr.recv)
        self.step("receive", None, got, ("ok",))
        self.obs.equal(data, line, f"{self.t} receive on a live connection", "data")
        out = self.rng.randbytes(1 + self.rng.randrange(20))
        got, _ = self.outcome(self.tr.send, out)
        self.step("send", None, got, ("ok",))
        self.obs.equal(self.peer.read(len(out)), out, f"{self.t} send on a live connection", "data")
        self.obs.count("exchanges")

    def use(self):
        rng, plan = self.rng, self.plan
        if self.state == "B":
            return self.disconnect()
        op = rng.choice(("send", "receive"))
        data = rng.choice((b"abc\r", b"\r", bytearray(b"abc\r"), b"" if self.state == "D" else b"x"))
        call = (lambda: self.tr.send(data)) if op == "send" else self.tr.recv
        if self.state == "D":
            got, _ = self.outcome(call)
            self.step(op, None, got, ("runtime",))
            self.obs.count("not-connected-refused")
            return self.audit()
        if rng.random() < 0.6:
            return self.exchange()
        fault, make = self.pick_fault()
        if op == "receive" and rng.random() < 0.3 and not self.gone:
            fault = "peer-closed"
            (self.peer.hang_up if self.t == "pty" or rng.random() < 0.5 else self.peer.drop)()
            self.gone = self.t == "pty"
            self.obs.count("peer-closed")
        elif op == "send":
            plan.send = lambda *a: (_ for _ in ()).throw(make())
        else:
            plan.recv = lambda *a: (_ for _ in ()).throw(make())
        got, _ = self.outcome(call)
        plan.send = plan.recv = None
        self.step(op, fault, got, ("comm",))
        self.state = "B"
        self.audit()


def fds():
    return len(os.listdir("/proc/self/fd"))


def run(case, obs):
    E = core.load_elgas()
    rng = random.Random(case["seed"])
    before = fds()
    r = Run(E, obs, rng, case["t"])
    try:
        with net.hostile(r.plan):
            for _ in range(case["len"]):
                x = rng.random()
                if x < 0.03:
                    r.lost()
                elif x < 0.35:
                    r.connect()
                elif x < 0.6:
                    r.disconnect()
                else:
                    r.use()
            if r.state != "D":
                r.disconnect()
            r.disconnect()  # a no-op
            r.peer.close()
            now = fds()
            obs.expect(now == before, lambda: f"{now - before} more descriptors open after the last disconnect ({len(r.plan.handles)} handles opened); history {r.trace[-8:]}", "leak")
            obs.count("descriptor-audits")
            obs.maximum("handles-in-one-history", len(r.plan.handles))
        obs.sample({"transport": case["t"], "history": [list(map(str, x)) for x in r.trace[:8]]}, 2)
    finally:
        r.peer.close()
