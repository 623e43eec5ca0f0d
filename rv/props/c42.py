"""C42 apart from its transport the library does no input or output and never waits."""
import contextlib
import os
import queue
import random
import select
import selectors
import sys
import threading

from rv import core, device, net
from rv.props import c32, c36

ID = "C42"
SCALE = 4
RULE = (
    "The workloads of C32 and C36 run under an audit hook and hooks on everything that waits.  Whatever a line of elgas "
    "causes - files opened or listed, sockets, names resolved, processes, environment written, threads started, sleeps, "
    "polling, waits for locks - is noted.  Over memory transports, in connections, codecs, parsers, ciphers and schemas "
    "there must be nothing; over real transports only the configured host and port or device.  Distinct = distinct "
    "(workload, configuration, kinds of activity seen)."
)
MIN = {"operations": 8000, "silent-workloads": 80, "line-workloads": 12, "activity-of-transports": 300, "control-events": 200}
CASE_ALARM_S = 120.0

WATCHED = ("open", "socket.", "subprocess.", "os.", "shutil.", "tempfile.", "time.sleep", "_thread.start", "fcntl.", "glob.",
           "urllib.", "http.", "ftplib.", "smtplib.", "sqlite3.", "webbrowser.", "mmap.", "pty.", "signal.", "builtins.input",
           "ctypes.dlopen", "pathlib.", "resource.", "syslog.", "imaplib.", "telnetlib.", "poplib.")
NOT_IO = ("os.putenv", "os.unsetenv")  # C36 judges the environment
SILENT = tuple(w for w in c32.WORK if not w.startswith("tcp")) + ("big",)
LINES = ("session-tcp", "session-pty", "pty", "tcp-reconnect", "tcp-timeout", "unreachable")


def gen(ctx):
    for s in ctx.seeds("io", 6, 100):
        for w in SILENT:
            if (s ^ c36.hash_(w)) % 2 == 0 or ctx.thorough:
                yield {"m": "silent", "w": w, "enc": s % 2, "seed": s}
        for w in LINES:
            yield {"m": "lines", "w": w, "enc": s % 2, "seed": s}
    if ctx.shard == 0:
        yield {"m": "control", "seed": ctx.seed}


class Watch:
    """What the code of elgas makes the process do."""

    def __init__(self):
        self.on = False
        self.busy = False
        self.found = []
        self.everything = 0

    def note(self, event, args):
        if not self.on or self.busy:
            return
        self.busy = True
        try:
            self.everything += 1
            who = origin()
            if who and len(self.found) < 10000:
                self.found.append((event, tuple(repr(a)[:80] for a in args[:3]), who))
        finally:
            self.busy = False


def origin():
    """The elgas line which causes what happens now; None if none does, or an import does."""
    f = sys._getframe(3)
    who = None
    while f is not None:
        name = f.f_code.co_filename
        if "importlib" in name:
            return None
        if name == device.__file__:
            break  # a transport or device of the harness; what is above it is not elgas' doing
        if core.in_repo(name):
            who = f"{os.path.relpath(name, core.REPO)}:{f.f_lineno}"
            break
        f = f.f_back
    return who


WATCH = None


def watch():
    """The watch of this process.  Audit hooks cannot be taken away again; what waits without telling them is wrapped
    before elgas is imported."""
    global WATCH
    if WATCH is not None:
        return WATCH
    w = WATCH = Watch()

    def audit(event, args):
        if w.on and event.startswith(WATCHED) and event not in NOT_IO:
            w.note(event, args)

    sys.addaudithook(audit)

    def hook(owner, name, label):
        plain = getattr(owner, name)

        def call(*a, **k):
            if w.on:
                w.note(label, a[1:2] if isinstance(owner, type) else a[:2])
            return plain(*a, **k)

        setattr(owner, name, call)

    hook(select, "select", "select")
    hook(select, "poll", "poll")
    hook(select, "epoll", "epoll")
    hook(selectors.DefaultSelector, "select", "selector")
    hook(threading.Event, "wait", "event wait")
    hook(threading.Condition, "wait", "condition wait")
    hook(threading.Thread, "join", "thread join")
    hook(queue.Queue, "get", "queue get")
    hook(os, "read", "os read")
    hook(os, "write", "os write")
    core.CLOCK.on_sleep = lambda s: w.note("sleep", (s,))
    return w


watch()

ALLOWED = {
    "tcp": ("socket.__new__", "socket.getaddrinfo", "socket.connect", "socket.getsockname", "socket.getpeername"),
    "pty": ("open", "fcntl.", "select", "poll", "os read", "os write", "selector", "sleep"),
}


def allowed(event, args, w, addresses):
    """A real transport on its own line."""
    kind = "pty" if "pty" in w else "tcp"
    if w == "unreachable":
        kind = "both"
    names = ALLOWED["tcp"] + ALLOWED["pty"] if kind == "both" else ALLOWED[kind] + (("select", "poll", "selector") if kind == "tcp" else ())
    if not event.startswith(names):
        return False
    if event == "open" or event in ("socket.connect", "socket.getaddrinfo"):
        return any(a in " ".join(args) for a in addresses)
    return True


def run(case, obs):
    E = core.load_elgas()
    rng = random.Random(case["seed"])
    wt = WATCH
    if case["m"] == "control":
        return control(obs, wt)
    w = case["w"]
    counts = dict.fromkeys(("answered", "device-errors", "failed", "decoded", "refused"), 0)
    ports = []

    with remembering(ports):
        wt.found.clear()
        wt.on = True
        try:
            step, close, weight = c36.own_workload(E, rng, w, case) if w in c36.OWN else c32.workload(E, rng, case, counts)
            n = (160 if case["m"] == "silent" else 40) // weight + 2
            for _ in range(n):
                step()
                obs.count("operations")
        finally:
            wt.on = False
        close()
    obs.eval()
    found = list(wt.found)
    if case["m"] == "silent":
        obs.expect(not found, lambda: f"{w}: {found[0][2]} causes {found[0][0]}{found[0][1]}; {len(found)} such events", "io")
        obs.count("silent-workloads")
    else:
        bad = [f for f in found if not allowed(f[0], f[1], w, ports)]
        obs.expect(not bad, lambda: f"{w}: {bad[0][2]} causes {bad[0][0]}{bad[0][1]} (line at {ports}); {len(bad)} such events", "io")
        obs.count("line-workloads")
        obs.count("activity-of-transports", len(found))
    obs.seen(w, case["enc"], sorted({f[0] for f in found}))
    obs.sample({"workload": w, "operations": n, "activity": sorted({f[0] for f in found})}, 6)


@contextlib.contextmanager
def remembering(ports):
    """Addresses of the peers made meanwhile."""
    plain = net.TcpPeer.__init__, net.PtyPeer.__init__

    def tcp(self, *a, **k):
        plain[0](self, *a, **k)
        ports.extend(map(repr, ("127.0.0.1", "localhost")))

    def pty(self, *a, **k):
        plain[1](self, *a, **k)
        ports.append(repr(self.path))

    net.TcpPeer.__init__, net.PtyPeer.__init__ = tcp, pty
    ports += ["127.0.0.1", "/nonexistent/tty", "/dev/null"]
    try:
        yield
    finally:
        net.TcpPeer.__init__, net.PtyPeer.__init__ = plain


def control(obs, wt):
    """The watch sees what it should: code that looks like elgas does some of everything."""
    src = (
        "import os, time, socket, select, threading, queue, subprocess\n"
        "def go():\n"
        "    open('/dev/null').close()\n"
        "    time.sleep(0)\n"
        "    os.listdir('/')\n"
        "    s = socket.socket(); s.close()\n"
        "    select.select([], [], [], 0)\n"
        "    t = threading.Thread(target=len, args=('',)); t.start(); t.join()\n"
        "    threading.Event().wait(0)\n"
        "    try: queue.Queue().get(timeout=0.0001)\n"
        "    except queue.Empty: pass\n"
        "    select.poll().poll(0)\n"
        "    try: socket.getaddrinfo('127.0.0.1', 1)\n"
        "    except OSError: pass\n"
    )
    ns = {}
    exec(compile(src, os.path.join(core.REPO, "elgas", "control.py"), "exec"), ns)
    for _ in range(30):
        wt.found.clear()
        wt.on = True
        try:
            ns["go"]()
        finally:
            wt.on = False
        kinds = {f[0] for f in wt.found}
        missing = {"open", "sleep", "os.listdir", "socket.__new__", "select", "poll", "event wait", "thread join", "queue get",
                   "socket.getaddrinfo"} - kinds
        if missing:
            raise core.Inconclusive(f"the watch does not see {sorted(missing)}")
        obs.count("control-events", len(kinds))
