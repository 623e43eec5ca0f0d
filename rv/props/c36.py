"""C36 using the library leaves the rest of the process alone."""
import atexit
import contextlib
import contextvars
import decimal
import gc
import io
import json
import locale
import logging
import os
import random
import shutil
import signal
import socket
import subprocess
import sys
import tempfile
import threading
import time
import warnings

import serial

from rv import core, device, layouts, net

ID = "C36"
SCALE = 3
RULE = (
    "Every module of the package is imported first in a fresh process, with logging left alone or configured by the "
    "application, followed by a workload; in long-lived processes all workloads of C32 (sessions, errors, noise, "
    "timeouts, decoding, parsing, schemas, sockets) run.  The process-wide state is read before, after and in between, "
    "while an operation waits for the device: random generator, default socket timeout, signal handlers and timers, "
    "locale, time zone, environment, working directory, umask, warnings filters, decimal context, interpreter limits, "
    "garbage collector, hooks, standard streams, threads, logging and structlog configuration, and the public "
    "functions of the modules elgas uses.  Distinct = distinct (workload, configuration, module first)."
)
MIN = {"imports": 60, "snapshots": 3000, "while-waiting": 700, "operations": 9000, "workloads": 120, "settings-read": 300000}
CASE_ALARM_S = 120.0

USES = ("socket struct time datetime random enum json logging warnings os sys signal threading decimal locale gc "
        "codecs ipaddress math builtins serial marshmallow marshmallow.fields attr structlog").split()
CLASSES = (("socket", "socket"), ("serial", "Serial"), ("marshmallow", "Schema"), ("marshmallow.fields", "Field"),
           ("marshmallow.fields", "DateTime"), ("marshmallow.fields", "Float"), ("marshmallow.fields", "Integer"),
           ("json", "JSONEncoder"), ("logging", "Logger"), ("enum", "Enum"), ("enum", "EnumMeta"), ("threading", "Thread"))
SELF = ("stdout", "stderr", "stdin", "modules", "path_importer_cache", "last_exc", "last_traceback", "last_type", "last_value",
        "meta_path", "path_hooks", "path", "monitoring", "onceregistry", "filters", "ps1", "ps2", "argv", "flags")


OWN = ("pty", "pty-silent", "unreachable", "big", "session-tcp", "session-pty")


def own_workload(E, rng, w, case):
    """(step, close, weight) like those of C32, for what it leaves out."""
    comm = E["exceptions"].CommunicationError
    if w == "unreachable":
        held = net.RealSocket()
        held.bind(("127.0.0.1", 0))
        port = held.getsockname()[1]
        T = E["transport"]

        def step():
            tr = rng.choice((
                lambda: T.BlockingTcpTransport("127.0.0.1", port, timeout=rng.choice((1, 5, None))),
lambda: T.BlockingTcpTransport("127.0.0.1", port),
                lambda: T.SerialTransport("/nonexistent/tty", 9600, timeout=1),
                lambda: T.SerialTransport("/dev/null", 9600, timeout=1),
            ))()
            try:
                tr.connect()
            except comm:
                pass
            tr.disconnect()

        return step, held.close, 1
    if w == "big":
        recs = [(lay, *layouts.gen_record(rng, lay)) for lay in layouts.DECODABLE]
        c = device.rand_config(rng, encrypted=bool(case["enc"]), addresses="client")
        dev = device.SimDevice(c, rng, max_payload=50000, chunks=lambda x: [x])
        client = device.make_client(E, c, device.MemoryTransport(E, dev))
        client.connect()
        many = device.SimDevice(c, rng, rng.choices(recs[1:], k=200), page=lambda i, left: min(left, 64 - i % 64 if rng.random() < 0.6 else rng.choice((1, 10, 128))), max_payload=50000, chunks=lambda x: [x])
        reader = device.make_client(E, c, device.MemoryTransport(E, many))
        reader.connect()

        def step():
            reader.read_parameters()
            stream = b"".join(layouts.envelope(lay.code, d) for lay, d, _ in rng.choices(recs, k=rng.choice((100, 400))))
            E["parser"].ScadaParameterParser().parse(stream)
            try:
                E["parser"].ScadaParameterParser().parse(stream[:-1])
            except ValueError:
                pass
            for kind in ("values", "archive", "archive_by_time"):
                device.do_call(E, client, *device.gen_call(rng, kind))
            E["security"].CipherContext(device.key_id(E, 5), bytes(16)).encrypt(stream[:40000])

        return step, lambda: None, 12
    peer = (net.PtyPeer if "pty" in w else net.TcpPeer)()
    if w.startswith("session"):
        c = device.rand_config(rng, encrypted=bool(case["enc"]), addresses="client")
        dev = device.SimDevice(c, rng, max_payload=300)
        client = device.make_client(E, c, peer.transport(E, 20))
        client.connect()
        peer.accept()
        stop = net.serve(peer, dev)

        def step():
            device.do_call(E, client, *device.gen_call(rng, rng.choice(("values", "time", "write_time", "archive", "archive_by_time"))))

        def close():
            try:
                client.disconnect()
            finally:
                stop()
                peer.close()

        return step, close, 4
    tr = peer.transport(E, 0.01 if w == "pty-silent" else 10)

    def step():
        tr.connect()
        try:
            try:
                big = w != "pty-silent" and rng.random() < 0.3
                out = bytes(14 + b % 200 for b in rng.randbytes(rng.choice((3000, 5000, 70000)))) + b"\r" if big else b"hello\r"
                back = out if big and len(out) < 6000 else b"world\r"
                if big:
                    beside = threading.Thread(target=lambda: (peer.read(len(out)), peer.write(back)), daemon=True)
                    beside.start()
                tr.send(out)
            except comm:
                if w != "pty-silent":
                    raise
                return  # the machine was busier than the line's timeout allows
            if not big:
                peer.read(6)
            if w == "pty-silent":
                try:
                    tr.recv()
                except comm:
                    pass
            else:
                if not big:
                    peer.write(back)
                if tr.recv() != back:
                    raise core.Violation("bytes received differ", "recv")
                if big:
                    beside.join(30)
        finally:
            tr.disconnect()

    return step, peer.close, 2


def package():
    """Module names of the package in the working tree."""
    out = []
    base = os.path.join(core.REPO, "elgas")
    for d, _, files in os.walk(base):
        rel = os.path.relpath(d, core.REPO).replace(os.sep, ".")
        out += [rel if f == "__init__.py" else f"{rel}.{f[:-3]}" for f in files if f.endswith(".py")]
    return sorted(out)


def gen(ctx):
    i = 0
    for name in package():
        for mode in ("plain", "configured") if ctx.thorough else (("plain", "configured")[(i + ctx.seed) % 2],):
            if i % ctx.nshards == ctx.shard:
                yield {"m": "import", "first": name, "log": mode, "seed": ctx.seed * 97 + i}
            i += 1
    # the modules users import, both ways, also when others come first
    for s in ctx.seeds("imp", 8, 120):
        yield {"m": "import", "first": None, "log": ("plain", "configured")[s % 2], "seed": s}
    from rv.props import c32

    for s in ctx.seeds("use", 22, 600):
        for w in c32.WORK + OWN:
            if (s ^ hash_(w)) % 5 == 0 or ctx.thorough:
                yield {"m": "use", "w": w, "enc": s % 2, "seed": s}


def hash_(w):
    return sum(map(ord, w))


# -- what a process shares -----------------------------------------------------


def attributes(o):
    """Public functions, classes and settings of a module or class, by identity."""
    return {k: v for k, v in vars(o).items() if k[:1] != "_" and k not in SELF}


def snapshot(full=True):
    s = {
        "default socket timeout": socket.getdefaulttimeout(),
        "signal handlers": {n: signal.getsignal(n) for n in signal.valid_signals() if n not in (signal.SIGKILL, signal.SIGSTOP)},
        "timers": [signal.getitimer(k)[1] for k in (signal.ITIMER_REAL, signal.ITIMER_VIRTUAL, signal.ITIMER_PROF)],
        "blocked signals": signal.pthread_sigmask(signal.SIG_BLOCK, ()),
        "environment": dict(os.environ),
        "working directory": os.getcwd(),
        "warnings filters": (list(warnings.filters), warnings.showwarning, warnings.formatwarning),
        "decimal context": repr(decimal.getcontext()),
        "context variables": {v.name: v.get() for v in contextvars.copy_context() if v.name != "decimal_context"},
        "recursion limit": sys.getrecursionlimit(),
        "switch interval": sys.getswitchinterval(),
        "integer digits limit": sys.get_int_max_str_digits(),
        "garbage collector": (gc.isenabled(), gc.get_threshold(), gc.get_debug(), gc.get_freeze_count(), list(gc.callbacks)),
        "hooks": (sys.excepthook, sys.displayhook, sys.unraisablehook, threading.excepthook, sys.gettrace(), sys.getprofile(),
                  sys.breakpointhook, threading.gettrace() if hasattr(threading, "gettrace") else None),
        "standard streams": (sys.stdout, sys.stderr, sys.stdin),
        "threads": threading.active_count(),
        "logging": (logging.root.level, list(logging.root.handlers), list(logging.root.filters), logging.root.manager.disable,
                    logging.getLoggerClass(), logging.raiseExceptions, logging.getLogRecordFactory(), logging.lastResort,
                    [logging.getLevelName(n) for n in range(0, 60, 10)]),
        "thread stack size": threading.stack_size(),
    }
    if full:
        import structlog

        mask = os.umask(0o22)
        os.umask(mask)
        s["umask"] = mask
        s["priority"] = os.getpriority(os.PRIO_PROCESS, 0)
        s["locale"] = locale.setlocale(locale.LC_ALL)
        s["time zone"] = (time.tzname, time.timezone, time.altzone, time.daylight)
        s["structlog configured"] = structlog.is_configured()
        s["structlog configuration"] = structlog.get_config()
        s["module search"] = (list(sys.path), list(sys.meta_path), list(sys.path_hooks))
        import resource

        s["resource limits"] = {k: resource.getrlimit(getattr(resource, k)) for k in dir(resource) if k.startswith("RLIMIT_")}
        for n in USES:
            m = sys.modules.get(n)
            if m is not None:
                s["contents of " + n] = attributes(m)
        for n, c in CLASSES:
            m = sys.modules.get(n)
            if m is not None:
                k = getattr(m, c)
                s[f"contents of {n}.{c}"] = dict(attributes(k), **{x: v for x, v in vars(k).items() if x in ("__init__", "__new__", "__del__")})
        mm = sys.modules.get("marshmallow")
        if mm:
            s["marshmallow types"] = {**mm.Schema.TYPE_MAPPING}
            s["marshmallow defaults"] = ({k: v for k, v in vars(mm.Schema.Meta).items() if k[0] != "_"}, dict(mm.fields.Field.default_error_messages),
                                         sorted(mm.fields.DateTime.SERIALIZATION_FUNCS))
    return s


def same(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(a[k] is b[k] or same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(x is y or same(x, y) for x, y in zip(a, b))
    if a is b:
        return True
    if isinstance(a, (int, float, str, bytes, set, frozenset)) or a is None:
        return a == b
    return False


def changes(before, after):
    out = []
    for k, a in before.items():
        if k not in after:
            continue
        b = after[k]
        if k.startswith("contents of "):
            # submodules appear when they are imported
            for n in a:
                if n not in b:
                    out.append(f"{k}: {n} is gone")
                elif b[n] is not a[n] and not same(a[n], b[n]):
                    out.append(f"{k}: {n} replaced by {b[n]!r:.80}")
            out += [f"{k}: {n} added" for n in b if n not in a and type(b[n]).__name__ != "module"]
        elif not same(a, b):
            out.append(f"{k}: was {a!r:.200}, now {b!r:.200}" if len(repr(a)) < 300 else f"{k}: {difference(a, b)}")
    return out


def difference(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return "; ".join(f"{k!r}: {a.get(k)!r:.80} became {b.get(k)!r:.80}" for k in {**a, **b} if not same(a.get(k), b.get(k)))[:400]
    if isinstance(a, (list, tuple)):
        return f"{len(a)} entries became {len(b)}; new {[y for y in b if not any(y is x or same(x, y) for x in a)]!r:.200}"
    return "changed"


class Monitor:
    def __init__(self):
        self.before = snapshot()
        self.found = []
        self.taken = 0
        self.read = 0
        self.waiting = 0
        self.seeded = []
        self.hooks = []  # (object, name, plain value or None, this monitor's hook)

    def look(self, when, full=True):
        for o, n, plain, _ in self.hooks:
            put(o, n, plain)
        try:
            now = snapshot(full)
        finally:
            for o, n, _, mine in self.hooks:
                put(o, n, mine)
        self.taken += 1
        self.read += sum(len(v) if isinstance(v, dict) else 1 for v in now.values())
        for c in changes(self.before, now):
            if len(self.found) < 5:
                self.found.append(f"{when}: {c}")

    @contextlib.contextmanager
    def watched(self):
        """Look while operations wait for the device, and note who reseeds the random generator."""
        every = [0]

        def during(cls, name):
            plain = getattr(cls, name)

            def call(me, *a):
                every[0] += 1
                if every[0] % 16 == 1:
                    self.look(f"while in {name}", full=every[0] % 256 == 1)
                    self.waiting += 1
                return plain(me, *a)

            self.hook(cls, name, vars(cls).get(name), call)

        def noting(name, plain):
            def call(*a, **k):
                self.seeded.append(f"random.{name}")
                return plain(*a, **k)

            self.hook(random, name, plain, call)

        during(device.MemoryTransport, "recv")
        during(socket.socket, "recv")
        during(serial.Serial, "read")
        noting("seed", random.seed)
        noting("setstate", random.setstate)
        try:
            yield
        finally:
            for o, n, plain, _ in self.hooks:
                put(o, n, plain)
            self.hooks = []

    def hook(self, o, name, plain, mine):
        self.hooks.append((o, name, plain, mine))
        put(o, name, mine)


def put(o, name, v):
    if v is None:
        delattr(o, name)
    else:
        setattr(o, name, v)


def exercise(E, mon, case, w, n):
    """n steps of one of C32's workloads under the monitor."""
    from rv.props import c32

    rng = random.Random(case["seed"])
    counts = dict.fromkeys(("answered", "device-errors", "failed", "decoded", "refused"), 0)
    if "tcp" in w or "pty" in w:  # the harness's peers have threads
        mon.before.pop("threads", None)
    if w in OWN:
        step, close, weight = own_workload(E, rng, w, case)
    else:
        step, close, weight = c32.workload(E, rng, {"w": w, "enc": case.get("enc", 0), "seed": case["seed"]}, counts)
    done = 0
    try:
        with mon.watched():
            for _ in range(max(3, n // weight)):
                step()
                done += 1
                if done == 1:
                    at_exit = atexit._ncallbacks()
        mon.look(f"after {done} operations ({w})")
        if atexit._ncallbacks() > at_exit + 1:  # something imported late may want one
            mon.found.append(f"during {w}: {atexit._ncallbacks() - at_exit} functions registered to run when the process ends")
        if mon.seeded:
            mon.found.append(f"during {w}: {mon.seeded[:2]} called")
    finally:
        if close:
            close()
    return done


# -- in this process -----------------------------------------------------------


def use_case(E, obs, case):
    out, err = io.StringIO(), io.StringIO()
    here = os.getcwd()
    scratch = tempfile.mkdtemp(prefix="rv36-")
    try:
        os.chdir(scratch)
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err), warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter("ignore", ResourceWarning)
            mon = Monitor()
            n = exercise(E, mon, case, case["w"], 40)
        files = os.listdir(scratch)
    finally:
        os.chdir(here)
        shutil.rmtree(scratch, ignore_errors=True)
    obs.eval(mon.taken)
    obs.count("operations", n)
    obs.count("snapshots", mon.taken)
    obs.count("while-waiting", mon.waiting)
    obs.count("settings-read", mon.read)
    obs.count("workloads")
    obs.maximum("warnings", len(caught))
    obs.seen(case["w"], case["enc"])
    obs.expect(not mon.found, lambda: f"process-wide state changed: {mon.found[0]}", "state")
    obs.expect(not out.getvalue() and not err.getvalue(), lambda: f"{case['w']}: written to the standard streams: {(out.getvalue() + err.getvalue())[:200]!r}", "output")
    obs.expect(not files, lambda: f"{case['w']}: files left in the working directory: {files}", "files")


# -- in a fresh process ----------------------------------------------------------

CHILD = "import sys; sys.path.insert(0, sys.argv[1]); from rv.props import c36; c36.child(sys.argv[2])"


def child(text):
    """Runs in its own process: import, use, report."""
    import importlib

    case = json.loads(text)
    rng = random.Random(case["seed"])
    # what elgas builds on is there first; its own effects are not judged here
    import attr  # noqa: F401
    import cryptography.hazmat.primitives.ciphers  # noqa: F401
    import marshmallow  # noqa: F401
    import serial  # noqa: F401
    import structlog

    from rv.props import c32  # noqa: F401

    out, err = io.StringIO(), io.StringIO()
    sys.path.insert(0, core.REPO)
    decimal.getcontext().prec = rng.choice((9, 28, 50))
    socket.setdefaulttimeout(rng.choice((None, 3.5, 30)))
    os.umask(rng.choice((0o22, 0o77)))
    gc.set_threshold(rng.choice((700, 5000)))
    sys.setrecursionlimit(rng.choice((1000, 1500)))
    warnings.filterwarnings("ignore", message="nothing")
    signal.signal(signal.SIGUSR1, lambda *a: None)
    logging.basicConfig(level=rng.choice((10, 30)), stream=err)
    if case["log"] == "configured":
        structlog.configure(wrapper_class=structlog.make_filtering_bound_logger(logging.CRITICAL), cache_logger_on_first_use=False)
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        mon = Monitor()
        with mon.watched():
            order = case["modules"]
            for n in order[:1]:
                importlib.import_module(n)
            mon.look(f"after import {order[0]}")
            for n in order[1:]:
                importlib.import_module(n)
            mon.look("after importing the package")
        imported = out.getvalue() + err.getvalue()
        if mon.seeded:
            mon.found.append(f"on import: {mon.seeded[:2]} called")
        E = {n[len("elgas."):]: m for n, m in sys.modules.items() if n.startswith("elgas.")}
        n = 0
        for w in rng.sample(("good", "errors", "noise", "silence", "reconnect", "parse", "schema", "mixed", "call", "cipher"), 3):
            n += exercise(E, mon, case, w, 12)
    where = os.path.realpath(sys.modules["elgas"].__file__)
    result = {
        "found": mon.found, "taken": mon.taken, "waiting": mon.waiting, "read": mon.read, "operations": n, "import-output": imported[:300],
        "output": (out.getvalue() if case["log"] == "configured" else "")[:300] + err.getvalue()[:300], "where": where, "files": os.listdir("."),
    }
    sys.__stdout__.write("\nRESULT " + json.dumps(result) + "\n")
    sys.__stdout__.flush()


def import_case(obs, case):
    rng = random.Random(case["seed"])
    names = package()
    rest = ["elgas.client", "elgas.parser", "elgas.connection", "elgas.application", "elgas.transport", "elgas.integration",
            "elgas.security", "elgas.utils", "elgas.frames", "elgas.state", "elgas.constants", "elgas.exceptions", "elgas.parameters.factory",
            "elgas.parameters.enumerations"]
    rng.shuffle(rest)
    first = case["first"] or rng.choice(names)
    arg = json.dumps(dict(case, modules=[first] + rest))
    scratch = tempfile.mkdtemp(prefix="rv36-")
    try:
        p = subprocess.run(
            [sys.executable, "-B", "-c", CHILD, core.ROOT, arg], cwd=scratch, capture_output=True, text=True, timeout=90,
            env={**os.environ, "HOME": scratch, "TMPDIR": scratch, "RV_REPO": core.REPO, "PYTHONDONTWRITEBYTECODE": "1"}, stdin=subprocess.DEVNULL,
        )
    except subprocess.TimeoutExpired:
        raise core.Inconclusive("a child process did not end")
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    lines = [x for x in p.stdout.splitlines() if x.startswith("RESULT ")]
    obs.eval()
    if not lines:
        obs.fail(f"importing {first} first, then the package, and using it: {p.stderr.strip()[-400:]} (exit {p.returncode})", "import")
    r = json.loads(lines[-1][7:])
    if not r["where"].startswith(os.path.realpath(core.REPO) + os.sep):
        raise core.Inconclusive(f"elgas was imported from {r['where']}")
    for k, n in (("imports", 1), ("snapshots", r["taken"]), ("while-waiting", r["waiting"]), ("settings-read", r["read"]), ("operations", r["operations"])):
        obs.count(k, n)
    obs.seen("import", first, case["log"])
    obs.expect(not r["found"], lambda: f"process-wide state changed: {r['found'][0]}", "state")
    obs.expect(not r["import-output"], lambda: f"importing {first} writes to the standard streams: {r['import-output']!r}", "output")
    obs.expect(not r["output"], lambda: f"written to the standard streams: {r['output']!r}", "output")
    obs.expect(not r["files"], lambda: f"files left in the working directory: {r['files']}", "files")
    obs.sample({"first": first, "log": case["log"], "snapshots": r["taken"], "settings": r["read"]}, 3)


def run(case, obs):
    if case["m"] == "import":
        import_case(obs, case)
    else:
        use_case(core.load_elgas(), obs, case)
