"""C39 what the library does does not depend on how the application set up its process."""
import gc
import json
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
import traceback

from rv import core, device, layouts, net, ref
from rv.props import c16, c23, c37

ID = "C39"
SCALE = 2
RULE = (
    "The same seeded workloads (bare connections, client sessions with device errors, parsing, codecs, schemas, sessions "
    "and lines on real sockets and pseudo terminals) run in fresh processes: one plain, the others set up as hostile "
    "applications do (hash seed, -O and -OO, text encoding, locale, time zone, wall clock that jumps, decimal context, "
    "default socket timeout, interval signals, closed standard streams, a thousand open files, another thread, an event "
    "loop, a forked worker, an embedding program, a debugger, little stack left, collector settings, seeded random generator, import order, no environment "
    "or working directory).  Traces of requests, values and errors must be equal.  Distinct = distinct (setting, workload)."
)
MIN = {"processes": 140, "compared": 900, "trace-entries": 30000, "settings": 22, "transports": 200, "lines": 2000, "round-trips": 1500}
CASE_ALARM_S = 480.0

# name: what it does; see prepare() and CHILD below
ALWAYS = ("hash", "O", "OO", "encoding", "locale", "zone", "wall-clock", "decimal", "socket-timeout", "signals", "closed-streams",
          "many-files", "thread", "event-loop", "forked", "little-stack", "no-collector", "collector", "random", "import-order",
          "nowhere", "dev-mode", "busy", "float-traps",
          "embedded", "traced", "import-in-thread")


def gen(ctx):
    i = 0
    for r in range(1 if not ctx.thorough else 12):
        for k in range(0, 9):
            # every shard compares three settings with one plain process
            if i % ctx.nshards == ctx.shard:
                yield {"settings": [ALWAYS[(k * 3 + j + r) % len(ALWAYS)] for j in range(3)], "seed": ctx.seed * 8191 + i}
            i += 1
    for s in ctx.seeds("more", 16, 400):
        yield {"settings": random.Random(s).sample(ALWAYS, 3), "seed": s}


# -- workloads -----------------------------------------------------------------


def schema_script(E, obs, seed, trace, shared):
    rng = random.Random(seed)
    T = E["parameters.enumerations"].ParameterObjectType
    F = E["parameters.factory"].ParameterFactory
    for lay in rng.sample(layouts.DECODABLE, 12):
        data, want = c16.finite_record(rng, lay, rng.random() < 0.5)
        obj = F.from_bytes(T(lay.code), data)
        sch = c16.schema(E, lay.code)
        dumped = sch.dump(obj)
        trace.append(("dumped", lay.cls, json.dumps(dumped)))
        trace.append(("loaded", c23.text(sch.load(json.loads(json.dumps(dumped))))))
        bad = dict(dumped)
        bad.pop(rng.choice(sorted(bad)))
        trace.append(("incomplete", c23.text(c23.guard(trace, obs, "load", sch.load, bad))))
        obs.count("round-trips")
        yield


def errors_script(E, obs, seed, trace, shared):
    """Every error byte a device can answer with."""
    rng = random.Random(seed)
    c = device.rand_config(rng)
    conn = device.make_connection(E, c)
    for byte in rng.sample(range(1, 256), 100) + [1 << i for i in range(8)]:
        kind = rng.choice(device.KINDS)
        conn.send(device.make_request(E, kind, device.gen_request(rng, kind, c["password"])))
        conn.receive_data(device.reply_wire(c, ref.KIND_SERVICE[kind], bytes((byte,)), rng))
        trace.append((byte, c23.text(c23.guard(trace, obs, "event", conn.next_event))))
        yield


def lines_script(E, obs, seed, trace, shared):
    """Lines in pieces and with pauses on a real transport."""
    rng = random.Random(seed)
    pty = rng.random() < 0.3 and not shared.get("tcp-only")
    peer = (net.PtyPeer if pty else net.TcpPeer)()
    obs.count("transports")
    try:
        tr = peer.transport(E, rng.choice((5, 20)))
        tr.connect()
        peer.accept()
        for _ in range(6):
            lines = [rng.randbytes(rng.randrange(1, 60)).replace(b"\r", b"x") + b"\r" for _ in range(rng.randrange(1, 6))]
            pieces = device.split(rng, b"".join(lines))

            def write():
                for p in pieces:
                    peer.write(p)
                    if rng.random() < 0.2:
                        time.sleep(0.002)

            t = net.background(write)
            for _ in lines:
                trace.append(("line", c23.text(c23.guard(trace, obs, "recv", tr.recv))))
                obs.count("lines")
            t.result()
            data = rng.randbytes(rng.choice((3, 300, 3000)))
            t = net.background(lambda: peer.read(len(data)))
            sent = []
            c23.guard(trace, obs, "send", lambda: (tr.send(data), sent.append(1)))
            trace.append(("read", c23.text(t.result() if sent else b"")))
            yield
        tr.disconnect()
        trace.append(("again", c23.text(c23.guard(trace, obs, "send", tr.send, b"x\r"))))
    finally:
        peer.close()


def workload(E, seed, tcp_only):
    """(name, trace) of every script of a case, and what was counted."""
    obs = core.Obs(None)
    rng = random.Random(seed)
    out = []
    scripts = [c23.connection_script] * 2 + [c23.client_script] * 2 + [c23.parser_script, c23.codec_script] + [schema_script] * 4 + [errors_script] * 2 + [lines_script] * 3
    if not tcp_only:
        scripts.append(c37.real_script)
    for i, f in enumerate(scripts):
        trace = []
        for _ in f(E, obs, rng.randrange(2**40), trace, {"tcp-only": 1} if f is lines_script and tcp_only else {}):
            pass
        out.append((f.__name__, json.loads(json.dumps(trace))))
    return out, obs.counters


# -- the child -------------------------------------------------------------------

CHILD = "import sys; sys.path.insert(0, sys.argv[1]); from rv.props import c39; c39.child(sys.argv[2])"


def load(order_rng=None):
    import importlib

    import structlog

    sys.dont_write_bytecode = True
    sys.path.insert(0, core.REPO)
    core.silence(structlog)
    if order_rng:
        from rv.props import c36

        names = c36.package()
        order_rng.shuffle(names)
        for n in names:
            importlib.import_module(n)
    E = {n: importlib.import_module("elgas." + n) for n in (
        "constants exceptions utils security frames application state connection transport client parser integration "
        "parameters.enumerations parameters.factory").split()}
    where = os.path.realpath(E["client"].__file__)
    if not where.startswith(os.path.realpath(core.REPO) + os.sep):
        raise core.Inconclusive(f"elgas was imported from {where}")
    core._loaded = E
    return E


def child(text):
    case = json.loads(text)
    result = {}
    try:
        result["out"], result["counters"] = Setting(case).run()
    except core.Inconclusive as e:
        result["inconclusive"] = str(e)
    except core.Violation as e:
        result["error"] = e.message
    except BaseException as e:
        result["error"] = f"{type(e).__name__}: {e} at " + " < ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in traceback.extract_tb(e.__traceback__)[:-6:-1])
    with open(case["result"], "w") as f:
        json.dump(result, f)
    os._exit(0)


class Setting:
    def __init__(self, case):
        self.case = case
        self.name = case["setting"]
        self.rng = random.Random(case["seed"] ^ 0x5E77)

    def run(self):
        n, rng = self.name, self.rng
        before = getattr(self, "before_" + n.replace("-", "_"), None)
        if before:
            before()
        E = net.background(load).result(60) if n == "import-in-thread" else load(rng if n == "import-order" else None)
        work = lambda: workload(E, self.case["seed"], self.case["tcp-only"])
        how = getattr(self, "in_" + n.replace("-", "_"), None)
        return how(work) if how else work()

    # -- before the package is imported

    def before_locale(self):
        import locale

        locale.setlocale(locale.LC_ALL, self.rng.choice(("C", "POSIX", "C.utf8")))

    def before_wall_clock(self):
        real, real_ns, rng = time.time, time.time_ns, random.Random(1)
        off = [0]

        def step():
            if rng.random() < 0.5:
                off[0] = rng.choice((0, 3600, -3600, 86400 * 400, -86400 * 400, 11, -11))
            return off[0]

        time.time = lambda: real() + step()
        time.time_ns = lambda: real_ns() + step() * 10**9

    def before_decimal(self):
        import decimal

        for c in (decimal.getcontext(), decimal.DefaultContext):
            c.prec, c.rounding, c.Emax, c.Emin = 2, decimal.ROUND_UP, 9, -9

    def before_float_traps(self):
        import decimal

        c = decimal.getcontext()
        for s in (decimal.Inexact, decimal.Rounded, decimal.FloatOperation, decimal.Subnormal):
            c.traps[s] = True
        sys.set_int_max_str_digits(640)

    def before_socket_timeout(self):
        import socket

        socket.setdefaulttimeout(self.rng.choice((0.001, 0.0, 1e-6)))

    def before_closed_streams(self):
        for n in ("stdin", "stdout", "stderr", "__stdin__", "__stdout__", "__stderr__"):
            setattr(sys, n, None)
        for fd in (0, 1, 2):
            os.close(fd)

    def before_embedded(self):
        sys.argv, sys.orig_argv, sys.executable = [], [], self.rng.choice(("", None))

    def before_no_collector(self):
        gc.disable()
        gc.freeze()

    def before_collector(self):
        gc.set_threshold(3, 2, 2)

    def before_random(self):
        random.seed(self.rng.choice((0, 1, "application")))
        if self.rng.random() < 0.7:
            random.gauss(0, 1)  # leaves the second of a pair behind

    def before_nowhere(self):
        d = tempfile.mkdtemp(prefix="rv39-gone-")
        os.chdir(d)
        os.rmdir(d)
        os.environ.clear()
        tempfile.tempdir = "/nonexistent"

    # -- around the workload

    def in_signals(self, work):
        hits = [0]

        def handler(*a):
            hits[0] += 1

        signal.signal(signal.SIGALRM, handler)
        signal.setitimer(signal.ITIMER_REAL, 0.003, 0.003)
        try:
            out, counters = work()
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        return out, {**counters, "signals": hits[0]}

    def in_many_files(self, work):
        import resource

        hard = resource.getrlimit(resource.RLIMIT_NOFILE)[1]
        if hard < 1300:
            raise core.Inconclusive(f"only {hard} files may be open")
        resource.setrlimit(resource.RLIMIT_NOFILE, (hard, hard))
        held = [os.open(os.devnull, os.O_RDONLY) for _ in range(1150)]
        try:
            return work()
        finally:
            for fd in held:
                os.close(fd)

    def in_thread(self, work):
        return net.background(work).result(150)

    def in_event_loop(self, work):
        import asyncio

        async def main():
            asyncio.get_running_loop().call_later(0.01, lambda: None)
            return work()

        return asyncio.run(main())

    def in_forked(self, work):
        work()
        pid = os.fork()
        if pid == 0:
            return work()  # the worker reports; its parent ends below
        os.waitpid(pid, 0)
        os._exit(0)

    def in_little_stack(self, work):
        def down(n):
            return down(n - 1) if n else work()

        sys.setrecursionlimit(1000)
        return down(1000 - 330 - len(traceback.extract_stack()))

    def in_traced(self, work):
        events = [0]

        def tracer(frame, event, arg):
            events[0] += 1
            return tracer if frame.f_code.co_filename.startswith(core.REPO) else None

        sys.settrace(tracer)
        sys.setprofile(lambda *a: None)
        try:
            return work()
        finally:
            sys.settrace(None)
            sys.setprofile(None)

    def in_busy(self, work):
        sys.setswitchinterval(1e-5)
        stop = []

        def spin():
            x = 0
            while not stop:
                x += 1

        t = threading.Thread(target=spin, daemon=True)
        t.start()
        try:
            return work()
        finally:
            stop.append(1)
            t.join()


def start(case, rng, limit):
    """Run one child; its result, None if it does not end."""
    name = case["setting"]
    scratch = tempfile.mkdtemp(prefix="rv39-")
    env = {k: v for k, v in os.environ.items() if k[:3] not in ("LC_", "LAN", "PYT")}
    env.update(HOME=scratch, TMPDIR=scratch, RV_REPO=core.REPO, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", TZ="UTC", LC_ALL="C.UTF-8")
    flags = ["-B"]
    if name == "hash":
        env["PYTHONHASHSEED"] = str(rng.randrange(1, 2**32))
    elif name in ("O", "OO"):
        flags.append("-" + name)
    elif name == "dev-mode":
        flags += ["-X", "dev"]
    elif name == "encoding":
        env.update(LC_ALL="POSIX", PYTHONUTF8="0", PYTHONCOERCECLOCALE="0", PYTHONIOENCODING=rng.choice(("ascii", "utf-16", "latin-1")))
    elif name == "zone":
        env["TZ"] = rng.choice([f["tz"] for f in core.FLAVOURS if "tz" in f])
    result = os.path.join(scratch, "result.json")
    try:
        p = subprocess.run(
            [sys.executable, *flags, "-c", CHILD, core.ROOT, json.dumps(dict(case, result=result))], cwd=scratch, capture_output=True, timeout=limit,
            env=env, stdin=subprocess.DEVNULL)
        if not os.path.exists(result):
            return {"error": f"the process ended (exit {p.returncode}) without a result: {p.stderr[-400:]!r}"}
        with open(result) as f:
            return json.load(f)
    except subprocess.TimeoutExpired:
        return None
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run(case, obs):
    rng = random.Random(case["seed"])
    # pyserial itself cannot use descriptors above 1023
    tcp_only = "many-files" in case["settings"]
    base = {"seed": case["seed"], "tcp-only": tcp_only}
    began = time.monotonic()
    plain = start(dict(base, setting="plain"), rng, 150)
    took = time.monotonic() - began
    if not plain:
        raise core.Inconclusive("a plain process did not end")
    if "inconclusive" in plain:
        raise core.Inconclusive(plain["inconclusive"])
    obs.count("processes")
    if "error" in plain:
        obs.fail(f"in a plain process: {plain['error']}", "fails")
    for name in case["settings"]:
        r = start(dict(base, setting=name), rng, 80) or start(dict(base, setting=name), rng, 100)
        if not r:
            if took > 8:
                raise core.Inconclusive(f"a process set up with '{name}' did not end; a plain one took {took:.0f} s")
            obs.fail(f"process set up with '{name}' does not end; a plain one took {took:.1f} s", "hangs")
        obs.count("processes")
        obs.eval()
        if "inconclusive" in r:
            raise core.Inconclusive(r["inconclusive"])
        if "error" in r:
            obs.fail(f"process set up with '{name}': {r['error']}; plain process works", "fails")
        for (script, a), (_, b) in zip(plain["out"], r["out"]):
            if a != b:
                i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
                obs.fail(f"process set up with '{name}': {script} step {i}: {core.short(b[i:i + 1])}, plain process: {core.short(a[i:i + 1])}", "differs")
            obs.count("compared")
            obs.count("trace-entries", len(a))
        for k, v in r["counters"].items():
            if k in ("transports", "lines", "round-trips", "signals"):
                obs.count(k, v)
        obs.count("settings")
        obs.seen(name, case["seed"])
    obs.sample({"settings": case["settings"], "scripts": [s for s, _ in plain["out"]]}, 3)
