"""Runner: generates cases, runs them against the code in /repo, judges, reports.

A property module (rv/props/cNN.py) provides

  ID, TITLE, RULE           what it decides and how cases are made
  MIN = {counter: minimum}  events the monitors must have observed, otherwise the
                            run is inconclusive (exit 2), never "held"
  gen(ctx)                  yields JSON-able cases for this shard
  run(case, obs)            executes one case against the real code; the oracle
                            calls obs.fail / obs.expect, counts what it observed

Verdicts: exit 0 held on everything observed; exit 1 VIOLATION line(s); exit 2
inconclusive or harness error.
"""
from __future__ import annotations

import hashlib
import importlib
import json
import multiprocessing
import os
import random
import signal
import sys
import time as _time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("RV_REPO", "/repo")
# absolute names of things taken before any clock is patched
_monotonic = _time.monotonic

STEP_BUDGET = 4_000_000  # lines of elgas code one case may execute
CASE_ALARM_S = 20.0


class Violation(Exception):
    def __init__(self, message, key="violation"):
        super().__init__(message)
        self.message = message
        self.key = key


class Inconclusive(Exception):
    """The harness could not set up or observe what it needs."""


class CaseTimeout(BaseException):
    pass


class StepsExceeded(BaseException):
    pass


# --------------------------------------------------------------------------
# loading the code under test


class Clock:
    """Replaces the time functions before elgas is imported; real unless virtual."""

    def __init__(self):
        self.virtual = None
        self.real = {n: getattr(_time, n) for n in ("monotonic", "time", "perf_counter")}
        self.real_sleep = _time.sleep
        self.queries = 0
        self.on_sleep = None

    def install(self):
        def make(name):
            real = self.real[name]

            def now():
                if self.virtual is None:
                    return real()
                self.queries += 1
                return self.virtual

            now.__name__ = name
            return now

        for name in self.real:
            setattr(_time, name, make(name))
        for name in ("monotonic_ns", "time_ns", "perf_counter_ns"):
            base = getattr(_time, name[:-3])

            def ns(base=base, real=getattr(_time, name)):
                return real() if self.virtual is None else int(base() * 1e9)

            setattr(_time, name, ns)

        def sleep(s):
            if self.on_sleep:
                self.on_sleep(s)
            if self.virtual is None:
                return self.real_sleep(s)
            self.virtual += s

        _time.sleep = sleep


CLOCK = Clock()
_loaded = None


def load_elgas():
    """Import elgas from the working tree of /repo, compiled afresh."""
    global _loaded
    if _loaded is not None:
        return _loaded
    sys.dont_write_bytecode = True
    # never read bytecode left in the tree: sources decide
    sys.pycache_prefix = "/nonexistent/rv-pycache"
    for n in [n for n in sys.modules if n == "elgas" or n.startswith("elgas.")]:
        del sys.modules[n]
    sys.path.insert(0, REPO)
    CLOCK.install()
    import structlog

    silence(structlog)
    mods = {}
    for name in (
        "constants exceptions utils security frames application state connection "
        "transport client parser integration parameters.enumerations parameters.factory"
    ).split():
        m = importlib.import_module("elgas." + name)
        mods[name] = m
        path = os.path.realpath(m.__file__)
        if not path.startswith(os.path.realpath(REPO) + os.sep):
            raise Inconclusive(f"elgas.{name} was imported from {path}, not from {REPO}")
    _loaded = mods
    return mods


# Interpreter environments: each worker process runs its share of the cases in one of them.
FLAVOURS = [
    {},
    {"tz": "EST5EDT,M3.2.0,M11.1.0"},
    {"tz": "XXX-05:30"},
    {"optimize": 1},
    {},
    {"tz": "CET-1CEST,M3.5.0,M10.5.0/3"},
    {"tz": "YYY+11"},
    {"optimize": 2, "tz": "NZST-12NZDT,M9.5.0,M4.1.0/3"},
]


def enter(flavour, prop):
    """Continue in another time zone and/or with elgas compiled as by python -O / -OO."""
    global _loaded
    if flavour.get("tz"):
        os.environ["TZ"] = flavour["tz"]
        _time.tzset()
    level = flavour.get("optimize")
    if level:
        import importlib.machinery as machinery

        plain = machinery.SourceFileLoader.source_to_code

        def source_to_code(self, data, path, *, _optimize=-1):
            return plain(self, data, path, _optimize=level if in_repo(os.fspath(path)) else _optimize)

        machinery.SourceFileLoader.source_to_code = source_to_code
        _loaded = None
        load_elgas()
        if hasattr(prop, "setup"):
            prop.setup()


LOG_HOOK = None  # callable(level name, event dict); set before elgas is loaded to capture its log


def silence(structlog):
    import logging

    if LOG_HOOK:

        def capture(logger, name, event):
            LOG_HOOK(name, event)
            raise structlog.DropEvent

        structlog.configure(
            wrapper_class=structlog.make_filtering_bound_logger(0),
            processors=[structlog.contextvars.merge_contextvars, capture],
            cache_logger_on_first_use=False,
        )
        return
    structlog.configure(
        wrapper_class=structlog.make_filtering_bound_logger(logging.CRITICAL),
        logger_factory=structlog.PrintLoggerFactory(open(os.devnull, "w")),
        cache_logger_on_first_use=False,
    )


def in_repo(filename):
    return filename.startswith(REPO.rstrip("/") + "/elgas/")


# --------------------------------------------------------------------------
# line coverage of the code under test (cheap: each line reported once)


class LineMonitor:
    TOOL = 3

    def __init__(self):
        self.lines = set()

    def start(self):
        mon = sys.monitoring
        try:
            mon.use_tool_id(self.TOOL, "rv")
        except ValueError:
            return
        mon.register_callback(self.TOOL, mon.events.LINE, self._line)
        mon.set_events(self.TOOL, mon.events.LINE)

    def _line(self, code, line):
        if in_repo(code.co_filename):
            self.lines.add((code.co_filename[len(REPO.rstrip("/")) + 1:], line))
        return sys.monitoring.DISABLE


# --------------------------------------------------------------------------
# observations


def _h(x):
    if isinstance(x, (bytes, bytearray)):
        return bytes(x)
    return repr(x).encode()


class Obs:
    def __init__(self, prop):
        self.prop = prop
        self.counters = {}
        self.distinct = set()
        self.samples = []
        self.evaluations = 0
        self.cur_key = None

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def maximum(self, name, v):
        name = "max:" + name
        if v > self.counters.get(name, -1):
            self.counters[name] = v

    def eval(self, n=1):
        """One oracle verdict on one observed execution."""
        self.evaluations += n

    def seen(self, *key):
        """A distinct, non-trivial observation."""
        h = hashlib.blake2b(digest_size=8)
        for k in key:
            b = _h(k)
            h.update(len(b).to_bytes(4, "big"))
            h.update(b)
        self.distinct.add(h.digest())

    def sample(self, obj, limit=4):
        if len(self.samples) < limit:
            self.samples.append(obj)

    def fail(self, message, key="violation"):
        raise Violation(message, key)

    def expect(self, cond, message, key="violation"):
        if not cond:
            raise Violation(message() if callable(message) else message, key)

    def equal(self, got, want, what, key="violation"):
        if type(got) is type(want) or not isinstance(got, (bytes, bytearray)):
            same = got == want
        else:
            same = isinstance(want, (bytes, bytearray)) and bytes(got) == bytes(want)
        if not same:
            raise Violation(f"{what}: got {short(got)}, expected {short(want)}", key)


def attributes(x):
    """Instance attributes by name, with or without slots."""
    out = {}
    for cls in type(x).__mro__:
        for n in [cls.__dict__.get("__slots__", ())] if isinstance(cls.__dict__.get("__slots__", ()), str) else cls.__dict__.get("__slots__", ()):
            if n[:2] != "__" and hasattr(x, n):
                out[n] = getattr(x, n)
    out.update(getattr(x, "__dict__", {}))
    return out


def short(x, n=300):
    if isinstance(x, (bytes, bytearray)):
        s = f"{type(x).__name__}[{len(x)}]:{bytes(x).hex()}"
    else:
        s = repr(x)
    return s if len(s) <= n else s[: n - 20] + f"...({len(s)} chars)"


class Ctx:
    def __init__(self, tier, seed, shard, nshards, scale=1):
        self.tier, self.seed, self.shard, self.nshards = tier, seed, shard, nshards
        self.thorough = tier == "thorough"
        self.scale = scale  # how many times the random part of the quick workload is done

    def rng(self, *name):
        s = hashlib.sha256(repr((self.seed, self.shard, name)).encode()).digest()
        return random.Random(int.from_bytes(s[:8], "big"))

    def seeds(self, name, quick, thorough=None):
        """This shard's part of `quick` (or `thorough`) seeds for random cases."""
        if self.thorough:
            n = max(thorough if thorough is not None else quick * 12, quick * self.scale)
        else:
            n = quick * self.scale
        for i in range(n):
            if i % self.nshards == self.shard:
                s = hashlib.sha256(repr((self.seed, name, i)).encode()).digest()
                yield int.from_bytes(s[:6], "big")

    def mine(self, iterable):
        for i, x in enumerate(iterable):
            if i % self.nshards == self.shard:
                yield x


# --------------------------------------------------------------------------
# running one case


def _alarm(signum, frame):
    raise CaseTimeout()


def run_steps(prop, case, obs, budget=STEP_BUDGET):
    """Re-run a case that hung, counting executed lines of elgas code."""
    steps = [0]

    def local(frame, event, arg):
        if event == "line":
            steps[0] += 1
            if steps[0] > budget:
                raise StepsExceeded()
        return local

    def tracer(frame, event, arg):
        return local if in_repo(frame.f_code.co_filename) else None

    sys.settrace(tracer)
    try:
        _run_raw(prop, case, obs)
    finally:
        sys.settrace(None)


def _run_raw(prop, case, obs):
    random.seed(json.dumps(case, sort_keys=True))
    CLOCK.virtual = None
    try:
        prop.run(case, obs)
    finally:
        CLOCK.virtual = None


def run_case(prop, case, obs):
    """Returns None (held) or (key, message); raises Inconclusive."""
    signal.signal(signal.SIGALRM, _alarm)
    alarm_s = getattr(prop, "CASE_ALARM_S", CASE_ALARM_S)
    signal.setitimer(signal.ITIMER_REAL, alarm_s)
    try:
        _run_raw(prop, case, obs)
        return None
    except CaseTimeout:
        pass
    except Violation as v:
        return v.key, v.message
    except Inconclusive:
        raise
    except Exception as e:  # the code under test did something no oracle expects
        tb = traceback.extract_tb(e.__traceback__)
        if isinstance(e, OSError) and not any(in_repo(f.filename) for f in tb):
            raise Inconclusive(f"the harness's own end failed: {type(e).__name__}: {e} ({tb[-1].filename}:{tb[-1].lineno})")
        where = next(
            (f"{f.filename}:{f.name}" for f in reversed(tb) if in_repo(f.filename)),
            f"{tb[-1].filename}:{tb[-1].name}",
        )
        text = "".join(traceback.format_exception_only(type(e), e)).strip()
        return "unexpected-exception", f"unexpected {text[:400]} (in {where})"
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    # it hung: decide on logical steps, not on wall-clock time
    signal.setitimer(signal.ITIMER_REAL, 120)
    try:
        run_steps(prop, case, obs)
    except StepsExceeded:
        return "no-progress", (
            f"no result after {STEP_BUDGET} executed lines of elgas code (endless loop)"
        )
    except Violation as v:
        return v.key, v.message
    except CaseTimeout:
        if getattr(prop, "HANG_IS_VIOLATION", False):
            return "hang", f"still blocked after {alarm_s:g} s and, run again, after 120 s"
        raise Inconclusive("case hit the wall-clock watchdog without exceeding the step budget")
    except Exception as e:
        return "unexpected-exception", f"unexpected {type(e).__name__}: {e}"
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return None


def load_prop(pid):
    return importlib.import_module("rv.props." + pid.lower())


def worker(pid, tier, seed, shard, nshards, conn):
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    prop = load_prop(pid)
    obs = Obs(prop)
    flavour = FLAVOURS[shard % len(FLAVOURS)]
    enter(flavour, prop)
    mon = LineMonitor()
    mon.start()
    out = {"violations": [], "error": None, "cases": 0}
    try:
        per_key, known, first = {}, known_findings(pid), None
        for case in prop.gen(Ctx(tier, seed, shard, nshards, getattr(prop, "SCALE", 4))):
            out["cases"] += 1
            res = run_case(prop, case, obs)
            if res is not None:
                key, msg = res
                per_key[key] = per_key.get(key, 0) + 1
                if per_key[key] <= 3:
                    out["violations"].append({"case": case, "key": key, "message": msg, "environment": flavour})
                if sum(1 for _ in per_key) > 12 or (per_key[key] > 200 and key not in known) or key in ("hang", "no-progress"):
                    break  # more of these would only cost time
                if key not in known and first is None:
                    first = _monotonic()
            if first is not None and _monotonic() - first > 30:
                break
        obs.count("cases", out["cases"])
        if flavour.get("tz"):
            obs.count("cases-in-another-time-zone", out["cases"])
        if flavour.get("optimize"):
            obs.count("cases-without-assertions", out["cases"])
    except Inconclusive as e:
        out["error"] = f"inconclusive: {e}"
    except BaseException as e:
        out["error"] = "harness: " + "".join(traceback.format_exception(e))[-3000:]
    out.update(
        counters=obs.counters,
        distinct=list(obs.distinct),
        samples=obs.samples,
        evaluations=obs.evaluations,
        lines=sorted(mon.lines),
    )
    conn.send(out)
    conn.close()


# --------------------------------------------------------------------------
# known findings


def known_findings(pid):
    """{key: text} of recorded, unrepaired defects of this property."""
    known = {}
    with open(os.path.join(ROOT, "KNOWN_FINDINGS.txt")) as f:
        for line in f:
            line = line.strip()
            if not line.startswith("known: "):
                continue
            parts = line[len("known: "):].split(" ", 2)
            fields = dict(p.split("=", 1) for p in parts[:2])
            if fields.get("property") == pid:
                known[fields["key"]] = parts[2] if len(parts) > 2 else ""
    return known


# --------------------------------------------------------------------------
# commands


def jsonable(x):
    if isinstance(x, (bytes, bytearray)):
        return bytes(x).hex()
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v) for v in x]
    if isinstance(x, (int, float, str)) or x is None:
        return x
    return repr(x)


def write_replay(pid, tier, seed, v):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    body = {"property": pid, "tier": tier, "seed": seed, **v}
    name = hashlib.sha256(json.dumps(body, sort_keys=True).encode()).hexdigest()[:12]
    path = os.path.join(d, f"{pid}-{name}.json")
    with open(path, "w") as f:
        json.dump(body, f, indent=1)
    return path


def check(pid, tier, seed):
    t0 = _monotonic()
    prop = load_prop(pid)
    if hasattr(prop, "before_load"):
        prop.before_load()
    try:
        load_elgas()
    except Inconclusive as e:
        print(f"INCONCLUSIVE property={pid}: {e}")
        return 2
    if hasattr(prop, "setup"):
        prop.setup()
    n = min(getattr(prop, "SHARDS", 8), max(1, os.cpu_count() or 1))
    n = int(os.environ.get("RV_SHARDS", n))
    budget = getattr(prop, "BUDGET_S", {"quick": 400, "thorough": 3300})[tier]
    ctx = multiprocessing.get_context("fork")
    procs = []
    for i in range(n):
        a, b = ctx.Pipe(duplex=False)
        p = ctx.Process(target=worker, args=(pid, tier, seed, i, n, b), daemon=True)
        p.start()
        b.close()
        procs.append((p, a))
    results, errors = [], []
    for i, (p, a) in enumerate(procs):
        left = max(0.1, budget - (_monotonic() - t0))
        if a.poll(left):
            try:
                results.append(a.recv())
            except EOFError:
                errors.append(f"shard {i} died without a result")
        else:
            errors.append(f"shard {i} exceeded the wall-clock budget of {budget}s")
        if p.is_alive():
            p.join(0.5)
        if p.is_alive():
            p.kill()
            p.join()

    counters, distinct, samples, lines = {}, set(), [], set()
    evaluations = 0
    violations = []
    for r in results:
        if r["error"]:
            errors.append(r["error"])
        for k, v in r["counters"].items():
            counters[k] = max(counters.get(k, 0), v) if k.startswith("max:") else counters.get(k, 0) + v
        distinct.update(r["distinct"])
        samples.extend(r["samples"])
        evaluations += r["evaluations"]
        violations.extend(r["violations"])
        lines.update(map(tuple, r["lines"]))

    known = known_findings(pid)
    reported = []
    hit = {}
    for v in violations:
        if v["key"] in known:
            hit.setdefault(v["key"], v)
        else:
            reported.append(v)

    level = getattr(prop, "LEVEL", "exploration")
    per_file = {}
    for f, _ in lines:
        per_file[f] = per_file.get(f, 0) + 1
    evidence = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": level,
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(distinct),
            "rule": prop.RULE,
            "samples": jsonable(samples[:6]),
            "observed_events": dict(sorted(counters.items())),
            "elgas_lines_executed": dict(sorted(per_file.items())),
            "shards": n,
            "known_findings_reproduced": sorted(hit),
        },
        "assumptions": getattr(prop, "ASSUMPTIONS", []),
        "wall_s": round(_monotonic() - t0, 3),
        "violations": len(reported),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    tmp = os.path.join(ROOT, "evidence", f".{pid}.{os.getpid()}.tmp")
    with open(tmp, "w") as f:
        json.dump(evidence, f, indent=1)
    os.replace(tmp, os.path.join(ROOT, "evidence", f"{pid}.json"))

    for k in sorted(hit):
        print(f"KNOWN-FINDING: property={pid} {known[k]}")
    if reported:
        shown = {}
        for v in reported:
            if v["key"] not in shown:
                shown[v["key"]] = v
                path = write_replay(pid, tier, seed, v)
                print(f"VIOLATION property={pid} replay={path}")
                print(f"  [{v['key']}] {v['message'][:600]}")
        for e in errors:
            print("  note:", e.splitlines()[-1])
        return 1
    if errors:
        for e in errors:
            print(f"INCONCLUSIVE property={pid}: {e}")
        return 2
    missing = {
        k: (counters.get(k, 0), m) for k, m in getattr(prop, "MIN", {}).items() if counters.get(k, 0) < m
    }
    if missing or not evaluations:
        print(f"INCONCLUSIVE property={pid}: too few events observed {missing}")
        return 2
    print(
        f"HELD property={pid} tier={tier} seed={seed} evaluations={evaluations} "
        f"distinct={len(distinct)} wall={evidence['wall_s']}s"
    )
    return 0


def replay(path):
    with open(path) as f:
        body = json.load(f)
    prop = load_prop(body["property"])
    if hasattr(prop, "before_load"):
        prop.before_load()
    load_elgas()
    if hasattr(prop, "setup"):
        prop.setup()
    enter(body.get("environment") or {}, prop)
    res = run_case(prop, body["case"], Obs(prop))
    if res is None:
        print("held: the recorded case no longer violates", body["property"])
        return 0
    print(f"VIOLATION property={body['property']} replay={path}")
    print(f"  [{res[0]}] {res[1]}")
    return 1


def main(argv):
    cmd = argv[0] if argv else "help"
    if cmd == "check":
        tier = os.environ.get("VERIF_TIER", "quick")
        seed = int(os.environ.get("VERIF_SEED", "1"))
        if tier not in ("quick", "thorough"):
            print("VERIF_TIER must be quick or thorough")
            return 2
        return check(argv[1].upper(), tier, seed)
    if cmd == "replay":
        return replay(argv[1])
    if cmd == "selftest":
        from rv import selftest

        return selftest.main()
    print("usage: python -m rv check ID | replay PATH | selftest")
    return 2
