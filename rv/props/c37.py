"""C37 logging never changes what the library does."""
import contextlib
import io
import json
import logging
import random
import socket

import structlog

from rv import core, device, net
from rv.props import c23

ID = "C37"
SCALE = 6
RULE = (
    "The same seeded workload (bare connections with good, bad and unsolicited input, client sessions with device "
    "errors, parsing, codecs, sessions and failures on real sockets and pseudo terminals) runs with logging silenced and "
    "again under fourteen logging configurations (levels, renderers, standard library loggers, structlog's default, dropped "
    "and captured events); traces of results, errors and bytes sent must be equal, every log record must render, and "
    "nothing may be reported on the error stream.  Distinct = distinct (workload, configuration)."
)
MIN = {"runs": 4000, "compared": 4000, "steps": 20000, "configurations": 2000, "transports": 150}
CASE_ALARM_S = 90.0


def gen(ctx):
    for s in ctx.seeds("scripts", 70, 1200):
        yield {"m": "script", "seed": s}
    for s in ctx.seeds("real", 10, 200):
        yield {"m": "real", "seed": s}


# -- logging as applications configure it --------------------------------------


class Lines(io.StringIO):
    pass


def printing(renderer, level):
    def configure(out):
        structlog.configure(
            processors=[structlog.contextvars.merge_contextvars, structlog.processors.add_log_level, structlog.processors.StackInfoRenderer(),
                        structlog.processors.format_exc_info, structlog.processors.TimeStamper(fmt="iso"), renderer()],
            wrapper_class=structlog.make_filtering_bound_logger(level),
            logger_factory=structlog.PrintLoggerFactory(out), cache_logger_on_first_use=False,
        )

    return configure


def standard(renderer, level):
    def configure(out):
        handler = logging.StreamHandler(out)
        handler.setFormatter(logging.Formatter("%(levelname)s %(name)s %(message)s"))
        logging.root.handlers[:] = [handler]
        logging.root.setLevel(level)
        structlog.configure(
            processors=[structlog.stdlib.filter_by_level, structlog.stdlib.add_logger_name, structlog.stdlib.add_log_level,
                        structlog.stdlib.PositionalArgumentsFormatter(), structlog.processors.format_exc_info,
                        structlog.processors.UnicodeDecoder(), *renderer()],
            wrapper_class=structlog.stdlib.BoundLogger, logger_factory=structlog.stdlib.LoggerFactory(), cache_logger_on_first_use=False,
        )

    return configure


def dropping(out):
    def drop(logger, name, event):
        out.write(f"{name} {event!r}\n")
        raise structlog.DropEvent

    structlog.configure(processors=[drop], wrapper_class=structlog.make_filtering_bound_logger(0), cache_logger_on_first_use=False)


def default(out):
    structlog.reset_defaults()


def returning(out):
    """Loggers that return what they log."""
    structlog.configure(processors=[lambda _, n, e: out.write(f"{n} {e}\n") and None or ((), e)], wrapper_class=structlog.BoundLogger,
                        logger_factory=structlog.ReturnLoggerFactory(), cache_logger_on_first_use=False)


def captured(out):
    """Everything logged is kept, with the objects it names."""
    kept = []

    def keep(logger, name, event):
        kept.append(event)
        out.write(f"{name} {event!r}\n")
        raise structlog.DropEvent

    structlog.configure(processors=[keep], wrapper_class=structlog.make_filtering_bound_logger(0), cache_logger_on_first_use=False)


class TextLogger(structlog.stdlib.BoundLogger):
    """Keeps the text of what it is bound with; its parameters have names of their own."""

    def bind(self, **values):
        return super().bind(**{k: str(v) for k, v in values.items()})

    def debug(self, event=None, *args, **kw):
        return super().debug(event, *args, **kw)

    def info(self, event=None, *args, **kw):
        return super().info(event, *args, **kw)


def bound_as_text(out):
    structlog.configure(processors=[structlog.processors.KeyValueRenderer()], wrapper_class=TextLogger,
                        logger_factory=structlog.PrintLoggerFactory(out), cache_logger_on_first_use=False)


CONFIGS = {
    "key-value, all levels": printing(lambda: structlog.processors.KeyValueRenderer(sort_keys=True), 0),
    "json, all levels": printing(structlog.processors.JSONRenderer, 0),
    "json, info": printing(structlog.processors.JSONRenderer, logging.INFO),
    "logfmt, debug": printing(lambda: structlog.processors.KeyValueRenderer(repr_native_str=False), logging.DEBUG),
    "console, debug": printing(lambda: structlog.dev.ConsoleRenderer(colors=True), logging.DEBUG),
    "warnings only": printing(structlog.processors.JSONRenderer, logging.WARNING),
    "standard library, debug": standard(lambda: [structlog.processors.KeyValueRenderer()], logging.DEBUG),
    "standard library, extra fields": standard(lambda: [structlog.stdlib.render_to_log_kwargs], logging.DEBUG),
    "standard library, info": standard(lambda: [structlog.processors.JSONRenderer()], logging.INFO),
    "dropped": dropping,
    "returned": returning,
    "captured": captured,
    "bound as text": bound_as_text,
    "structlog's default": default,
}


@contextlib.contextmanager
def logging_as(name):
    out, err = Lines(), io.StringIO()
    kept = structlog.get_config(), list(logging.root.handlers), logging.root.level
    try:
        with contextlib.redirect_stderr(err), contextlib.redirect_stdout(out):
            CONFIGS[name](out)
            yield out, err
    finally:
        structlog.configure(**kept[0])
        logging.root.handlers[:] = kept[1]
        logging.root.setLevel(kept[2])


# -- workloads -----------------------------------------------------------------


def real_script(E, obs, seed, trace, shared):
    """A session on a real transport, then lost connections and silence."""
    rng = random.Random(seed)
    pty = rng.random() < 0.4
    peer = (net.PtyPeer if pty else net.TcpPeer)()
    c = device.rand_config(rng, addresses="client")
    objects = device.gen_objects(rng, 3)
    dev = device.SimDevice(c, rng, objects, page=lambda i, left: 2, max_payload=60)
    tr = peer.transport(E, 20)
    client = device.make_client(E, c, tr)
    try:
        obs.count("transports")
        c23.guard(trace, obs, "send before connect", tr.send, b"x\r")
        client.connect()
        c23.guard(trace, obs, "connect twice", client.connect)
        peer.accept()
        stop = net.serve(peer, dev)
        yield
        for _ in range(4):
            method, kw = device.gen_call(rng, rng.choice(device.KINDS), len(objects))
            byte = rng.randrange(1, 256) if rng.random() < 0.3 else None
            dev.fault = (lambda k: ("error", byte)) if byte else None
            trace.append((method, c23.text(c23.guard(trace, obs, method, lambda: device.do_call(E, client, method, kw)))))
            yield
        stop()
        trace.append(("device", c23.text([str(f) for f, *_ in dev.log])))
        peer.write(rng.randbytes(20).replace(b"\r", b"x") + b"\r")
        trace.append(("noise", c23.text(c23.guard(trace, obs, "noise", tr.recv))))
        tr.timeout = 0.02
        client.disconnect()
        yield
        if not pty:
            client.connect()
            peer.hang_up()
            peer.accept()
            c23.guard(trace, obs, "silence", client.read_time)
            client.disconnect()
            yield
            client.connect()
            peer.hang_up()
            peer.accept()
            peer.hang_up()
            c23.guard(trace, obs, "lost", client.read_time)
            c23.guard([], obs, "disconnect", client.disconnect)  # may fail or not, depending on how far the loss has got
            yield
            with net.RealSocket(socket.AF_INET, socket.SOCK_STREAM) as held:  # bound, not listening
                held.bind(("127.0.0.1", 0))
                tr.port = held.getsockname()[1]
                c23.guard(trace, obs, "refused", tr.connect)
        else:
            client.connect()
            c23.guard(trace, obs, "silence", client.read_time)
            client.disconnect()
            tr.port = "/dev/pts/none"  # not the one given up: another process may get it
            c23.guard(trace, obs, "no port", tr.connect)
    finally:
        peer.close()


def trace_of(E, obs, script, seed):
    trace = []
    random.seed(seed)
    steps = 0
    for _ in script(E, obs, seed, trace, {}):
        steps += 1
    obs.count("steps", steps)
    obs.count("runs")
    return trace


def run(case, obs):
    E = core.load_elgas()
    rng = random.Random(case["seed"])
    real = case["m"] == "real"
    script = real_script if real else rng.choice(c23.SCRIPTS)
    alone = trace_of(E, obs, script, case["seed"])
    names = rng.sample(sorted(CONFIGS), 3) if real else sorted(CONFIGS)
    for name in names:
        with logging_as(name) as (out, err):
            trace = trace_of(E, obs, script, case["seed"])
        obs.eval()
        if real and trace != alone:  # a real transport depends on the machine: what logging does shows again
            alone = trace_of(E, obs, script, case["seed"])
            with logging_as(name) as (out, err):
                trace = trace_of(E, obs, script, case["seed"])
            obs.count("run-again")
        if trace != alone:
            i = next((i for i, (a, b) in enumerate(zip(trace, alone)) if a != b), min(len(trace), len(alone)))
            obs.fail(f"{script.__name__} with logging '{name}', step {i}: {core.short(trace[i:i + 2])}, silent: {core.short(alone[i:i + 2])}", "differs")
        obs.count("compared")
        obs.count("configurations")
        obs.expect(not err.getvalue(), lambda: f"{script.__name__} with logging '{name}': error stream {err.getvalue()[-400:]!r}", "unrenderable")
        lines = out.getvalue().splitlines()
        obs.count("log-lines", len(lines))
        if name.startswith("json"):
            for line in lines:
                try:
                    json.loads(line)
                except ValueError:
                    obs.fail(f"log line with JSON is {line[:200]!r}", "unrenderable")
        obs.seen(script.__name__, name, case["seed"])
    obs.sample({"script": script.__name__, "log": names[0], "trace": trace[:3]}, 3)
