"""C41 a client drives any transport that follows the protocol."""
import random
import types

from rv import core, device, ref

ID = "C41"
SCALE = 8
RULE = (
    "Clients run over transports of the caller's own making which have the four methods of the protocol and nothing "
    "else: slotted, read-only, falsy, empty, uncomparable, unhashable, made of closures, proxies that note every name "
    "used, subclasses of the package's own transports; with any result from connect, disconnect and send, and reading "
    "into a buffer they use again.  An automaton checks the order and the arguments of the calls, and that nothing is "
    "read once the answer has been handed over.  Each method also fails with the caller's own exception.  "
    "Distinct = distinct (transport, encrypted, operation, ending)."
)
MIN = {"operations": 2500, "answered": 2000, "own-exceptions": 500, "reused-buffer": 150, "calls-checked": 8000, "transports": 200,
       "recovered": 400, "connected-before": 20}

SHAPES = ("plain", "slots", "readonly", "falsy", "empty", "uncomparable", "closures", "proxy", "tcp-subclass", "serial-subclass", "static", "callables")


class OwnError(Exception):
    pass


class OwnOSError(OSError):
    pass


class OwnValueError(ValueError):
    pass


class OwnLookup(KeyError):
    pass


class OwnTimeout(TimeoutError):
    pass


class OwnAttribute(AttributeError):
    pass


class OwnType(TypeError):
    pass


class OwnAssertion(AssertionError):
    pass


class OwnEOF(EOFError):
    pass


class OwnConnection(ConnectionResetError):
    pass


OWN = (OwnError, OwnOSError, OwnValueError, OwnLookup, OwnTimeout, OwnAttribute, OwnType, OwnAssertion, OwnEOF, OwnConnection)


def gen(ctx):
    for s in ctx.seeds("shape", 240, 4000):
        yield {"m": SHAPES[s % len(SHAPES)], "seed": s}


class Line:
    """The automaton behind a transport, whatever the transport looks like."""

    def __init__(self, obs, rng, dev, kind):
        self.obs, self.rng, self.dev = obs, rng, dev
        self.kind = kind
        self.up = False
        self.calls = []
        self.queue = []
        self.answers = False  # an answer is under way
        self.fail = {}  # method: exception to raise, once
        self.buffer = bytearray()
        self.names = set()

    def called(self, name, args, kwargs=None):
        self.calls.append(name)
        self.obs.count("calls-checked")
        if len(self.calls) > 20000:
            raise core.Violation("endless use of the transport", "order")
        if args and name != "send" or kwargs or name == "send" and len(args) != 1:
            raise core.Violation(f"{name} called with {args!r:.100}, {kwargs!r:.100}", "arguments")
        e = self.fail.pop(name, None)
        if e is not None:
            raise e

    def result(self):
        return self.rng.choice((None, 0, False, 17, "text", b"bytes", [], object()))

    def connect(self, *a, **k):
        self.called("connect", a, k)
        if self.up:
            raise core.Violation("connect on a connected transport", "order")
        self.up = True
        self.queue = []
        self.answers = False
        return self.result()

    def disconnect(self, *a, **k):
        self.called("disconnect", a, k)
        self.up = False
        self.queue = []
        return self.result()

    def send(self, *a, **k):
        self.called("send", a, k)
        if not self.up:
            raise core.Violation("send on a transport that is not connected", "order")
        if self.queue and any(x != b"\r" and x for x in self.queue):
            raise core.Violation("a request is sent before the answer to the last one has been read", "order")
        data = a[0]
        if not isinstance(data, (bytes, bytearray)):
            raise core.Violation(f"send was given a {type(data).__name__}", "arguments")
        if bytes(data).count(b"\r") != 1 or bytes(data)[-1:] != b"\r":
            raise core.Violation(f"send was not given one whole message: {bytes(data)!r:.200}", "arguments")
        self.queue += self.dev.handle(bytes(data))
        self.answers = True
        return self.result()

    def recv(self, *a, **k):
        self.called("recv", a, k)
        if not self.up:
            raise core.Violation("recv on a transport that is not connected", "order")
        if not self.queue:
            raise core.Violation("the transport is asked for data after the whole answer has been handed over", "reads-on")
        x = self.queue.pop(0)
        if self.rng.random() < 0.3:
            # the transport reads everything into one buffer of its own
            self.buffer[:] = x
            self.obs.count("reused-buffer")
            return self.buffer
        self.buffer[:] = self.rng.randbytes(5) + b"\r"
        return x


METHODS = ("connect", "disconnect", "send", "recv")


def make(E, line, shape):
    """A transport of that shape over the line."""
    fwd = {n: (lambda n: lambda self, *a, **k: getattr(line, n)(*a, **k))(n) for n in METHODS}
    T = E["transport"]
    if shape == "slots":
        return type("Slotted", (), {**fwd, "__slots__": ()})()
    if shape == "readonly":
        def no(self, *a):
            raise AttributeError("transports belong to the caller")

        return type("ReadOnly", (), {**fwd, "__setattr__": no, "__delattr__": no})()
    if shape == "falsy":
        return type("Falsy", (), {**fwd, "__bool__": lambda self: False})()
    if shape == "empty":
        return type("Empty", (), {**fwd, "__len__": lambda self: 0, "__iter__": lambda self: iter(())})()
    if shape == "uncomparable":
        def no(self, *a):
            raise TypeError("do not compare")

        return type("Uncomparable", (), {**fwd, "__eq__": no, "__ne__": no, "__hash__": None})()
    if shape == "closures":
        return types.SimpleNamespace(**{n: getattr(line, n) for n in METHODS})
    if shape == "callables":
        class Call:
            def __init__(self, n):
                self.n = n

            def __call__(self, *a, **k):
                return getattr(line, self.n)(*a, **k)

        return types.SimpleNamespace(**{n: Call(n) for n in METHODS})
    if shape == "static":
        return type("Static", (), {n: staticmethod((lambda n: lambda *a, **k: getattr(line, n)(*a, **k))(n)) for n in METHODS})
    if shape == "proxy":
        class Proxy:
            def __getattribute__(self, n):
                if n.startswith("__"):
                    return object.__getattribute__(self, n)
                line.names.add(n)
                if n not in METHODS:
                    raise AttributeError(f"transports have no {n}")
                return getattr(line, n)

        return Proxy()
    if shape == "tcp-subclass":
        return type("Own", (T.BlockingTcpTransport,), fwd)("192.0.2.1", 1, 3)
    if shape == "serial-subclass":
        return type("Own", (T.SerialTransport,), fwd)("/nonexistent/port", 9600, 3)
    return type("Plain", (), fwd)()


def run(case, obs):
    E = core.load_elgas()
    rng = random.Random(case["seed"])
    shape = case["m"]
    c = device.rand_config(rng, addresses="client")
    objects = device.gen_objects(rng, rng.choice((1, 3, 8)))
    last = rng.random() < 0.4  # the device ends the list with an empty page
    page = (lambda i, left: (rng.choice((1, 2, left)), False) if left else (0, True)) if last else lambda i, left: rng.choice((1, 2, left))
    dev = device.SimDevice(c, rng, objects, page=page, max_payload=rng.choice((10, 80, 400)))
    mode = rng.choice((0, 1, 3, 4, 5, 6, None))
    dev.chunks = lambda w: device.split(rng, w, mode if len(w) < 200 or mode != 1 else 5)
    line = Line(obs, rng, dev, shape)
    # stray end characters may stay unread, so there are none behind the answer
    dev.deliver = lambda w: [b"\r"] * rng.choice((0, 0, 0, 1, 3)) + trimmed(dev.chunks(w))
    tr = make(E, line, shape)
    client = device.make_client(E, c, tr)
    obs.count("transports")
    obs.expect(not line.calls, lambda: f"making a client calls {line.calls}", "order")

    def only(what, fn):
        n = len(line.calls)
        fn()
        obs.equal(line.calls[n:], [what], f"transport calls for one {what} of the client", "order")

    if rng.random() < 0.25:  # connected by the application
        tr.connect()
        obs.count("connected-before")
        if rng.random() < 0.3:
            only("disconnect", client.disconnect)
            only("connect", client.connect)
    else:
        only("connect", client.connect)
    for _ in range(12):
        kind = rng.choice(device.KINDS)
        method, kw = device.gen_call(rng, kind, len(objects))
        x = rng.random()
        ending = "answered"
        obs.eval()
        obs.count("operations")
        if x < 0.25:
            ending = failing(E, obs, rng, c, client, line, dev, kind, method, kw)
        elif x < 0.4:
            dev.fault = lambda k: ("error", rng.choice((1, 2, 4, 8, 16, 32, 64, 128)))
            try:
                device.do_call(E, client, method, kw)
                obs.fail(f"{method}: a device error was not raised", "answer")
            except E["exceptions"].ElgasError:
                ending = "error"
            finally:
                dev.fault = None
        else:
            mark, first = len(dev.log), len(line.calls)
            try:
                result = device.do_call(E, client, method, kw)
            except core.Violation:
                raise
            except Exception as e:
                obs.fail(f"{method} over a {shape} transport raised {type(e).__name__}: {e}", "answer")
            d = device.check_call(c, dev, mark, kind, kw, result)
            obs.expect(not d, lambda: f"{method} over a {shape} transport: {d[:3]}", "answer")
            made = line.calls[first:]
            obs.expect(set(made) == {"send", "recv"} and made[0] == "send", lambda: f"{method} calls {made[:20]}", "order")
            obs.count("answered")
        obs.seen(shape, bool(c["key"]), kind, ending)
    only("disconnect", client.disconnect)
    if rng.random() < 0.3:  # connected by the application, for the client to close
        tr.connect()
        only("disconnect", client.disconnect)
    obs.expect(line.names <= set(METHODS), lambda: f"the client uses {sorted(line.names - set(METHODS))} of its transport", "names")
    obs.sample({"transport": shape, "calls": line.calls[-6:]}, 4)


def trimmed(pieces):
    """No empty pieces behind the answer."""
    while pieces and not pieces[-1]:
        pieces = pieces[:-1]
    return pieces


def failing(E, obs, rng, c, client, line, dev, kind, method, kw):
    """One method fails with the caller's own exception; the client works again after reconnecting."""
    where = rng.choice(("send", "recv", "recv", "connect", "disconnect"))
    error = rng.choice(OWN)("the transport's own", rng.random())
    if where in ("connect", "disconnect"):
        if where == "connect":
            client.disconnect()
        line.fail[where] = error
        fn = getattr(client, where)
    else:
        n = [rng.choice((0, 0, 1, 2)) if where == "recv" else 0]
        plain = line.called

        def called(name, a, k=None):
            if name == where:
                if n[0] == 0:
                    line.fail[where] = error
                n[0] -= 1
            plain(name, a, k)

        line.called = called
        fn = lambda: device.do_call(E, client, method, kw)
    try:
        fn()
    except core.Violation:
        raise
    except BaseException as e:
        obs.expect(e is error,
                   lambda: f"{where} failed with {error!r}, the caller got {e!r}", "own-exception")
        obs.count("own-exceptions")
    else:
        obs.expect(where == "recv" and n[0] >= 0, lambda: f"{where} failed with {error!r}, the caller got nothing", "own-exception")
    finally:
        line.__dict__.pop("called", None)
        line.fail.clear()
    if where != "connect":
        client.disconnect()
    client.connect()
    mark = len(dev.log)
    try:
        result = device.do_call(E, client, method, kw)
    except core.Violation:
        raise
    except Exception as e:
        obs.fail(f"after {where} failed with {error!r} and reconnecting, {method} raised {e!r}", "recovery")
    d = device.check_call(c, dev, mark, kind, kw, result)
    obs.expect(not d, lambda: f"after {where} failed and reconnecting: {d[:3]}", "recovery")
    obs.count("recovered")
    return "own-" + where


