"""C15 reading all parameters page by page."""
import random

from rv import core, device, layouts

ID = "C15"
SCALE = 8
RULE = (
    "A simulated device holding 1..600 random parameter objects answers parameter requests under many paging policies "
    "(one object per page, all at once, random sizes, empty pages, empty last page, size-limited pages), plain and "
    "encrypted, in arbitrary deliveries; the client's list must equal the device's objects from the requested start "
    "and the request log must be the exact paging sequence.  Distinct = distinct (object types, page sizes, start).  A device "
    "without objects is asked once per page."
)
MIN = {"reads": 300, "pages": 1200, "objects": 5000, "over-255": 6, "read-from": 60, "empty-page": 40, "empty-last-page": 20,
       "device-error-mid-way": 20, "second-read": 60,
       "equal-pages": 80, "no-objects": 20, "far": 20}


def gen(ctx):
    for s in ctx.seeds("page", 800, 12000):
        yield {"seed": s}
    for s in ctx.seeds("many", 80, 800):
        yield {"seed": s, "n": 260 + s % 340}
    for s in ctx.seeds("none", 40, 400):
        yield {"seed": s, "n": 0}
    for s in ctx.seeds("far", 32, 400):
        yield {"seed": s, "far": 1}
    for s in ctx.seeds("err", 80, 1200):
        yield {"seed": s, "error": 1}


class Paging:
    def __init__(self, obs, rng, objects):
        self.obs, self.rng, self.objects = obs, rng, objects
        self.mode = rng.randrange(7)
        self.size = rng.choice((1, 1, 2, 3, 7, 20))
        self.limit = rng.choice((120, 300, 1019, 2000, 8000, 60000))
        self.empties = 0
        self.sizes = []

    def __call__(self, i, left):
        n = self.raw(i, left)
        self.sizes.append(n if not isinstance(n, tuple) else n[0])
        return n

    def raw(self, i, left):
        rng = self.rng
        if self.mode == 0:
            return left
        if self.mode == 1:
            return self.size
        if self.mode == 2:
            return rng.randrange(1, 8)
        if self.mode == 3:  # as many records as fit in the reply
            n, used = 0, 0
            for lay, d, _ in self.objects[i:]:
                used += len(d) + 3
                if used > self.limit and n:
                    break
                n += 1
            return n
        if self.mode == 4:  # the end is only announced by an empty reply
            if left == 0:
                self.obs.count("empty-last-page")
                return 0, True
            return min(left, rng.choice((1, 5, 30))), False
        if self.mode == 5 and rng.random() < 0.4 and self.empties < 12:
            self.empties += 1
            self.obs.count("empty-page")
            return 0, False
        return rng.choice((1, 2, left)) if left < 100 else rng.choice((2, 20, 60, 90))


def run(case, obs):
    E = core.load_elgas()
    rng = random.Random(case["seed"])
    c = device.rand_config(rng, addresses="client")
    if case.get("n") == 0:
        return nothing(E, obs, rng, c)
    if case.get("far"):
        return far(E, obs, rng, c)
    n = case.get("n") or rng.choice((1, 2, 5, 17, rng.randrange(1, 60)))
    small = rng.random() < 0.5 or n > 255
    objects = device.gen_objects(rng, n, [34, 65, 47, 33] if small else None)
    paging = Paging(obs, rng, objects)
    if rng.random() < 0.2:  # equal pages, one after the other
        size = rng.choice((1, 2, 8, 16, 17, 40))
        block = device.gen_objects(rng, size)
        objects[:] = (block * (n // size + 3))[: max(n, 3 * size)]
        n = len(objects)
        paging.mode, paging.size = 1, size
        obs.count("equal-pages")
        obs.maximum("equal-page-bytes", sum(len(d) + 3 for _, d, _ in block))
    elif n > 255:
        paging.mode = rng.choice((2, 3, 4, 5)) if not small else rng.choice((1, 2, 3, 4, 5, 5))
    dev = device.SimDevice(c, rng, objects, paging)
    dev.end_mark = rng.choice((1, 1, 2, 16, 128, 255))
    tr = device.MemoryTransport(E, dev)
    client = device.make_client(E, c, tr)
    client.connect()
    if case.get("error"):
        stop = rng.randrange(1, 4)
        count = [0]
        byte = 1 << rng.randrange(8)

        def fault(kind):
            count[0] += 1
            return ("error", byte) if count[0] == stop else None

        dev.fault = fault
        obs.eval()
        try:
            got = client.read_parameters()
        except E["exceptions"].ElgasError:
            obs.count("device-error-mid-way")
        else:
            if count[0] >= stop:
                obs.fail(f"read_parameters returned {len(got)} objects although the device answered page {stop} with error {byte:#04x}", "partial-list")
            obs.count("device-error-mid-way")
        dev.fault = None
        paging.empties = 0
    for _ in range(rng.choice((1, 1, 2))):
        start = rng.choice((0, 0, 0, n - 1, rng.randrange(n)))
        mark = len(dev.log)
        kw = {"read_from": start} if start or rng.random() < 0.5 else {}
        if start:
            obs.count("read-from")
        obs.eval()
        paging.sizes = []
        got = client.read_parameters(**kw)
        what = f"{n} objects, start {start}, page sizes {paging.sizes[:12]}"
        d = device.check_call(c, dev, mark, "params", {"read_from": start}, got)
        obs.expect(not d, lambda: f"{what}: {d[:4]}", "paging")
        d = device.check_objects(got, objects[start:])
        obs.expect(not d, lambda: f"{what}: {d[:4]}", "objects")
        obs.count("reads")
        obs.count("pages", len(paging.sizes))
        obs.count("objects", len(got))
        if n > 255:
            obs.count("over-255")
        if mark:
            obs.count("second-read")
        obs.seen([l.code for l, _, _ in objects], paging.sizes, start)
    obs.sample({"objects": n, "pages": paging.sizes[:20], "start": start}, 3)


def far(E, obs, rng, c):
    """Objects with high numbers, up to the last a request can ask for."""
    n = rng.choice((4097, 16390, 32770, 32768 + rng.randrange(300), 40000, 65000, 65535))
    start = n - rng.choice((1, 3, 9, 30, 200))
    objects = [None] * start + device.gen_objects(rng, n - start, [34, 65, 47, 33])
    size = rng.choice((1, 2, 7, 50))
    dev = device.SimDevice(c, rng, objects, lambda i, left: size)
    client = device.make_client(E, c, device.MemoryTransport(E, dev))
    client.connect()
    dev.page = lambda i, left: size if i >= start else obs.fail(f"objects from {start} of {n} were to be read, the client asks for {i}", "paging")
    obs.eval()
    got = client.read_parameters(read_from=start)
    d = device.check_call(c, dev, 0, "params", {"read_from": start}, got)
    obs.expect(not d, lambda: f"objects {start} to {n}, pages of {size}: {d[:4]}", "paging")
    d = device.check_objects(got, objects[start:])
    obs.expect(not d, lambda: f"objects {start} to {n}, pages of {size}: {d[:4]}", "objects")
    obs.count("far")
    obs.count("pages", len(dev.log))
    obs.seen("far", n, start, size)


def nothing(E, obs, rng, c):
    """A device without objects: one reply says so."""
    empties = rng.choice((0, 0, 1, 3))
    pages = [(0, False)] * empties + [(0, True)]

    def page(i, left):
        if not pages:
            obs.fail(f"a device without objects was asked again after its reply {empties + 1}, the last", "paging")
        return pages.pop(0)

    dev = device.SimDevice(c, rng, [], page)
    dev.end_mark = rng.choice((1, 255))
    client = device.make_client(E, c, device.MemoryTransport(E, dev))
    client.connect()
    obs.eval()
    try:
        got = client.read_parameters()
    except ValueError:
        got = []
    obs.expect(got == [], lambda: f"{len(got)} objects read from a device without any", "objects")
    starts = [fields["object_count"] for fields, *_ in dev.log]
    obs.expect(starts == [0] * (empties + 1), lambda: f"a device without objects was asked for {starts}, its reply {empties + 1} was the last", "paging")
    obs.count("no-objects")
    obs.seen("none", empties, bool(c["key"]))
