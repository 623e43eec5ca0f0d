"""A simulated ELGAS device (reference codec only) and in-memory transports."""
from __future__ import annotations

import datetime
import struct

from rv import layouts, ref

ARCHIVES = range(11)
# documented member names: callers write Archive.DAILY, so name and number must belong together
ARCHIVE_NAMES = "EXTREME DATA BINARY DAILY MONTHLY SETTING FAST_1 FAST_2 STATUS BILLING GAS_COMPOSITION".split()
KEY_NAMES = "- FACTORY TEMPORARY ADMINISTRATOR MAINTENANCE USER_1 USER_2 USER_3".split()
PROTOCOL_NAMES = "ELGAS2 QMD RDS MODBUS".split()


def member(enum, names, number):
    """The member with the documented name of this number."""
    return getattr(enum, names[number], None) or enum(number)


def archive(E, number, other=False):
    """The archive as callers name it; application has a copy of the enumeration."""
    enum = getattr(E["application"], "Archive", None) if other else None
    return member(enum or E["constants"].Archive, ARCHIVE_NAMES, number)


def key_id(E, number):
    return member(E["security"].EncryptionKeyId, KEY_NAMES, number)


# -- reply data ------------------------------------------------------------


def rand_time(rng):
    return datetime.datetime(2000, 1, 1) + datetime.timedelta(
        seconds=rng.choice((rng.randrange(36525 * 86400), rng.randrange(36525) * 86400 + rng.choice((0, 86399))))
    )


ZONES = [None] + [datetime.timezone(datetime.timedelta(minutes=m)) for m in (0, 60, -300, 345, 839, -719)]


def any_time(rng):
    """Also with what the wire has no room for: the fraction of a second, the time zone."""
    t = rand_time(rng)
    if rng.random() < 0.35:
        t = t.replace(microsecond=rng.choice((1, 500000, 999999)))
    if rng.random() < 0.15:
        t = t.replace(fold=rng.randrange(2), tzinfo=rng.choice(ZONES))
    return t


def rand_payload(rng, lo=0, hi=300):
    n = rng.choice((lo, rng.randrange(lo, hi + 1), rng.randrange(lo, hi + 1), rng.randrange(lo, hi + 1)))
    mode = rng.randrange(6)
    if mode == 0:
        return bytes(rng.choice((0x0D, 0x1B, 0x8D, 0x0E, 0x0F)) for _ in range(n))
    if mode == 5:  # runs of one byte, at an end or throughout
        out = bytearray(rng.randbytes(n))
        k = rng.choice((n, rng.randrange(n + 1), min(n, 16)))
        where = rng.choice((0, n - k))
        out[where:where + k] = bytes((rng.choice((0, 0, 0xFF, 0xFF, 0x20, 0x0D, 0x1B, rng.randrange(256))),)) * k
        return bytes(out)
    if mode == 1:
        return bytes(rng.choice((0, 0xFF, 2, 0xFE)) for _ in range(n))
    return rng.randbytes(n)


def fixed(rng, n):
    """n bytes of a fixed field."""
    return rng.choice((bytes(n), b"\xff" * n, rng.randbytes(n), rng.randbytes(n), rng.randbytes(n)))


def gen_parts(rng, kind, hi=300):
    """Random values of the parts of a reply, in their order."""
    if kind in ("values", "time"):
        parts = {"when": rand_time(rng), "dst": rng.random() < 0.5, "supports": rng.random() < 0.5}
        if kind == "values":
            data = rand_payload(rng, 0, hi)
            parts.update(data=data, access=rng.choice((0, 0xFF, (data or b"\0")[-1], rng.randrange(256))),
                         status=fixed(rng, 8), summary=fixed(rng, 8), crc=fixed(rng, 2))
        else:
            parts.update(result=fixed(rng, 1), extra=rng.choice((b"", rand_payload(rng, 0, min(hi, 60) if hi <= 300 else hi))), crc=fixed(rng, 2))
        return parts
    if kind == "write_time":
        now = ref.time_bytes(rand_time(rng), rng.random() < 0.5, rng.random() < 0.5)
        return {"data": rng.choice((b"", rng.randbytes(2), now + b"\x00" + rng.randbytes(2)))}
    if kind == "params":
        return {"number": layouts.gen_int(rng, 2), "amount": layouts.gen_int(rng, 2), "end": rng.choice((0, 1, 1, 2, 255)),
                "data": rand_payload(rng, 0, hi)}
    if kind in ("archive", "archive_by_time"):
        return {"archive": rng.choice(ARCHIVES), "record": layouts.gen_int(rng, 4), "data": rand_payload(rng, 0, hi)}
    raise AssertionError(kind)


def join_parts(kind, p):
    """(reply data, expected fields) of the parts of a reply."""
    if kind in ("values", "time"):
        tb = ref.time_bytes(p["when"], p["dst"], p["supports"])
        if kind == "values":
            return tb + p["data"] + bytes((p["access"],)) + p["status"] + p["summary"] + p["crc"], {
                "current_time": p["when"], "is_dst": p["dst"], "supports_dst": p["supports"], "data": p["data"],
                "data_access": p["access"], "status": p["status"], "summary_status": p["summary"], "parameter_crc": p["crc"],
            }
        return tb + p["result"] + p["extra"] + p["crc"], {
            "time": p["when"], "is_dst": p["dst"], "device_supports_dst": p["supports"],
            "data_access_result": p["result"], "extra_data": p["extra"],
        }
    if kind == "write_time":
        return p["data"], {}
    if kind == "params":
        return struct.pack("<HHB", p["number"], p["amount"], p["end"]) + p["data"], {
            "object_number": p["number"], "object_amount": p["amount"], "is_end": bool(p["end"]), "data": p["data"],
        }
    return struct.pack("<BI", p["archive"], p["record"]) + p["data"], {
        "archive": p["archive"], "oldest_record_id": p["record"], "data": p["data"]}


def gen_reply(rng, kind, size=None):
    """(reply data, expected fields) of a random reply to a request kind."""
    return join_parts(kind, gen_parts(rng, kind, size if size is not None else 300))


RESPONSE_CLASS = {
    "values": "ReadInstantaneousValuesResponse",
    "time": "ReadTimeResponse",
    "write_time": "WriteTimeResponse",
    "params": "ReadDeviceParametersResponse",
    "archive": "ReadArchiveResponse",
    "archive_by_time": "ReadArchiveByTimeResponse",
}
KINDS = tuple(RESPONSE_CLASS)


def diff_reply(pdu, kind, want):
    """Differences between a delivered response object and what the device sent."""
    if type(pdu).__name__ != RESPONSE_CLASS[kind]:
        return [f"delivered {type(pdu).__name__} for a {kind} reply"]
    out = []
    for k, v in want.items():
        got = getattr(pdu, k, "<missing>")
        if isinstance(v, bytes):
            same = isinstance(got, (bytes, bytearray)) and bytes(got) == v
        elif isinstance(v, bool):
            same = isinstance(got, int) and bool(got) == v and got in (0, 1)
        else:
            same = got == v
        if not same:
            out.append(f"{k}: got {got!r:.200}, device sent {v!r:.200}")
    return out


# -- configuration of one link ---------------------------------------------

KEY_SIZES = (16, 16, 16, 16)
PW_CHARS = "".join(chr(c) for c in range(33, 127)) + "åäöÅÄÖéß£±ÿ\xa0"


def rand_config(rng, encrypted=None, addresses=True):
    if encrypted is None:
        encrypted = rng.random() < 0.5
    own = addresses == "client" and rng.random() < 0.5  # a client made with a connection of the caller's
    if addresses == "client":
        addresses = own
    pick = lambda hi: rng.choice((0, 1, 0x0D, 0x1B, 0x8D, 255, min(256, hi), hi, rng.randrange(hi + 1)))
    c = {
        "password": "".join(rng.choice(PW_CHARS) for _ in range(6)),
        "password_id": rng.choice((801, 849, rng.randrange(801, 850))),
        "src": (pick(65535), pick(255)) if addresses else (0, 0),
        "dst": (pick(65535), pick(255)) if addresses else (0, 0),
        "key": None,
        "key_id": None,
    }
    if encrypted:
        c["key"] = rng.randbytes(rng.choice(KEY_SIZES))
        c["key_id"] = rng.randrange(1, 8)
    if own:
        c["own_connection"] = True
    return c


def make_connection(E, c):
    return E["connection"].ElgasConnection(
        source_address_1=c["src"][0],
        source_address_2=c["src"][1],
        destination_address_1=c["dst"][0],
        destination_address_2=c["dst"][1],
        password=c["password"],
        password_id=c["password_id"],
        encryption_key=c["key"],
        encryption_key_id=key_id(E, c["key_id"]) if c["key_id"] else None,
    )


def make_client(E, c, transport):
    return E["client"].ElgasClient(
        transport=transport,
        password=c["password"],
        password_id=c["password_id"],
        encryption_key=c["key"],
        encryption_key_id=key_id(E, c["key_id"]) if c["key_id"] else None,
        **({"elgas_connection": make_connection(E, c)} if c.get("own_connection") else {}),
    )


def reply_wire(c, service, data, rng=None, encrypted=None, src=None, dst=None):
    """Escaped response frame as the device of configuration c sends it."""
    enc = c["key"] is not None if encrypted is None else encrypted
    if enc:
        data = ref.encrypt(c["key"], c["key_id"], data, rng)
    return ref.wire(
        ref.ERESP if enc else ref.RESP, service, data,
        dst if dst is not None else c["src"], src if src is not None else c.get("own", c["dst"]),
    )


def gen_request(rng, kind, password):
    """Random in-range arguments for a request, as keyword arguments."""
    if kind == "values":
        return {"password": password}
    if kind == "time":
        return {}
    if kind == "write_time":
        return {"password": password, "device_time": rand_time(rng)}
    if kind == "params":
        return {"password": password, "object_count": layouts.gen_int(rng, 2), "buffer_length": layouts.gen_int(rng, 2)}
    if kind == "archive":
        return {
            "password": password, "archive": rng.choice(ARCHIVES), "amount": layouts.gen_int(rng, 2),
            "oldest_record_id": layouts.gen_int(rng, 4),
        }
    if kind == "archive_by_time":
        return {
            "password": password, "archive": rng.choice(ARCHIVES), "amount": layouts.gen_int(rng, 2),
            "oldest_timestamp": rand_time(rng),
        }
    raise AssertionError(kind)


REQUEST_CLASS = {
    "values": "ReadInstantaneousValuesRequest",
    "time": "ReadTimeRequest",
    "write_time": "WriteTimeRequest",
    "params": "ReadDeviceParametersRequest",
    "archive": "ReadArchiveRequest",
    "archive_by_time": "ReadArchiveByTimeRequest",
}


def make_request(E, kind, args):
    args = dict(args)
    if args.get("archive") in ARCHIVES:
        args["archive"] = archive(E, args["archive"], args["amount"] % 2)
    return getattr(E["application"], REQUEST_CLASS[kind])(**args)


def expected_fields(kind, args):
    """What a device must read from the request, by parse_request's names."""
    want = {"kind": kind}
    if "password" in args:
        want["password"] = str.__str__(args["password"])
    for a, b in (("device_time", "time"), ("oldest_timestamp", "time")):
        if a in args:
            want[b] = args[a].replace(microsecond=0, tzinfo=None, fold=0)
    for a in ("object_count", "buffer_length", "archive", "oldest_record_id", "amount"):
        if a in args:
            want[a] = int(args[a])
    return want


def read_request(c, wire_bytes):
    """Device side: (kind, fields, frame info) of one request frame, or BadFrame."""
    w = bytes(wire_bytes)
    if not w.endswith(b"\x0d") or 0x0D in w[:-1] or 0x8D in w:
        raise ref.BadFrame("reserved bytes on the wire")
    k, service, dst, src, payload = ref.parse_frame(ref.unescape(w))
    if k not in (ref.REQ, ref.EREQ):
        raise ref.BadFrame("not a request")
    if c["key"] is not None:
        if k != ref.EREQ:
            raise ref.BadFrame("unencrypted request in an encrypted session")
        data = ref.decrypt(c["key"], c["key_id"], payload)
    else:
        if k != ref.REQ:
            raise ref.BadFrame("encrypted request without a key")
        data = payload
    if (dst, src) != (tuple(c["dst"]), tuple(c["src"])):
        raise ref.BadFrame(f"addresses {dst}/{src}, configured {c['dst']}/{c['src']}")
    return ref.parse_request(service, data), service


def check_request(fields, kind, args):
    """Differences between the arguments given and what the device read."""
    out = []
    for k, v in expected_fields(kind, args).items():
        if fields.get(k) != v:
            out.append(f"request field {k}: device read {fields.get(k)!r}, caller gave {v!r}")
    if "password" in args and fields.get("marker") != b"!\x03":
        out.append(f"password marker {fields.get('marker')!r}")
    return out


# -- in-memory transport ---------------------------------------------------


class MemoryTransport:
    """ElgasTransport over a device object: device.handle(wire) -> list of chunks.

    recv returns the next chunk; with nothing left it raises the library's own
    communication error, as a real transport does on timeout.
    """

    def __init__(self, E, device):
        self.E = E
        self.device = device
        self.inbox = []
        self.connected = False
        self.sent = []
        self.recv_calls = 0
        self.recv_limit = 100000

    def connect(self):
        self.connected = True
        self.inbox = []

    def disconnect(self):
        self.connected = False
        self.inbox = []

    def send(self, data):
        if not self.connected:
            raise RuntimeError("not connected")
        self.sent.append(bytes(data))
        self.inbox.extend(self.device.handle(bytes(data)))

    def recv(self):
        if not self.connected:
            raise RuntimeError("not connected")
        self.recv_calls += 1
        if self.recv_calls > self.recv_limit:
            from rv.core import Violation

            raise Violation("endless receive loop", "no-progress")
        if not self.inbox:
            raise self.E["exceptions"].CommunicationError("timeout")
        x = self.inbox.pop(0)
        if isinstance(x, BaseException):
            raise x
        return x


def split(rng, data, mode=None):
    """Divide bytes into pieces in one of several hostile ways."""
    data = bytes(data)
    mode = rng.randrange(7) if mode is None else mode
    if mode == 0 or len(data) < 2:
        return [data]
    if mode == 1:
        return [data[i:i + 1] for i in range(len(data))]
    if mode == 2:  # inside escape sequences
        cuts = [i + 1 for i, x in enumerate(data[:-1]) if x == 0x1B]
    elif mode == 3:  # last byte alone
        cuts = [len(data) - 1]
    elif mode == 4:
        cuts = [1, len(data) - 1]
    else:
        cuts = sorted(rng.sample(range(1, len(data)), min(len(data) - 1, rng.randrange(1, 8))))
    cuts = sorted(set([0, len(data)] + cuts))
    out = [data[a:b] for a, b in zip(cuts, cuts[1:])]
    if mode == 6:
        out = [p for q in out for p in (b"", q)]
    return out


# -- a whole device --------------------------------------------------------


class SimDevice:
    """Answers requests of configuration c with random values and keeps the record.

    log: list of (fields, service, kind, want, reply data) per request received.
    faults: optional callable(kind) -> None | ("error", byte) | ("raw", [chunks]).
    """

    def __init__(self, c, rng, objects=None, page=None, max_payload=80, chunks=None, strays=True):
        self.c, self.rng = c, rng
        self.objects = objects  # list of (layout, data, want) or None
        self.page = page or (lambda i, left: left)
        self.max_payload = max_payload
        self.chunks = chunks or (lambda w: split(self.rng, w))
        self.strays = strays
        self.end_mark = 1  # any other than zero is as good
        self.fault = None
        self.last = {}  # kind -> parts of the last reply
        self.log = []
        self.bad = []

    def param_reply(self, fields):
        i = fields["object_count"]
        left = max(0, len(self.objects) - i)
        n, end = self.page(i, left), None
        if isinstance(n, tuple):
            n, end = n
        n = min(n, left)
        if end is None:
            end = i + n >= len(self.objects)
        part = self.objects[i:i + n]
        data = b"".join(layouts.envelope(lay.code, d) for lay, d, _ in part)
        return struct.pack("<HHB", i % 65536, n, self.end_mark if end else 0) + data, {"objects": part, "is_end": bool(end)}

    def handle(self, wire):
        out = []
        for piece in bytes(wire).split(b"\r")[:-1]:
            out += self.one(piece + b"\r")
        if not bytes(wire).endswith(b"\r"):
            self.bad.append(("unterminated", bytes(wire)))
        return out

    def one(self, wire):
        try:
            fields, service = read_request(self.c, wire)
        except ref.BadFrame as e:
            self.bad.append((str(e), wire))
            return []
        kind = fields["kind"]
        fault = self.fault(kind) if self.fault else None
        if fault and fault[0] == "error":
            self.log.append((fields, service, kind, fault, None))
            return self.deliver(reply_wire(self.c, service, bytes((fault[1],)), self.rng))
        if kind == "params" and self.objects is not None:
            data, want = self.param_reply(fields)
        else:
            parts = gen_parts(self.rng, kind, self.max_payload)
            if kind in self.last and self.rng.random() < 0.25:  # only one part has changed since the last reply, or none
                part = self.rng.choice((None, *parts))
                parts = {n: v if n == part else self.last[kind][n] for n, v in parts.items()}
            self.last[kind] = parts
            data, want = join_parts(kind, parts)
        w = reply_wire(self.c, service, data, self.rng)
        if fault:
            self.log.append((fields, service, kind, fault, None))
            return fault[1](w)
        self.log.append((fields, service, kind, want, data))
        return self.deliver(w)

    def deliver(self, w):
        pre = [b"\r"] * self.rng.choice((1, 2, 3)) if self.strays and self.rng.random() < 0.25 else []
        post = [b"\r"] * self.rng.choice((1, 2)) if self.strays and self.rng.random() < 0.1 else []
        return pre + self.chunks(w) + post


def gen_objects(rng, n, codes=None):
    pool = [layouts.BY_CODE[k] for k in codes] if codes else layouts.DECODABLE
    out = []
    repeat = rng.choice((0.0, 0.1, 0.6))
    for _ in range(n):
        if out and rng.random() < repeat:  # a device may hold equal objects
            out.append(out[-1] if rng.random() < 0.7 else rng.choice(out))
            continue
        lay = rng.choice(pool)
        out.append((lay, *layouts.gen_record(rng, lay)))
    return out


def gen_call(rng, kind, objects=0):
    """(client method, keyword arguments) of one client operation."""
    if kind == "values":
        return "read_instantaneous_values", {}
    if kind == "time":
        return "read_time", {}
    if kind == "write_time":
        return "write_time", {"device_time": any_time(rng)}
    if kind == "params":
        n = rng.choice((0, 0, 1, rng.randrange(max(1, objects))))
        return "read_parameters", {"read_from": min(n, max(0, objects - 1))}
    if kind == "archive":
        return "read_archive", {"archive": rng.choice(ARCHIVES), "amount": layouts.gen_int(rng, 2), "oldest_record_id": layouts.gen_int(rng, 4)}
    return "read_archive_by_time", {"archive": rng.choice(ARCHIVES), "amount": layouts.gen_int(rng, 2), "oldest_timestamp": any_time(rng)}


def do_call(E, client, method, kw):
    kw = dict(kw)
    if kw.get("archive") in ARCHIVES:
        kw["archive"] = archive(E, kw["archive"], kw["amount"] % 2)
    return getattr(client, method)(**kw)


def check_objects(got, want):
    if not isinstance(got, (list, tuple)):
        return [f"read_parameters returned {type(got).__name__}"]
    if len(got) != len(want):
        return [f"{len(got)} objects returned, the device holds {len(want)}"]
    out = []
    for i, (obj, (lay, _, w)) in enumerate(zip(got, want)):
        d = layouts.compare(obj, lay, w)
        if d:
            out.append(f"object {i}: {d[:2]}")
    return out


def check_call(c, dev, mark, kind, kw, result):
    """Judge one successful client call: requests since `mark` and the result returned."""
    out = [f"device could not read a request: {b[0]} ({b[1].hex()})" for b in dev.bad]
    log = dev.log[mark:]
    if kind != "params" and len(log) != 1:
        return out + [f"{len(log)} requests sent for one {kind} call"]
    if not log:
        return out + [f"no request sent for a {kind} call"]
    for fields, service, k, want, data in log:
        if k != kind:
            out.append(f"{k} request sent for a {kind} call")
        args = {a: v for a, v in kw.items() if a not in ("read_from",)}
        if kind != "time":
            args["password"] = c["password"]
        out += check_request(fields, kind, args)
    if out:
        return out
    fields, service, k, want, data = log[-1]
    if kind in ("values", "archive", "archive_by_time"):
        out += diff_reply(result, kind, want)
    elif kind == "time":
        if result != want["time"]:
            out.append(f"read_time returned {result!r}, device sent {want['time']!r}")
    elif kind == "params":
        i = kw.get("read_from", 0)
        got_objects = []
        for fields, _, _, want, _ in log:
            if fields["object_count"] != i:
                out.append(f"page request asks for object {fields['object_count']}, next missing object is {i}")
            i += len(want["objects"])
            got_objects += want["objects"]
        ends = [w["is_end"] for _, _, _, w, _ in log]
        if ends != [False] * (len(ends) - 1) + [True]:
            out.append(f"requests after the end marker or stop before it: end markers {ends}")
        out += check_objects(result, got_objects)
    return out
