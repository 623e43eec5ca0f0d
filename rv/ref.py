"""Independent reference implementation of the ELGAS wire protocol.

Written from the protocol description (design.md, docstrings, captured messages),
not from the code under test, and in a different style (table-free, arithmetic,
struct-based), so that a mistake is unlikely to be shared.  Used as the oracle and
as the simulated device's own codec.
"""
from __future__ import annotations

import calendar
import datetime
import functools
import operator
import struct

from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes

REQ, EREQ, RESP, ERESP = 0x84, 0x85, 0x86, 0x87
KINDS = (REQ, EREQ, RESP, ERESP)

SERVICES = {
    "READ_VALUES": 0x64,
    "WRITE_VALUES": 0x65,
    "SEARCH_ARCHIVE_POINTERS_OLD": 0x67,
    "SEARCH_ARCHIVE_POINTERS": 0x7B,
    "READ_ARCHIVES_OLD": 0x68,
    "READ_ARCHIVES": 0x7C,
    "READ_DEVICE_TIME": 0x6C,
    "READ_SCADA_PARAMETERS": 0x70,
    "WRITE_DEVICE_TIME": 0x71,
    "GROUP_WRITE_VALUES": 0x77,
    "GROUP_READ_VALUES": 0x79,
    "CALL": 0x87,
    "READ_ARCHIVES_BY_DATE_OLD": 0x91,
    "READ_ARCHIVES_BY_DATE": 0x7D,
}
SERVICE_CODES = frozenset(SERVICES.values())

# request kind -> service
KIND_SERVICE = {
    "values": 0x64,
    "time": 0x6C,
    "write_time": 0x71,
    "params": 0x70,
    "archive": 0x7C,
    "archive_by_time": 0x7D,
}

ERROR_BITS = {
    0x01: "WrongPasswordError",
    0x02: "SettingArchiveFull",
    0x04: "SwitchOff",
    0x08: "BlockedBuffer",
    0x10: "DataError",
    0x20: "CipherKeyError",
    0x40: "WrongEncryptionKeysError",
    0x80: "WriteError",
}


class BadFrame(Exception):
    pass


# -- redundancy ------------------------------------------------------------


def lrc(b):
    return functools.reduce(operator.xor, b, 0)


def checksum(b):
    return sum(b) % 256


def drc(b):
    r = 0
    for x in b:
        r = ((r * 2) % 256 + r // 128) ^ x
    return r


def crc16(b):
    """CRC-16/MODBUS, bitwise."""
    c = 0xFFFF
    for x in b:
        c ^= x
        for _ in range(8):
            c = (c // 2) ^ (0xA001 if c % 2 else 0)
    return c


_CRC = []
for _i in range(256):
    _c = _i
    for _ in range(8):
        _c = (_c // 2) ^ (0xA001 if _c % 2 else 0)
    _CRC.append(_c)


def crc16_fast(b):
    c = 0xFFFF
    for x in b:
        c = (c >> 8) ^ _CRC[(c & 255) ^ x]
    return c


def crc_wire(b):
    """The two CRC bytes as they stand on the wire: low byte first."""
    return struct.pack("<H", crc16_fast(b))


# -- escaping --------------------------------------------------------------

_ESC = {0x0D: b"\x1b\x0e", 0x1B: b"\x1b\x1b", 0x8D: b"\x1b\x0f"}
_UNESC = {0x0E: 0x0D, 0x1B: 0x1B, 0x0F: 0x8D}


def escape(b):
    assert b[-1] == 0x0D
    return b"".join(_ESC.get(x, bytes((x,))) for x in b[:-1]) + b"\x0d"


def unescape(b):
    """Reverse of escape; unknown escape pairs are kept, as the documentation shows."""
    out = bytearray()
    it = iter(b)
    for x in it:
        if x == 0x1B:
            y = next(it, None)
            if y is None:
                raise BadFrame("dangling escape")
            if y in _UNESC:
                out.append(_UNESC[y])
            else:
                out += bytes((x, y))
        else:
            out.append(x)
    return bytes(out)


# -- frames ----------------------------------------------------------------


def redundancy(body):
    return bytes((lrc(body), checksum(body), drc(body)))


def frame(kind, service, payload, dst=(0, 0), src=(0, 0)):
    """Unescaped frame bytes."""
    body = (
        struct.pack("<BBBH", 0xFE, kind, service, len(payload) + 15)
        + struct.pack("<HB", *dst)
        + struct.pack("<HB", *src)
        + bytes(payload)
    )
    return b"\x02" + body + redundancy(body) + b"\x0d"


def parse_frame(b, kind=None):
    """(kind, service, dst, src, payload) of unescaped bytes, or BadFrame."""
    b = bytes(b)
    if len(b) < 16:
        raise BadFrame("too short")
    stx, ident, k, service, length = struct.unpack_from("<BBBBH", b)
    if stx != 0x02 or ident != 0xFE or k not in KINDS or (kind is not None and k != kind):
        raise BadFrame("prefix")
    if service not in SERVICE_CODES:
        raise BadFrame("service")
    if length != len(b) - 1:
        raise BadFrame("length")
    if b[-1] != 0x0D:
        raise BadFrame("end")
    body = b[1:-4]
    if b[-4:-1] != redundancy(body):
        raise BadFrame("redundancy")
    d1, d2, s1, s2 = struct.unpack_from("<HBHB", b, 6)
    return k, service, (d1, d2), (s1, s2), b[12:-4]


def valid_frame(b, kind=None):
    try:
        parse_frame(b, kind)
        return True
    except BadFrame:
        return False


def wire(kind, service, payload, dst=(0, 0), src=(0, 0)):
    return escape(frame(kind, service, payload, dst, src))


# -- encryption ------------------------------------------------------------


def aes_cbc(key, data, decrypt=False):
    c = Cipher(algorithms.AES(bytes(key)), modes.CBC(bytes(key)))
    x = c.decryptor() if decrypt else c.encryptor()
    return x.update(bytes(data)) + x.finalize()


def encrypt(key, key_id, data, rng=None):
    head = struct.pack("<HB", len(data), key_id)
    pad = -(len(data) + 2) % 16
    padding = bytes(rng.randrange(126) if rng else 0 for _ in range(pad))
    block = bytes(data) + padding
    block += crc_wire(head + block)
    return head + aes_cbc(key, block)


def decrypt(key, key_id, payload):
    """Original data, or BadFrame."""
    payload = bytes(payload)
    if len(payload) < 3 + 16 or (len(payload) - 3) % 16:
        raise BadFrame("encrypted size")
    n, kid = struct.unpack_from("<HB", payload)
    if kid != key_id:
        raise BadFrame("key id")
    plain = aes_cbc(key, payload[3:], decrypt=True)
    if crc_wire(payload[:3] + plain[:-2]) != plain[-2:]:
        raise BadFrame("crc")
    return plain[:n]


# -- date and time ---------------------------------------------------------


def bcd(n):
    """Two decimal digits in one byte."""
    assert 0 <= n <= 99
    return (n // 10) * 16 + n % 10


def bcd_number(n, size):
    out = bytearray(size)
    for i in range(size - 1, -1, -1):
        out[i] = bcd(n % 100)
        n //= 100
    return bytes(out)


def time_bytes(t, is_dst=False, supports_dst=False):
    hour = bcd(t.hour) + (128 if is_dst else 0) + (64 if supports_dst else 0)
    return bytes((bcd(t.second), bcd(t.minute), hour, bcd(t.day), bcd(t.month), bcd(t.year - 2000)))


def parse_time(b):
    """(datetime, is_dst, supports_dst) or None when not a valid encoding."""
    if len(b) != 6:
        return None
    digits = []
    for i, x in enumerate(b):
        if i == 2:
            x %= 64
        hi, lo = divmod(x, 16)
        if hi > 9 or lo > 9:
            return None
        digits.append(hi * 10 + lo)
    s, m, h, d, mo, y = digits
    y += 2000
    if s > 59 or m > 59 or h > 23 or not 1 <= mo <= 12:
        return None
    if not 1 <= d <= calendar.monthrange(y, mo)[1]:
        return None
    return datetime.datetime(y, mo, d, h, m, s), bool(b[2] & 128), bool(b[2] & 64)


EPOCH = datetime.datetime(2000, 1, 1)


# -- request data ----------------------------------------------------------


def parse_request(service, data):
    """Fields of a request's (decrypted) data as a device reads them, or BadFrame."""
    data = bytes(data)

    def need(n):
        if len(data) != n:
            raise BadFrame(f"request data of service {service:#x} has {len(data)} bytes, not {n}")

    def ts(b):
        t = parse_time(b)
        if t is None:
            raise BadFrame("bad timestamp")
        return t[0]

    if service == 0x6C:
        need(0)
        return {"kind": "time"}
    pw = {"password": data[:6].decode("latin-1"), "marker": data[6:8]}
    if service == 0x64:
        need(10)
        return {"kind": "values", **pw}
    if service == 0x71:
        need(17)
        return {"kind": "write_time", **pw, "time": ts(data[10:16]), "flags": data[16]}
    if service == 0x70:
        need(14)
        oc, bl = struct.unpack_from("<HH", data, 10)
        return {"kind": "params", **pw, "object_count": oc, "buffer_length": bl}
    if service == 0x7C:
        need(17)
        a, rid, amount = struct.unpack_from("<BIH", data, 10)
        return {"kind": "archive", **pw, "archive": a, "oldest_record_id": rid, "amount": amount}
    if service == 0x7D:
        need(19)
        a, amount = struct.unpack_from("<BH", data, 10)
        return {"kind": "archive_by_time", **pw, "archive": a, "amount": amount, "time": ts(data[13:19])}
    raise BadFrame(f"unknown request service {service:#x}")


# -- text ------------------------------------------------------------------

_WS = b" \t\n\r\x0b\x0c"


def text(b):
    """Text of a fixed-width field: up to its last NUL, inner NULs are spaces."""
    b = bytes(b)
    cut = b.rfind(b"\x00")
    if cut >= 0:
        b = b[:cut]
    return b.replace(b"\x00", b" ").strip(_WS).decode("latin-1")
