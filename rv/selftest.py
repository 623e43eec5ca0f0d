"""Golden vectors for the reference implementation (nothing from /repo)."""
import datetime

from rv import ref, layouts


def main():
    assert ref.crc16(b"123456789") == 0x4B37  # published CRC-16/MODBUS check value
    assert ref.crc16_fast(b"123456789") == 0x4B37
    for n in range(300):
        d = bytes((i * 7 + n) % 256 for i in range(n))
        assert ref.crc16(d) == ref.crc16_fast(d)
    # captured call-to-dispatching frame: redundancy bytes 7D 43 2B
    cap = bytes.fromhex(
        "02fe84879c000000000100001b0f000240a494dd96ce1b1bb7194164d56a6f80a4"
        + b"0000000000000001".hex() + "0023820870106343780000"
        "0359077320670651"
        "000100001f060000009e2b622d00000000000000000100000091caaf2c9800000000000000"
        "2c408c8c0a474a4b1d2a622d017afecd0130312e303030" + "00" * 27 + "7d432b0d"
    )
    k, s, dst, src, payload = ref.parse_frame(ref.unescape(cap))
    assert (k, s, dst, src) == (0x84, 0x87, (0, 0), (1, 0)), (k, s, dst, src)
    assert len(payload) == 141
    # captured encrypted payload (protocol documentation)
    ct = bytes.fromhex("8D321E0E426DF9BF8E722B5BB9AFA62E9504A92A886B1D71BBFF2F57F85B8A5B")
    assert ref.decrypt(b"\x33" * 16, 3, b"\x10\x00\x03" + ct) == bytes.fromhex(
        "6b04a5b1b370a1b0ef8100000000e003"
    )
    for n in range(70):
        d = bytes(range(n))
        assert ref.decrypt(b"k" * 16, 2, ref.encrypt(b"k" * 16, 2, d)) == d
        f = ref.frame(0x86, 0x64, d, (1, 2), (3, 4))
        assert ref.parse_frame(ref.unescape(ref.escape(f)))[4] == d
    assert ref.parse_time(bytes.fromhex("103312300506"))[0] == datetime.datetime(2006, 5, 30, 12, 33, 10)
    assert len({l.code for l in layouts.L}) == 36
    print("reference self-test ok")
    return 0
