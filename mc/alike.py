"""Contents that are easily taken for one another: equal length, and equal in whatever a careless comparison looks at."""

from __future__ import annotations

import zlib

POLY = 0x104C11DB7  # of CRC-32, highest degree first


def ways(data: bytes, spans) -> dict[str, bytes]:
    """Other contents of the same length. Only bytes within the spans [(start, end)] are changed."""
    places = [p for a, b in spans for p in range(a, b)]
    out = {}

    def put(name, changes):
        buf = bytearray(data)
        for pos, val in changes.items():
            buf[pos] = val & 0xFF
        assert bytes(buf) != data and len(buf) == len(data)
        out[name] = bytes(buf)

    for name, pos in (("first", places[0]), ("last", places[-1]), ("middle", places[len(places) // 2]), ("third", places[len(places) // 3])):
        put(name, {pos: data[pos] ^ 1})
    put("sign", {places[-1]: data[places[-1]] ^ 0x80})
    pair = next(((i, j) for i in places for j in places[::-1] if data[i] != data[j]), None)
    if pair:
        # The same bytes in another order: same sum, same set.
        put("order", {pair[0]: data[pair[1]], pair[1]: data[pair[0]]})
    allowed = set(places)
    for i in places[len(places) // 4 :]:
        if {i, i + 1, i + 2} <= allowed and data[i] < 255 and data[i + 1] >= 2 and data[i + 2] < 255:
            put("adler", {i: data[i] + 1, i + 1: data[i + 1] - 2, i + 2: data[i + 2] + 1})
            assert zlib.adler32(out["adler"]) == zlib.adler32(data)
            break
    for i in places[len(places) // 5 :]:
        if {i + n for n in range(5)} <= allowed:
            # The bits of a byte are processed from the lowest one on.
            bits = [int(b) for b in f"{POLY:b}"]
            change = {i + n: data[i + n] ^ sum(bit << k for k, bit in enumerate(bits[8 * n : 8 * n + 8])) for n in range(5)}
            put("crc", change)
            assert zlib.crc32(out["crc"]) == zlib.crc32(data)
            break
    return out


WAYS = ["first", "last", "middle", "third", "sign", "order", "adler", "crc"]
