"""Deterministic content from small JSON descriptions {n, s, k}."""
import random, zlib

def data(c):
    n, s, k = c["n"], c.get("s", 0), c.get("k", "rand")
    if k == "crc0" and n >= 4:      # a file whose CRC-32 is zero
        b = random.Random(s).randbytes(n - 4)
        return b + (~zlib.crc32(b) & 0xFFFFFFFF ^ 0x9226F562).to_bytes(4, "little")
    if k == "zero":
        return bytes(n)
    if k == "rep":
        unit = random.Random(s).randbytes(1 + s % 7)
        return (unit * (n // len(unit) + 1))[:n]
    if k == "ff":
        return b"\xff" * n
    if k == "text":
        r = random.Random(s)
        out = bytearray()
        while len(out) < n:
            out += bytes(r.choice(b"abcdefghij klmnop.-_0123456789") for _ in range(r.randrange(1, 60)))
            out += b"\r\n"
        return bytes(out[:n])
    if k == "lit":
        return bytes.fromhex(c["h"])
    return random.Random(s).randbytes(n)
