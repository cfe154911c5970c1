"""R19: CRC combination obeys the concatenation law."""
import zlib
from hypothesis import strategies as st
from vh import core, content, gen
from vh.core import Leg, check, Reject
from rescene import crc32combine as C

RULE = ("concat: two or three generated byte strings, including empty ones; the combination of their CRCs must equal the CRC of the concatenation for the Python and the "
        "library implementation, in both groupings. algebra: random CRC values and lengths up to 2^62 against an independent polynomial model and between implementations. "
        "Non-trivial: the second string is not empty (concat), the length exceeds 2^31 (algebra).")
ASSUMPTIONS = ["zlib's shared library is installed (it is looked up by the code under test); otherwise only the Python implementation is checked"]

POLY = 0xEDB88320


def mulmod(a, b):
    """product of two reflected polynomials modulo the CRC-32 polynomial"""
    r = 0
    for i in range(31, -1, -1):
        if (a >> i) & 1:
            r ^= b
        b = (b >> 1) ^ (POLY if b & 1 else 0)
    return r


def shift(crc, n):
    """crc * x^(8n), by square and multiply"""
    p, q = 0x80000000, 0x00800000      # 1 and x^8
    while n:
        if n & 1:
            p = mulmod(p, q)
        q = mulmod(q, q)
        n >>= 1
    return mulmod(p, crc)


def model(c1, c2, n):
    return shift(c1, n) ^ c2


FN = None


def fns():
    global FN
    if FN is None:
        FN = [("python", C.crc32_combine)]
        with core.quiet():
            FN.append(("chosen", C.crc32_combine_function()))
            try:
                C.crc32_combine_ctypes(0, 0, 0)
                FN.append(("ctypes", C.crc32_combine_ctypes))
            except RuntimeError:
                pass
    return FN


@st.composite
def concat_case(draw):
    return {"p": draw(st.lists(gen.content(0, 5000, big=[65536, 100001]), min_size=2, max_size=3))}


def concat_run(c, ctx):
    b = [content.data(x) for x in c["p"]]
    crc = [zlib.crc32(x) for x in b]
    for name, f in fns():
        ab = f(crc[0], crc[1], len(b[1]))
        check(ab == zlib.crc32(b[0] + b[1]), "%s: combination of two gives %r, expected %r", name, ab, zlib.crc32(b[0] + b[1]))
        if len(b) == 3:
            l = f(ab, crc[2], len(b[2]))
            r = f(crc[0], f(crc[1], crc[2], len(b[2])), len(b[1]) + len(b[2]))
            w = zlib.crc32(b"".join(b))
            check(l == w and r == w, "%s: combination of three gives %r and %r, expected %r", name, l, r, w)
    ctx.nontrivial(len(b[1]))


U32 = st.one_of(st.integers(0, 0xFFFFFFFF), st.sampled_from([0, 1, 0x80000000, 0xFFFFFFFF]))
LEN = st.one_of(st.integers(0, 1 << 62), st.integers(0, 1 << 34), st.integers(0, 300), st.sampled_from([0, 1, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 1 << 32, (1 << 32) + 1]))


@st.composite
def alg_case(draw):
    return {"a": draw(U32), "b": draw(U32), "c": draw(U32), "n": draw(LEN), "m": draw(st.integers(0, 1 << 61))}


def alg_run(c, ctx):
    a, b, n = c["a"], c["b"], c["n"]
    if n == 0:
        b = 0           # the only CRC of the empty string
    for name, f in fns():
        got, want = f(a, b, n), model(a, b, n)
        check(got == want, "%s: combine(%#x, %#x, %d) is %r, expected %r", name, a, b, n, got, want)
        m, x = c["m"], c["c"] if c["m"] else 0
        l, r = f(f(a, b, n), x, m), f(a, f(b, x, m), n + m)
        check(l == r, "%s: not associative: %r and %r", name, l, r)
    ctx.nontrivial(n > 1 << 31)


LEGS = [Leg("concat", concat_case, concat_run, quick=600, thorough=20000, shards=2),
        Leg("algebra", alg_case, alg_run, quick=1500, thorough=60000, shards=4)]
