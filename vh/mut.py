"""Byte-level mutations as JSON: [kind, anchor, offset, value-hex]."""
from hypothesis import strategies as st

INTERESTING = ["00", "ff", "7f", "80", "0000", "ffff", "0700", "ff7f", "0b00", "00000000", "ffffffff", "ffffff7f", "00000080", "01000000",
               "00000000000000", "ffffffffffffffff", "2e2e2f", "2f", "5c", "c3"]


def mutation():
    return st.tuples(
        st.sampled_from(["flip", "flip", "set", "set", "del", "ins", "cut", "dup", "swap", "app"]),
        st.one_of(st.none(), st.integers(0, 40)),
        st.one_of(st.integers(0, 16), st.integers(0, 60), st.integers(0, 1 << 20)),
        st.one_of(st.sampled_from(INTERESTING), st.binary(min_size=1, max_size=12).map(bytes.hex)))


def mutations(hi=4):
    return st.lists(mutation(), min_size=1, max_size=hi)


def apply(b, muts, anchors=()):
    """anchors: offsets of structures (headers); the mutation's offset is relative to
    one of them (modulo the length), or to the start when the anchor is None."""
    b = bytearray(b)
    for kind, anchor, off, val in muts:
        v = bytes.fromhex(val)
        if not b:
            b += v
            continue
        base = anchors[anchor % len(anchors)] if anchor is not None and anchors else 0
        i = (base + off) % len(b)
        if kind == "flip":
            b[i] ^= 1 << (v[0] & 7)
        elif kind == "set":
            b[i:i + len(v)] = v[:len(b) - i]
        elif kind == "del":
            del b[i:i + len(v)]
        elif kind == "ins":
            b[i:i] = v
        elif kind == "cut":
            del b[i:]
        elif kind == "dup":
            n = v[0] * 3 + 1
            b[i:i] = b[i:i + n]
        elif kind == "swap":
            n = len(v)
            j = (i + n) % len(b)
            x, y = b[i:i + n], b[j:j + n]
            if i + n <= len(b) and j + n <= len(b) and j >= i + n:
                b[i:i + n], b[j:j + n] = y, x
        else:
            b += v
    return bytes(b)
