"""Independent walkers over container files (used to state what must be found)."""
import re, struct


def u32(b, p):
    return int.from_bytes(b[p:p + 4], "little")


def avi_chunks(b, srs=False):
    """[(fourcc, kind, header start, data start, length)] flat; srs: the data of stream chunks is absent."""
    out, p = [], 0
    while p + 8 <= len(b):
        cc, n = b[p:p + 4], u32(b, p + 4)
        if cc in (b"RIFF", b"LIST"):
            out.append((b[p + 8:p + 12], cc, p, p + 12, n - 4))
            p += 12
            continue
        stream = cc[:2].isdigit()
        out.append((cc, b"", p, p + 8, n))
        p += 8 + (0 if srs and stream else n) + n % 2
    return out


def avi_streams(b):
    """{stream number: [(file offset, length)]}"""
    out = {}
    for cc, kind, _, p, n in avi_chunks(b):
        if not kind and cc[:2].isdigit():
            out.setdefault(int(cc[:2]), []).append((p, n))
    return out


def at(pieces, start):
    """(piece index, file offset) of a stream position."""
    for i, (p, n) in enumerate(pieces):
        if start < n:
            return i, p + start
        start -= n
    return None, None


def overlapped(full, pieces, start, sig, everywhere):
    """A partial match from an earlier position is still alive at the end of the
    piece in which the sample's stream starts (everywhere: matches can begin at
    any byte, else only at the start of a piece)."""
    i, _ = at(pieces, start)
    if i is None:
        return False
    end = sum(n for _, n in pieces[:i + 1])
    s = full[start:start + sig]
    if everywhere:
        qs = range(max(0, end - len(s) + 1), start)
    else:
        qs = [sum(n for _, n in pieces[:j]) for j in range(i + 1)]
        qs = [q for q in qs if q < start]
    return any(s.startswith(full[q:end]) for q in qs if end - q < len(s))


FOURCC = re.compile(b"^[ 0-9A-Za-z]{4}$")
