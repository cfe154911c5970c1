"""S01: AVI samples rebuild byte-identically from SRS + main file."""
from vh import srs as S, walk
from vh.core import Reject

RULE = "a sample with at least one non-empty stream that has two streams, more than 256 bytes or another layout than the main file"
ASSUMPTIONS = ["the first 256 bytes of each sample stream occur once in the main stream",
               "a sample that starts inside a chunk: the four bytes 8 before its start do not look like a chunk name (known limit of the format)"]


def extra(c, m):
    ch = walk.avi_chunks(m.main)
    streams = walk.avi_streams(m.main)
    offs = []
    for no in m.present:
        if not m.tracks[no]:
            continue
        pieces = streams[no]
        sig = min(256, len(m.tracks[no]))
        if walk.overlapped(m.full[no], pieces, m.start[no], sig, True):
            raise Reject("overlapping partial match")
        offs.append(walk.at(pieces, m.start[no])[1])
    first = min(offs)
    heads = {p: 1 for _, _, _, p, _ in ch}
    if first not in heads:
        if walk.FOURCC.match(m.main[first - 8:first - 4]):
            raise Reject("looks like a chunk start")
        movi = next((h for cc, k, h, _, _ in ch if cc == b"movi"), 0)
        if c["main"]["idx"] == "abs" and movi:
            for _, _, h, p, n in ch:
                if h < first and walk.FOURCC.match(m.main[movi + 8 + h:movi + 12 + h]):
                    raise Reject("ambiguous index")


def label(c, m, ctx):
    st = walk.avi_streams(m.main)
    ctx.label("idx:" + c["main"]["idx"])
    for no in m.present:
        if m.tracks[no]:
            i, p = walk.at(st[no], m.start[no])
            ctx.label("start:mid" if p != st[no][i][0] else "start:chunk")
        else:
            ctx.label("emptytrack")


LEGS = S.legs("avi", extra, label)
