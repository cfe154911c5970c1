"""S04: WMV samples rebuild byte-identically from SRS + main file."""
from vh import srs as S, walk
from vh.core import Reject

RULE = "a sample with at least one non-empty stream that has two streams, more than 256 bytes or another layout than the main file"
ASSUMPTIONS = ["the first 256 bytes of each sample stream occur once in the main stream"]


def extra(c, m):
    for no in m.present:
        if m.tracks[no] and walk.overlapped(m.full[no], m.pieces[no], m.start[no], min(256, len(m.tracks[no])), True):
            raise Reject("overlapping partial match")


def label(c, m, ctx):
    for k in c["smp"]["modes"]:
        ctx.label("mode%d" % (k % 4))
    for no in m.present:
        if m.tracks[no]:
            p = 0
            starts = [p for p, _ in m.pieces[no]]
            ctx.label("start:payload" if m.start[no] in starts else "start:inside")


LEGS = S.legs("wmv", extra, label)
