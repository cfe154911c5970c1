"""S06: MP3 samples rebuild byte-identically from SRS + main file."""
from vh import srs as S
from vh import content
from vh.core import Reject

RULE = "the file is made into an SRS; non-trivial when main and sample differ (other tags or data before the music) or hold more than 256 bytes of music"
ASSUMPTIONS = ["tags appear in the order ID3v2, music, APE, Lyrics3 v1, Lyrics3 v2, ID3v1",
               "data in front of the music of the main file does not start like music nor hold ID3 or RIFF markers, and the main file has an ID3v2 or ID3v1 tag (otherwise it is not recognised as an MP3 file)"]


def extra(c, m):
    o = c["main"]
    if o.get("junk"):
        j = content.data(o["junk"])
        if not o.get("id3") and o.get("v1") is None:
            raise Reject("main not recognised as MP3")
        if j[0] == 0xFF or j[:1] == b"G" or len(j) < 2:
            raise Reject("looks like music")
        if b"ID3" in j or b"RIFF" in j:
            raise Reject("other markers")
        if m.main.find(m.tracks[1][:256]) != m.main.rfind(m.tracks[1][:256]):
            raise Reject("music not unique")


def label(c, m, ctx):
    for k in ("id3", "ape", "lyr1", "lyr2", "v1", "junk"):
        if c["main"].get(k) not in (None, []):
            ctx.label("main:" + k)
        if c["smp"].get(k) not in (None, []):
            ctx.label("sample:" + k)


LEGS = S.legs("mp3", extra, label)
