"""S07: Stream samples rebuild byte-identically from SRS + main file."""
from vh import srs as S
from vh.core import Reject

RULE = "the sample is a part of the main file whose first 256 bytes occur there once; non-trivial when it is longer than 256 bytes or not the whole file"
ASSUMPTIONS = ["files of at least 14 bytes whose start does not look like another media type",
               "the first 256 bytes of the sample occur once in the main file"]


def other_type(b):
    return (len(b) < 14 or b[:4] in (b"\x1a\x45\xdf\xa3", b"RIFF", b"Rar!", b"\x30\x26\xb2\x75", b"fLaC", b"SRSF", b"STRM", b"M2TS", b"3gp5")
            or b[4:8] == b"ftyp" or b[:3] == b"ID3" or b[0] == 0xFF and b[1] >= 0xE0 or b[-128:-125] == b"TAG")


def extra(c, m):
    if other_type(m.sample) or other_type(m.main):
        raise Reject("looks like another type")
    if m.main.find(m.sample[:256]) != m.start[1] or m.main.find(m.sample[:256], m.start[1] + 1) >= 0:
        raise Reject("signature not unique")


def label(c, m, ctx):
    a = m.start[1]
    ctx.label("len:%s" % ("<=256" if len(m.sample) <= 256 else ">256"),
              "sig crosses 64KiB" if a // 65536 != (a + 255) // 65536 else "sig inside",
              "start>64KiB" if a > 65536 else "start<64KiB")


LEGS = S.legs("stream", extra, label)
