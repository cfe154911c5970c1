"""S10: damaged or truncated samples are refused at creation, or recorded truthfully."""
import io, os, sys, zlib
from hypothesis import strategies as st
from vh import core, media, mut, srs as S, srsfile as F
from vh.core import Leg, check, Reject

RULE = ("a generated sample is cut or mutated and offered to the srs command; non-trivial when its bytes changed. "
        "When an SRS is made it must record name, size and CRC of the damaged file, and a rebuild from the file itself gives exactly these bytes or fails with an error")
ASSUMPTIONS = ["the damaged file itself is a main file that holds all of its streams"]


@st.composite
def case(draw):
    fmt = draw(st.sampled_from(sorted(media.CASE)))
    return {"c": draw(S.case(fmt)), "kind": draw(st.sampled_from(["cut", "cut", "cut", "mut", "mut", "none", "empty", "field", "app"])), "muts": draw(mut.mutations(3)),
            "pos": draw(st.integers(0, 2 ** 20)), "val": draw(st.binary(min_size=1, max_size=9)).hex(), "old": draw(st.sampled_from([None, None, "y", "n", "-y"])),
            "near": draw(st.sampled_from([0, 0, 1, 1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 25])), "check": draw(st.integers(0, 4)) == 0}


def heads(b):
    """Offsets that look like structure."""
    out = [0, 4, 8, len(b) // 2]
    for k in (b"RIFF", b"LIST", b"movi", b"idx1", b"00", b"\xa3", b"\x1f\x43\xb6\x75", b"\x18\x53\x80\x67", b"mdat", b"moov", b"stsz", b"stco", b"stsc", b"tkhd", b"stbl", b"co64",
              b"\x36\x26\xb2\x75", b"\x82\0\0", b"fLaC", b"ID3", b"APETAGEX", b"LYRICS", b"TAG"):
        p = b.find(k)
        n = 0
        while p >= 0 and n < 6:
            out += [p, p + len(k)]
            p = b.find(k, p + 1)
            n += 1
    return out


def borders(fmt, b):
    """Where the file can end without cutting a structure in two."""
    out, p = set(), 0
    if fmt == "avi":
        while p + 8 <= len(b):
            cc, n = b[p:p + 4], int.from_bytes(b[p + 4:p + 8], "little")
            if cc == b"RIFF":           # its size is not relied upon
                out.update(range(p + 8, p + 12))
            p += 12 if cc == b"RIFF" else 8 + n
            out.add(p)
            p += n % 2 if cc != b"RIFF" else 0
            out.add(p)
    elif fmt == "mkv":
        while p < len(b):
            i = p
            w = 1
            while not b[p] & (0x80 >> (w - 1)):
                w += 1
            n, q = F.vint(b, p + w)
            p = q if b[i:i + w] == b"\x18\x53\x80\x67" else q + n
            out.add(p)
    elif fmt == "mp4":
        while p + 8 <= len(b):
            n = int.from_bytes(b[p:p + 4], "big")
            if n == 1:
                n = int.from_bytes(b[p + 8:p + 16], "big")
            p = p + n if n else len(b)
            out.add(p)
    elif fmt == "wmv":
        while p + 24 <= len(b):
            p += int.from_bytes(b[p + 16:p + 24], "little")
            out.add(p)
    elif fmt == "flac":
        while b[p:p + 3] == b"ID3":
            p += 10 + sum((b[p + 6 + i] & 0x7f) << 7 * (3 - i) for i in range(4))
            out.add(p)
        out.update(range(p, p + 4))     # not FLAC without its marker
        p += 4
        last = False
        while not last and p + 4 <= len(b):
            last = b[p] & 0x80
            p += 4 + int.from_bytes(b[p + 1:p + 4], "big")
            out.add(p)
        out.update(range(p, len(b)))
    return out


def damage(c, b):
    k = c["kind"]
    if k == "cut":
        if c["near"]:
            ends = sorted(x for x in borders(c["c"]["fmt"], b) if x <= len(b)) if c["c"]["fmt"] not in ("mp3", "stream") and c["pos"] % 2 else []
            return b[:max(0, (ends[c["pos"] // 2 % min(len(ends), 12)] if ends else len(b)) - c["near"])]
        return b[:c["pos"] % (len(b) + 1)]
    if k == "mut":
        return mut.apply(b, c["muts"], heads(b))
    if k == "field":
        h = heads(b)
        p = h[c["pos"] % len(h)]
        v = bytes.fromhex(c["val"])
        return b[:p] + v + b[p + len(v):]
    if k == "app":
        return b + bytes.fromhex(c["val"])
    return b"" if k == "empty" else b


def run(c, ctx):
    m = media.build(c["c"])
    fmt = c["c"]["fmt"]
    b = damage(c, m.sample)
    ctx.nontrivial(b != m.sample)
    ctx.label(fmt, c["kind"])
    d, sp, mp = S.place(m, c["c"], ctx)
    core.write(sp, b)
    stem = os.path.splitext(os.path.basename(sp))[0]
    out = os.path.join(d, "out")
    p = os.path.join(out, stem + ".srs")
    if c["old"]:
        core.write(p, b"older srs")
    argv = [sp, "-o", out] + (["-y"] if c["old"] in (None, "-y") else []) + (["-c", mp] if c["check"] else [])
    stdin, sys.stdin = sys.stdin, io.StringIO("x\n%s\n" % c["old"])
    try:
        rc, txt = S.srs(argv)
    finally:
        sys.stdin = stdin
    check(core.read(sp) == b and core.read(mp) == m.main, "an input file changed")
    got = core.tree(out)
    check(set(got) <= {os.path.basename(p)}, "exit code %r left %r", rc, sorted(got))
    old = b"older srs" if c["old"] else None
    raw = got.get(os.path.basename(p))
    made = raw is not None and raw != old
    ctx.label("rc:%s" % rc, "made" if made else "refused")
    if c["old"] == "n":
        check(not made, "the existing SRS was replaced without consent")
    if rc != 0:
        check(raw == old, "refused (exit code %r), but an SRS was written or lost", rc)
        check("Successfully created" not in txt, "success message with exit code %r", rc)
        if b == m.sample and any(m.tracks.values()) and fmt not in ("stream", "mp3") and not c["check"]:
            check(False, "a good sample was refused with %r: %s", rc, txt[-300:])
        return
    if c["kind"] == "cut" and fmt in ("avi", "mkv", "mp4", "wmv", "flac") and 0 < len(b) < len(m.sample):
        check(len(b) in borders(fmt, m.sample), "a sample that ends in the middle of a structure (%d of %d bytes) was accepted", len(b), len(m.sample))
        ctx.label("ends at a border")
    if not made:
        check(c["old"] == "n", "success without an SRS")
        return
    # which type did it take it for?
    core.quiet()
    import resample
    ft = resample.file_type_info(p).file_type
    env = {"AVI": "riff", "MKV": "ebml", "MP4": "mov", "WMV": "asf", "FLAC": "flac", "MP3": "mp3", "STREAM": "stream"}.get(str(ft))
    try:
        f, tr, fp = F.parse(env or F.OF[fmt], raw)
    except F.Bad as e:
        check(False, "the SRS is not well-formed: %s", e)
    check(f["name"] == os.path.basename(sp), "recorded name %r", f["name"])
    check(f["size"] == len(b), "recorded size %r of a file of %d bytes", f["size"], len(b))
    check(f["crc"] == zlib.crc32(b), "recorded CRC %08X, the file has %08X", f["crc"], zlib.crc32(b))
    if c["check"]:
        return
    if not any(t["len"] for t in tr.values()):
        ctx.label("nodata")
        return
    reb = os.path.join(d, "reb")
    rc, txt = S.srs([p, sp, "-y", "-o", reb])
    g = core.tree(reb) if os.path.isdir(reb) else {}
    if rc != 0 and b != m.sample:  # refused later: damaged structures are not always found again
        ctx.label("not rebuilt")
        check("Successfully rebuilt" not in txt, "success message with exit code %r", rc)
        return
    check(rc == 0, "the SRS of this sample cannot rebuild it from the file itself: exit code %r: %s", rc, txt[-400:])
    check(g == {os.path.basename(sp): b}, "rebuilt file differs")


LEGS = [Leg("damaged", case, run, quick=14000, thorough=150000, shards=8)]
