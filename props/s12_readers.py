"""S12: container readers terminate and account for every byte."""
import io, os, struct, sys, tempfile, zlib
from hypothesis import strategies as st
from vh import core, media, mut, srs as S, srsfile as F
from vh.core import Leg, check, Reject
from props.s10_badsample import heads
from resample.riff import RiffReader, RiffReadMode, RiffChunkType
from resample.ebml import EbmlReader, EbmlReadMode, EbmlElementType
from resample.mov import MovReader, MovReadMode
from resample.asf import AsfReader, AsfReadMode, GUID_HEADER_OBJECT
from resample.flac import FlacReader
from resample.mp3 import Mp3Reader

RULE = ("cover: a well-formed container is walked with random choices of read, skip, reread and descend; the elements must lie end to end, cover the file and hold its bytes; "
        "non-trivial with three or more elements. fuzz: a mutated or made-up sample, main or SRS file goes through creation, information, listing and rebuilding; "
        "each must end within the case limit with an exit code; non-trivial when the bytes are not the generated well-formed ones and are recognised as media")
ASSUMPTIONS = ["prompt means within 90 s for files of some kilobytes (normally milliseconds)", "files written are limited to 64 MiB and memory to 6 GiB by a resource limit"]
CH = st.lists(st.integers(0, 3), min_size=1, max_size=12)


@st.composite
def ccase(draw):
    fmt = draw(st.sampled_from(["avi", "mkv", "mp4", "wmv", "flac", "mp3"]))
    return {"c": draw(media.CASE[fmt]()), "which": draw(st.sampled_from(["sample", "main"])), "ch": draw(CH), "stream": draw(st.booleans())}


def walk(fmt, b, path, ch, stream):
    """Yield (start, raw header, body or None when descended) for each element in file order."""
    out = []
    i = 0
    kw = {"stream": io.BytesIO(b)} if stream else {"path": path}

    def pick():
        nonlocal i
        i += 1
        return ch[i % len(ch)]

    def body(r, el, head, size, start):
        k = pick()
        if k == 0:
            r.skip_contents()
            return b[start + len(head):start + len(head) + size]
        x = r.read_contents()
        if k == 2:
            r.skip_contents()  # nothing more to skip
        return x
    with core.quiet():
        if fmt == "avi":
            r = RiffReader(RiffReadMode.Sample, **kw)
            while r.read():
                el = r.current_chunk
                if r.chunk_type == RiffChunkType.List:
                    r.move_to_child()
                    out.append((el.chunk_start_pos, el.raw_header, b""))
                else:
                    x = body(r, el, el.raw_header, el.length, el.chunk_start_pos)
                    out.append((el.chunk_start_pos, el.raw_header, x + (bytes([r.padding_byte]) if r.has_padding else b"")))
        elif fmt == "mkv":
            r = EbmlReader(EbmlReadMode.Sample, **kw)
            while r.read():
                el = r.current_element
                if r.element_type in (EbmlElementType.Segment, EbmlElementType.Cluster, EbmlElementType.BlockGroup, EbmlElementType.AttachmentList,
                                      EbmlElementType.Attachment):
                    r.move_to_child()
                    out.append((el.element_start_pos, el.raw_header, b""))
                else:
                    head = el.raw_header
                    if r.element_type == EbmlElementType.Block:
                        head = head + el.raw_block_header
                        check(sum(el.frame_lengths) == el.length, "frames of %d bytes in a block with %d", sum(el.frame_lengths), el.length)
                    out.append((el.element_start_pos, head, body(r, el, head, el.length, el.element_start_pos)))
        elif fmt == "mp4":
            r = MovReader(MovReadMode.Sample, **kw)
            while r.read():
                el = r.current_atom
                if r.atom_type in (b"moov", b"trak", b"mdia", b"minf", b"stbl"):
                    r.move_to_child()
                    out.append((el.start_pos, el.raw_header, b""))
                elif r.atom_type == b"mdat":
                    if pick() == 0:
                        r.skip_contents()
                        x = b[el.start_pos + len(el.raw_header):el.start_pos + el.size]
                    else:
                        x = b"".join(r.read_contents_chunks(1 + 97 * pick()))
                    out.append((el.start_pos, el.raw_header, x))
                else:
                    out.append((el.start_pos, el.raw_header, body(r, el, el.raw_header, el.size - len(el.raw_header), el.start_pos)))
        elif fmt == "wmv":
            r = AsfReader(AsfReadMode.Sample, **kw)
            while r.read():
                el = r.current_object
                if el.type == GUID_HEADER_OBJECT:
                    r.move_to_child()
                    out.append((el.start_pos, el.raw_header, b""))
                else:
                    out.append((el.start_pos, el.raw_header, body(r, el, el.raw_header, el.size - len(el.raw_header), el.start_pos)))
        elif fmt == "flac":
            r = FlacReader(**kw)
            while r.read():
                el = r.current_block
                out.append((el.start_pos, el.raw_header, body(r, el, el.raw_header, el.size, el.start_pos)))
        else:
            r = Mp3Reader(**kw)
            for el in r.read():
                out.append((el.start_pos, b"", r.read_contents()))
                k = pick()
                if el.size:
                    p = r.read_part(min(el.size, k), 0)
                    check(p == b[el.start_pos:el.start_pos + min(el.size, k)], "a part of a block differs from the file")
                check(len(out[-1][2]) == el.size, "block of %d bytes has size %d", len(out[-1][2]), el.size)
        r.close()
    return out


def cover(c, ctx):
    m = media.build(c["c"])
    b = m.sample if c["which"] == "sample" else m.main
    fmt = c["c"]["fmt"]
    p = core.write(os.path.join(ctx.dir(), "x" + media.EXT[fmt]), b)
    els = walk(fmt, b, p, c["ch"], c["stream"])
    ctx.nontrivial(len(els) >= 3)
    ctx.label(fmt, "elements:%s" % min(len(els), 10))
    pos = 0
    for start, head, x in els:
        check(start == pos, "element at %d, expected %d", start, pos)
        check(b[start:start + len(head)] == head and b[start + len(head):start + len(head) + len(x)] == x, "element at %d differs from the file", start)
        pos = start + len(head) + len(x)
    rest = len(b) - pos
    check(rest == 0 or (fmt == "wmv" and rest < 24) or (fmt == "avi" and rest < 8) or (fmt == "mp4" and rest < 8) or (fmt == "mkv" and rest < 2),
          "%d bytes of %d are not accounted for", rest, len(b))


# ------------------------------------------------------------------ fuzz ----
MAGIC = [b"\x1a\x45\xdf\xa3", b"RIFF", b"Rar!\x1a\x07\0", b"\0\0\0\x20ftyp", b"3gp5", b"\x30\x26\xb2\x75\x8e\x66\xcf\x11\xa6\xd9\0\xaa\0\x62\xce\x6c", b"fLaC", b"ID3", b"SRSF", b"STRM\x08\0\0\0",
         b"\xff\xfb", b"", b"G"]
TOK = [b"SRSF", b"SRST", b"SRSP", b"HDRS", b"LIST", b"movi", b"AVI ", b"RIFF", b"00dc", b"01wb", b"idx1", b"\x18\x53\x80\x67", b"\x1f\x43\xb6\x75", b"\xa3", b"\xa0\xa1", b"\x19\x41\xa4\x69", b"\x61\xa7",
       b"moov", b"trak", b"mdat", b"stsz", b"stsc", b"stco", b"tkhd", b"\x36\x26\xb2\x75\x8e\x66\xcf\x11\xa6\xd9\0\xaa\0\x62\xce\x6c", b"TAG", b"APETAGEX\xd0\7\0\0", b"LYRICS200", b"LYRICSEND", b"LYRICSBEGIN",
       b"ID3\3\0\0\0\0\0\x0a", b"\0\0\0\0", b"\xff\xff\xff\xff", b"\1\0\0\0", b"\0\0\0\1", b"\x7f", b"\x80", b"\x01\xff\xff\xff\xff\xff\xff\xff", b"\x0a\x00\x00\x00", b"\0\0\0\x10"]


@st.composite
def fcase(draw):
    fmt = draw(st.sampled_from(sorted(media.CASE)))
    c = {"c": draw(media.CASE[fmt]()), "kind": draw(st.sampled_from(["srs", "srs", "srs", "sample", "main", "tok"])), "muts": draw(mut.mutations(4)),
         "pos": draw(st.integers(0, 2 ** 20)), "val": draw(st.one_of(st.sampled_from(TOK), st.binary(min_size=1, max_size=9))).hex(), "field": draw(st.booleans()),
         "op": draw(st.sampled_from(["create", "info", "list", "rebuild", "rebuild", "check"])), "up": draw(st.booleans())}
    if c["kind"] == "tok":
        c["magic"] = draw(st.integers(0, len(MAGIC) - 1))
        c["toks"] = draw(st.lists(st.one_of(st.integers(0, len(TOK) - 1), st.binary(max_size=12).map(bytes.hex)), max_size=25))
    return c


def fuzz(c, ctx):
    core.limits()
    d = ctx.dir()
    m = media.build(c["c"])
    fmt = c["c"]["fmt"]
    sp = core.write(os.path.join(d, "in", "s" + (media.EXT[fmt].upper() if c["up"] else media.EXT[fmt])), m.sample)
    mp = core.write(os.path.join(d, "in", "m" + media.EXT[fmt]), m.main)
    out = os.path.join(d, "out")
    os.mkdir(out)
    srs = os.path.join(d, "in", "s.srs")
    k = c["kind"]
    if k == "srs" or c["op"] in ("rebuild", "list"):
        rc, txt = S.srs([sp, "-y", "-o", srs])
        if not os.path.exists(srs):
            core.write(srs, b"RIFF nothing")
    target = {"srs": srs, "sample": sp, "main": mp, "tok": srs if c["op"] in ("rebuild", "list") else sp}[k]
    if k == "tok":
        b = MAGIC[c["magic"]] + b"".join(TOK[t] if isinstance(t, int) else bytes.fromhex(t) for t in c["toks"])
    else:
        b = core.read(target)
        if c["field"]:
            h = heads(b)
            for key in (b"SRSF", b"SRST", b"SRSP", b"\xc0\0", b"HDRS", b"SRSFILE", b"SRSTRACK"):
                p = b.find(key)
                h += [p, p + len(key), p + len(key) + 4] if p >= 0 else []
            p = h[c["pos"] % len(h)]
            v = bytes.fromhex(c["val"])
            b = b[:p] + v + b[p + len(v):]
        else:
            b = mut.apply(b, c["muts"], heads(b))
    if os.path.exists(target):
        os.unlink(target)
    core.write(target, b)
    before = core.tree(os.path.join(d, "in"))
    argv = {"create": [sp, "-y", "-o", out], "info": [sp, "-i"], "list": [srs, "-l"], "rebuild": [srs, mp, "-y", "-o", out], "check": [sp, "-y", "-o", out, "-c", mp]}[c["op"]]
    rc, txt = S.srs(argv)
    check(isinstance(rc, int) or rc is None, "exit code %r", rc)
    check(core.tree(os.path.join(d, "in")) == before, "the input files changed")
    ctx.label(c["op"], k, "rc:%s" % rc)
    ctx.nontrivial("Could not locate" not in txt)
    if c["op"] in ("info", "list"):
        check(not os.listdir(out), "reading information wrote %r", os.listdir(out))


LEGS = [Leg("cover", ccase, cover, quick=4000, thorough=100000, shards=8), Leg("fuzz", fcase, fuzz, quick=6000, thorough=200000, shards=8)]
