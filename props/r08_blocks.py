"""R08: block parsing partitions every archive without losing a byte."""
import os, struct
from hypothesis import strategies as st
from vh import core, content, gen, rarw, srr as S
from vh.core import Leg, check
from rescene import rar as R

RULE = ("rar: a case is a generated RAR set read volume by volume (path, open file, SFX prefix, iterator); srr: an SRR assembled "
        "block by block with arbitrary field values (64-bit sizes, flags, salts, extended times, unicode names, comments, padding); large: a "
        "sparse volume holding a file around or beyond 4 GiB; write: SRR blocks built by the code under test. Non-trivial: at least one optional field "
        "or block kind beyond marker, archive and plain file header.")
ASSUMPTIONS = ["header CRC values are arbitrary: the reader documents that it does not use them"]
LONG = 0x8000


def dos(t):
    return (1980 + (t >> 25), t >> 21 & 15, t >> 16 & 31, t >> 11 & 31, t >> 5 & 63, (t & 31) * 2)


def xtime(base, d):
    if d is None:
        return base
    x = bytes.fromhex(d["x"])
    rem = int.from_bytes(bytes(3 - len(x)) + x, "little")
    b = base if base else dos(d["t"])
    return b[:5] + (b[5] + rem / 10000000 + d["sec"],)


def close_time(a, b):
    if a is None or b is None:
        return a is b
    return a[:5] == b[:5] and abs(a[5] - b[5]) < 1e-6


def check_file(b, f, packed, unpacked, crc, split):
    name = rarw.name_field(f)[2]
    check(b.file_name == name, "file name %r read as %r", name, b.file_name)
    check(b.packed_size == packed, "packed size %r read as %r", packed, b.packed_size)
    check(b.unpacked_size == unpacked, "unpacked size %r read as %r", unpacked, b.unpacked_size)
    check(b.file_crc == crc, "CRC %08x read as %08x", crc, b.file_crc)
    check(b.os == f.get("os", 2) and b.rar_version == f.get("ver", 20) and b.file_attributes == f.get("attr", 32) and
          b.compression_method == f.get("method", 0x30), "OS/version/attributes/method differ for %r", f)
    check(b.file_datetime == dos(f.get("time", rarw.dostime())), "time read as %r", b.file_datetime)
    check(b.salt == (bytes.fromhex(f["salt"]) if f.get("salt") else None), "salt read as %r", b.salt)
    e = f.get("ext")
    if e:
        exp = [xtime(b.file_datetime, e[0])] + [xtime(None, x) for x in e[1:]]
    else:
        exp = [None] * 4
    for n, g, w in zip(("mtime", "ctime", "atime", "arctime"), (b.mtime, b.ctime, b.atime, b.arctime), exp):
        check(close_time(g, w), "%s read as %r, expected %r", n, g, w)
    check(bool(b.flags & b.SPLIT_BEFORE) == bool(split & 1) and bool(b.flags & b.SPLIT_AFTER) == bool(split & 2), "split flags differ")
    d = b.flags >> 5 & 7
    check(b.get_dictionary() == ("File is a directory" if d == 7 else "Dictionary size %d KiB" % (64 << d)), "dictionary shown as %r for flags %04x", b.get_dictionary(), b.flags)
    if d < 7:
        check(b.get_dict_size() == (64 << d) * 1024 and b.get_dictionary_size_parameter() == "-md" + "ABCDEFG"[d], "dictionary size for flags %04x: %r", b.flags, b.get_dict_size())
    check(b.is_compressed() == (f.get("method", 0x30) != 0x30), "is_compressed is wrong")


def check_partition(blocks, expected, start=0, srr=False):
    """expected: [(type, header, data, kept)]"""
    check(len(blocks) == len(expected), "%d blocks found, expected %d (%r / %r)", len(blocks), len(expected),
          [hex(b.rawtype) for b in blocks][-6:], [hex(e[0]) for e in expected][-6:])
    pos = start
    for i, (b, (t, h, d, kept)) in enumerate(zip(blocks, expected)):
        check(b.rawtype == t, "block %d has type %#x, expected %#x", i, b.rawtype, t)
        if t == 0x6C and not srr:
            check(b.block_bytes() == struct.pack("<HBHHI", 0x6C6C, 0x6C, LONG, 11, len(d)) + d, "padding bytes differ")
            check(b.padding_size == len(d), "padding size differs")
            continue
        check(b.block_position == pos, "block %d (%#x) found at %d, expected %d", i, t, b.block_position, pos)
        check(b.header_size == len(h), "header size %d, expected %d", b.header_size, len(h))
        check(b.block_bytes() == h + (d if kept else b""), "bytes of block %d (%#x) differ: %s", i, t,
              core.first_diff(b.block_bytes(), h + (d if kept else b"")))
        check((b.crc, b.flags) == (struct.unpack_from("<H", h, 0)[0], struct.unpack_from("<H", h, 3)[0]), "crc/flags differ")
        pos += len(h) + (len(d) if kept or not srr or t == 0x6A else 0)


@st.composite
def rar_case(draw):
    return {"set": draw(gen.rarset(max_vols=5, max_files=3, big=gen.BIG if draw(st.integers(0, 9)) == 0 else None)),
            "how": draw(st.sampled_from(["path", "path", "file", "iter", "sfx"])), "pre": draw(st.one_of(st.integers(0, 300), st.integers(0, 300), st.sampled_from([70000, 0x80000, 0xF0000]))),
            "utf8": draw(st.integers(0, 5)) == 0}


def rar_run(c, ctx):
    d = ctx.dir()
    s = c["set"]
    if c["how"] == "sfx":
        s = dict(s, pad=None)
    vols, files = rarw.build(s)
    for v in vols:
        raw = bytes(v.raw)
        start = 0
        if c["how"] == "sfx":
            # an executable stub in front (never a marker itself)
            stub = b"MZ\x90" + content.data({"n": c["pre"], "s": 1, "k": "text"})
            start = len(stub)
            raw = stub + raw
        p = core.write(os.path.join(d, v.name), raw)
        if c["how"] == "file":
            r = R.RarReader(open(p, "rb"))
        else:
            r = R.RarReader(p, enable_sfx=c["how"] == "sfx")
        check(r.file_type() == (R.RarReader.SFX if c["how"] == "sfx" else R.RarReader.RAR), "file type is wrong")
        if c["how"] == "iter":
            blocks = [b for b in r]
        else:
            blocks = r.read_all()
            check([b.block_bytes() for b in r.read_all()] == [b.block_bytes() for b in blocks], "reading twice differs")
        exp = v.blocks
        check_partition(blocks, exp, start)
        pf = [b for b in blocks if b.rawtype == 0x74]
        names = []
        for b, (fi, off, k) in zip(pf, v.pieces):
            f = s["files"][fi]
            data = files.get(f["name"].replace("\\", "/"), b"")
            aft = off + k < len(data)
            crc = rarw.zlib.crc32(data[off:off + k] if aft else data)
            check_file(b, f, k, len(data), crc, (1 if off else 0) | (2 if aft else 0))
            names.append(f["name"])
            ctx.nontrivial(any(f.get(x) for x in ("uni", "large", "salt", "ext", "fcmt")) or f.get("long") is False)
        check(r.list_files() == names, "list_files gives %r, expected %r", r.list_files(), names)
        rb = [b for b in blocks if b.rawtype == 0x78 or (b.rawtype == 0x7A and b.file_name == "RR")]
        check(len(rb) == (1 if s.get("rr") else 0), "recovery record not recognised")
        for b in rb:
            prot = sum(len(h) + len(dd) for t, h, dd, _k in exp[:[x[1] for x in exp].index(b.block_bytes()[:b.header_size])])
            check((b.recovery_sectors, b.data_sectors) == (s["rr"]["n"], (prot + 511) // 512), "recovery sectors read as %r", (b.recovery_sectors, b.data_sectors))
            ctx.nontrivial()
        ctx.nontrivial(s.get("pad") or len(exp) > 4)
        ctx.label(c["how"])


@st.composite
def wild_file(draw):
    f = draw(gen.packed(set(), hi=5, dirs=True))
    f["method"] = draw(st.sampled_from([0x30, 0x30, 0x31, 0x33, 0x35, 0x36, 0]))
    f["os"] = draw(st.one_of(st.integers(0, 5), st.integers(0, 255)))
    f["ver"] = draw(st.integers(0, 255))
    f["attr"] = draw(st.integers(0, 0xFFFFFFFF))
    big = st.one_of(st.integers(0, 5000), st.sampled_from([0xFFFFFFFF, 1 << 32, (1 << 32) + 1, 1 << 31, (1 << 63) + 5, (1 << 64) - 1]), st.integers(0, (1 << 64) - 1))
    f["large"] = draw(st.booleans())
    lim = (1 << 64) - 1 if f["large"] else 0xFFFFFFFF
    return {"f": f, "p": min(draw(big), lim), "u": min(draw(big), lim), "crc": draw(st.integers(0, 0xFFFFFFFF)), "x": draw(st.integers(0, 3)),
            "utf8": draw(st.integers(0, 5)) == 0}


@st.composite
def srr_case(draw):
    def one(k):
        return st.tuples(st.just(k), {"stored": st.tuples(gen.STORED_NAME, gen.content(0, 800)), "rar": st.tuples(gen.STORED_NAME, st.sampled_from([0, 1, 2, 3])),
                                      "oso": st.tuples(gen.STORED_NAME, st.integers(0, (1 << 64) - 1), st.integers(0, (1 << 64) - 1)),
                                      "file": wild_file(), "main": st.tuples(st.integers(0, 0xFFFF).map(lambda x: x & 0x43FD), st.integers(0, 0xFFFF), st.integers(0, 0xFFFFFFFF)),
                                      "marker": st.just(0), "sub": gen.extra(), "pad": gen.content(0, 50), "end": st.tuples(st.sampled_from([0, 1, 2, 8, 11, 15]), st.just(0)),
                                      "rr": st.tuples(st.sampled_from(["old", "new"]), st.integers(0, 100), st.integers(0, 100000))}[k])
    kinds = ["stored", "rar", "oso", "file", "file", "main", "marker", "sub", "pad", "end", "rr"]
    return {"app": draw(st.one_of(st.none(), gen.app_name())), "blocks": draw(st.lists(st.sampled_from(kinds).flatmap(one), min_size=1, max_size=10))}


def assemble(c, ctx):
    """[(type, header, data, kept)] and [(kind, description)] of an SRR."""
    out = [(0x69, rarw.srr_header(c["app"]), b"", True)]
    info = [("h", c["app"] or "")]
    rm = True
    for k, v in c["blocks"]:
        if k == "stored":
            data = content.data(v[1])
            b = rarw.srr_stored(v[0], data)
            out.append((0x6A, b[:len(b) - len(data)], data, False))
        elif k == "rar":
            out.append((0x71, rarw.srr_rar(v[0], v[1]), b"", True))
            rm = bool(v[1] & 1)
        elif k == "oso":
            out.append((0x6B, rarw.srr_oso(v[0], v[1], "%016x" % v[2]), b"", True))
        elif k == "file":
            f = v["f"]
            if v["utf8"] and f.get("uni"):
                h = rarw.file_header(dict(f, uni=False, name="@"), v["p"], v["u"], v["crc"], v["x"])
                nb = f["name"].encode("utf-8")
                at = 40 if f.get("large") else 32
                h = bytearray(h[:at] + nb + h[at + 1:])
                struct.pack_into("<H", h, 26, len(nb))
                struct.pack_into("<H", h, 5, len(h))
                struct.pack_into("<H", h, 3, struct.unpack_from("<H", h, 3)[0] | 0x200)
                h = bytes(h)
                ctx.label("utf8-name")
            else:
                h = rarw.file_header(f, v["p"], v["u"], v["crc"], v["x"])
            out.append((0x74, h, b"", True))
        elif k == "main":
            out.append((0x73, rarw.block(0x73, v[0] & ~2, struct.pack("<HI", v[1], v[2]))[0], b"", True))
        elif k == "marker":
            out.append((0x72, rarw.MARKER, b"", True))
        elif k == "sub":
            h, data = rarw.sub_block(v)
            out.append((h[2], h, data, True))
        elif k == "pad":
            data = content.data(v)
            out.append((0x6C, struct.pack("<HBHHI", 0x6C6C, 0x6C, LONG, 11, len(data)), data, True))
        elif k == "end":
            fl, x = v
            body = (b"\1\2\3\4" if fl & 2 else b"") + (b"\7\0" if fl & 8 else b"") + (bytes(7) if fl & 4 else b"")
            out.append((0x7B, rarw.block(0x7B, 0x4000 | fl, body)[0], b"", True))
        else:
            st_, n, ds = v
            data = b"r" * 20
            if st_ == "old":
                h = rarw.block(0x78, LONG, struct.pack("<IBHI", len(data), 20, n, ds) + b"Protect!")[0]
            else:
                h = rarw.file_header({"name": "RR", "ver": 29, "attr": 0}, len(data), len(data), 1, 0x4000, 0x7A, b"Protect+" + struct.pack("<IQ", n, ds))
            # only SRRs that did not remove it hold the data
            out.append((h[2], h, b"" if rm else data, True))
        info.append((k, v))
    return out, info


def srr_run(c, ctx):
    d = ctx.dir()
    out, info = assemble(c, ctx)
    raw = b"".join(h + dd for _t, h, dd, _k in out)
    if len(raw) < 20:
        raise core.Reject()
    p = core.write(os.path.join(d, "t.srr"), raw)
    r = R.RarReader(p)
    check(r.file_type() == R.RarReader.SRR, "not recognised as SRR")
    blocks = r.read_all()
    check_partition(blocks, out, 0, True)
    for b, (k, v), (_t, h, data, _k) in zip(blocks, info, out):
        if k == "h":
            check(b.appname == v, "application name %r read as %r", v, b.appname)
        elif k == "stored":
            check((b.file_name, b.file_size, b.srr_data()) == (v[0], len(data), data), "stored file differs")
        elif k == "rar":
            check(b.file_name == v[0], "volume name differs")
        elif k == "oso":
            check((b.file_name, b.file_size, b.oso_hash) == (v[0], v[1], "%016x" % v[2]), "hash block differs")
        elif k == "file":
            check_file(b, v["f"], v["p"], v["u"], v["crc"], v["x"])
        elif k == "main":
            check((b.reserved1, b.reserved2) == (v[1], v[2]), "reserved fields differ")
        elif k == "rr":
            check((b.recovery_sectors, b.data_sectors) == (v[1], v[2]), "recovery fields differ")
        elif k == "pad":
            check(b.padding_size == len(data), "padding size differs")
        elif k == "end":
            with core.quiet():
                t = b.explain()
            check(("CRC (4 bytes): 04030201" in t) == bool(v[0] & 2), "volume CRC of the end block: %r", t)
            check(("olume number (2 bytes): 7" in t) == bool(v[0] & 8), "volume number of the end block: %r", t)
        with core.quiet():
            check(isinstance(b.explain(), str), "explain")
    ctx.nontrivial(any(k in ("file", "sub", "rr", "pad", "oso") for k, _ in info))
    ctx.label(*{k for k, _ in info})


@st.composite
def large_case(draw):
    return {"n": draw(st.sampled_from([(1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 5 << 30, (1 << 33) + 12345])) + draw(st.integers(0, 3)),
            "f": draw(gen.packed(set(), hi=5)), "two": draw(st.booleans()), "pad": draw(st.integers(0, 20)), "end": draw(st.booleans())}


def large_run(c, ctx):
    d = ctx.dir()
    f = dict(c["f"], large=True, after=None)
    n = c["n"]
    if n < (1 << 32) and c["two"]:
        f["large"] = False
    p = os.path.join(d, "big.rar")
    exp = []
    with open(p, "wb") as fh:
        def put(h, data=b"", kept=True, skip=0):
            exp.append((h[2], h, data, kept, fh.tell()))
            fh.write(h + data)
            if skip:
                fh.seek(skip, 1)
        put(rarw.MARKER)
        put(rarw.block(0x73, 0, bytes(6))[0])
        put(rarw.file_header(f, n, n, 0x12345678, 0), skip=n)
        if c["two"]:
            put(rarw.file_header({"name": "second.bin"}, 3, 3, 0, 0) , skip=3)
        h, dd = rarw.sub_block({"kind": "cmt", "h": "414243"})
        put(h, dd)
        if c["end"]:
            put(rarw.block(0x7B, 0x4000, b"")[0])
            if c["pad"]:
                fh.write(b"\x01" * c["pad"])
        fh.truncate(fh.tell())
    with core.quiet():
        blocks = R.RarReader(p).read_all()
    want = [e for e in exp]
    if c["end"] and c["pad"]:
        check(blocks[-1].rawtype == 0x6C and blocks[-1].padding_size == c["pad"], "padding after a large file is lost")
        blocks = blocks[:-1]
    check(len(blocks) == len(want), "%d blocks found, expected %d", len(blocks), len(want))
    for b, (t, h, dd, kept, pos) in zip(blocks, want):
        check((b.rawtype, b.block_position) == (t, pos), "block %#x at %d, expected %#x at %d", b.rawtype, b.block_position, t, pos)
        check(b.block_bytes() == h + dd, "bytes of block %#x differ", t)
    check(blocks[2].packed_size == n and blocks[2].unpacked_size == n, "size %d read as %d", n, blocks[2].packed_size)
    ctx.nontrivial()


@st.composite
def write_case(draw):
    name = st.one_of(gen.STORED_NAME, st.sampled_from(["a:b", "a\\b", "x*", "q?", "\"", "<>", "|", "n" * 65522, "n" * 65523, "\u00fc" * 32761, "\u00fc" * 32762, ""]))
    return {"kind": draw(st.sampled_from(["header", "stored", "stored", "rar", "oso", "pad"])), "name": draw(name),
            "app": draw(st.one_of(gen.app_name(), st.sampled_from(["a" * 65526, "\u00fc" * 32763]))),
            "size": draw(st.one_of(st.integers(0, 0xFFFFFFFF), st.sampled_from([0, 0xFFFFFFFF, -1]))),
            "big": draw(st.integers(0, (1 << 64) - 1)), "h": draw(st.integers(0, (1 << 64) - 1)), "c": draw(gen.content(0, 400, big=[70000]))}


def write_run(c, ctx):
    d = ctx.dir()
    k, n = c["kind"], c["name"]
    data = b""
    ctx.label(k)
    ctx.nontrivial()
    if k == "header":
        b = R.SrrHeaderBlock(appname=c["app"]).block_bytes()
        check(b == rarw.srr_header(c["app"] or None), "header block differs")
    elif k == "stored":
        bad = not n or any(ch in n for ch in '\\:*?"<>|') or len(n.encode()) > 65522 or c["size"] < 0
        try:
            b = R.SrrStoredFileBlock(file_name=n, file_size=c["size"]).block_bytes()
            got = False
        except AttributeError:
            got = True
        check(got == bad, "stored block %.40r size %d: refused=%r, expected %r", n, c["size"], got, bad)
        if bad:
            return
        ref = rarw.srr_stored(n, b"")
        check(b == ref[:7] + struct.pack("<I", c["size"]) + ref[11:], "stored block differs")
        return
    elif k == "rar":
        if not n or len(n.encode()) > 65526:
            return
        b = R.SrrRarFileBlock(file_name=n).block_bytes()
        check(b == rarw.srr_rar(n), "volume block differs")
    elif k == "oso":
        n = n[:100]
        b = R.SrrOsoHashBlock(file_size=c["big"], file_name=n, oso_hash="%016x" % c["h"]).block_bytes()
        check(b == rarw.srr_oso(n, c["big"], "%016x" % c["h"]), "hash block differs")
    else:
        data = content.data(c["c"])
        b = R.SrrRarPaddingBlock(padding_bytes=data).block_bytes()
        check(b == struct.pack("<HBHHI", 0x6C6C, 0x6C, LONG, 11, len(data)) + data, "padding block differs")
    p = core.write(os.path.join(d, "t.srr"), (b"" if k == "header" else rarw.srr_header("pyReScene test")) + b + rarw.srr_rar("filler.rar"))
    blk = R.RarReader(p).read_all()[0 if k == "header" else 1]
    check(blk.block_bytes() == b, "block does not read back")
    if k == "header":
        check(blk.appname == c["app"], "application name reads back as %.40r", blk.appname)
    elif k == "pad":
        check(blk.padding_size == len(data), "padding size")
    else:
        check(blk.file_name == n, "name reads back as %.40r", blk.file_name)


LEGS = [Leg("rar", rar_case, rar_run, quick=1600, thorough=40000, shards=3),
        Leg("srr", srr_case, srr_run, quick=2400, thorough=60000, shards=3),
        Leg("large", large_case, large_run, quick=120, thorough=2000, shards=1),
        Leg("write", write_case, write_run, quick=600, thorough=10000, shards=1)]
