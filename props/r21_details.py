"""R21: the details listing shows every block as it is, on any terminal."""
import io, os, re, struct, sys
from hypothesis import strategies as st
from vh import core, content, gen, media, rarw, srr as S
from vh.core import Leg, check
from props import r08_blocks as B
from rescene import main as M
from rescene import srr as CLI
from resample import srs as RS

RULE = ("rar/srr: the details (srr -e) of generated RAR volumes (every naming, padding, all block kinds) and of SRRs assembled block by block with "
        "arbitrary field values are parsed and every line is compared with the bytes the generator wrote; terminal: listing (-l), details (-e), extraction (-x) and "
        "verification (-q) are run with stdout in UTF-8 and in a generated smaller character set. Non-trivial: a block beyond marker, archive header and "
        "plain file header (rar, srr) or a name the terminal cannot show (terminal).")
ASSUMPTIONS = ["how a value is laid out on its line is taken from the current output: a value is compared, not the explanation behind it"]
TYPE = {0x69: "SRR Volume Header", 0x6A: "SRR Stored File", 0x6B: "SRR ISDb Hash", 0x6C: "SRR Padding", 0x71: "SRR RAR subblock", 0x72: "RAR Marker",
        0x73: "RAR Archive Header", 0x74: "RAR File", 0x75: "RAR Old style - Comment", 0x76: "RAR Old style - Extra info (authenticity information)",
        0x77: "RAR Old style - Subblock", 0x78: "RAR Old style - Recovery record", 0x79: "RAR Old style - Archive authenticity",
        0x7A: "RAR New-format subblock", 0x7B: "RAR Archive end"}
COMMON = {0x8000: "LONG_BLOCK", 0x4000: "SKIP_IF_UNKNOWN"}
FILEFL = {1: "SPLIT_BEFORE", 2: "SPLIT_AFTER", 4: "PASSWORD", 8: "COMMENT", 0x10: "SOLID", 0x100: "LARGE", 0x200: "UNICODE", 0x400: "SALT", 0x800: "VERSION",
          0x1000: "EXTTIME", 0x2000: "EXTFLAGS"}
FLAGS = {0x69: {1: "application name"}, 0x71: {1: "recovery data is removed", 2: "path"},
         0x73: {1: "VOLUME", 2: "COMMENT", 4: "LOCK", 8: "SOLID", 0x10: "NEWNUMBERING", 0x20: "MHD_AV", 0x40: "PROTECT", 0x80: "PASSWORD", 0x100: "FIRSTVOLUME",
                0x200: "ENCRYPTVER"},
         0x74: FILEFL, 0x7A: FILEFL, 0x7B: {1: "not the last volume", 2: "CRC32", 4: "REV", 8: "number"}}
OS = ["MS DOS", "OS/2", "Windows", "Unix", "Mac OS", "BeOS"]
METHOD = ["Storing", "Fastest", "Fast ", "Normal", "Good", "Best"]


def blocks_of(out):
    """[{"head": line, "lines": [...]}] of a details listing, and what is around it."""
    pre, cur, bl = [], None, []
    for l in out.split("\n"):
        if l.startswith("Block: "):
            cur = [l]
            bl.append(cur)
        elif cur is None:
            pre.append(l)
        else:
            cur.append(l)
    post = []
    if bl:
        while bl[-1] and not bl[-1][-1].startswith(("|", "+", "Block")):
            post.insert(0, bl[-1].pop())
    return pre, bl, post


def field(lines, key):
    got = [l[len(key):] for l in lines if l.startswith(key)]
    check(len(got) == 1, "%r is shown %d times: %r", key, len(got), lines)
    return got[0].strip()


def num(text):
    """0x1F (31 bytes)"""
    m = re.match(r"0x([0-9A-F]+) \((\d+) bytes\)", text)
    check(m and int(m.group(1), 16) == int(m.group(2)), "size shown as %r", text)
    return int(m.group(2))


def times(text):
    if text == "UNKNOWN":
        return None
    m = re.match(r"(\d{4})-(\d\d)-(\d\d) (\d\d):(\d\d):(\d+)(\.\d+)?$", text)
    check(m, "time shown as %r", text)
    g = m.groups()
    return tuple(int(x) for x in g[:5]) + (float(g[5] + (g[6] or "")),)


def same_time(text, want, what):
    got = times(text)
    if want is None:
        check(got is None, "%s shown as %r", what, text)
    else:
        check(got and got[:5] == tuple(want[:5]) and abs(got[5] - want[5]) < 2e-7, "%s shown as %r, expected %r", what, text, want)


def check_flags(lines, t, fl):
    check(int(field(lines, "|HEAD_FLAGS:"), 16) == fl, "flags %#x shown as %r", fl, lines)
    names = dict(COMMON)
    names.update(FLAGS.get(t, {}))
    seen = 0
    for l in lines:
        m = re.match(r"\|   0x([0-9A-F]{4}) (.*)", l)
        if not m:
            continue
        bit = int(m.group(1), 16)
        if "LHD_WINDOW" in m.group(2):
            check(t in (0x74, 0x7A) and bit == fl & 0xE0, "dictionary bits %#x shown as %r", fl & 0xE0, l)
            d = bit >> 5
            check(("directory" if d == 7 else " %d KiB" % (64 << d)) in l, "dictionary %d shown as %r", d, l)
            continue
        check(bit in names and names[bit] in m.group(2) and m.group(2).count("0x") == 0, "flag %#x of block type %#x shown as %r", bit, t, l)
        check(fl & bit and not seen & bit, "flag %#x shown for %#x", bit, fl)
        seen |= bit
    un = 0
    for l in lines:
        if l.startswith("UNSUPPORTED FLAG DETECTED!"):
            un = int(l.split()[-1], 16)
    win = 0xE0 if t in (0x74, 0x7A) else 0
    check(un & ~fl == 0, "unsupported flags %#x of %#x", un, fl)
    lost = fl & ~(seen | un | win) & 0xFFFF
    known = 0
    for b in names:
        known |= b
    check(not lost & known or t == 0x72, "flags %#x of block type %#x (%#x) are not shown: %r", lost, t, fl, lines)


def check_file_lines(lines, h, f, want):
    """f: spec (name, salt, ext); numbers from the header bytes"""
    pk, un, os_, crc, tm, ver, me, nl, attr = struct.unpack_from("<IIBIIBBHI", h, 7)
    fl = struct.unpack_from("<H", h, 3)[0]
    if fl & 0x100:
        hp, hu = struct.unpack_from("<II", h, 32)
        check(int(field(lines, "+HIGH_PACK_SIZE:")) == hp and int(field(lines, "+HIGH_UNP_SIZE:")) == hu, "high sizes differ")
        pk |= hp << 32
        un |= hu << 32
    check(int(field(lines, "+PACK_SIZE:").split()[0]) == pk, "packed size %d: %r", pk, lines)
    check(int(field(lines, "+UNP_SIZE:").split()[0]) == un, "unpacked size %d: %r", un, lines)
    o = field(lines, "+HOST_OS:")
    check(o.startswith(OS[os_]) if os_ < 6 else "(%d)" % os_ in o, "operating system %d shown as %r", os_, o)
    check(int(field(lines, "+FILE_CRC:"), 16) == crc and len(field(lines, "+FILE_CRC:")) == 8, "CRC %08x: %r", crc, lines)
    check(int(field(lines, "+ATTR:"), 16) == attr, "attributes %x: %r", attr, lines)
    v = field(lines, "+UNP_VER:")
    check("%d.%d" % divmod(ver, 10) in v, "version %d shown as %r", ver, v)
    m = field(lines, "+METHOD:")
    check(m.startswith(METHOD[me - 0x30].strip()) if 0x30 <= me <= 0x35 else "0x%02X" % me in m, "method %#x shown as %r", me, m)
    if me == 0x32:
        check("Fastest" not in m, "method shown as %r", m)
    same_time(field(lines, "+FTIME:"), B.dos(tm), "time")
    if want is not None:
        check(field(lines, "+FILE_NAME:") == want.strip(), "name %r: %r", want, lines)
    if f is not None and f.get("salt"):
        check(field(lines, "+SALT:") == f["salt"].upper(), "salt differs")
    else:
        check(not any(l.startswith("+SALT") for l in lines), "salt shown")
    keys = ("+modification time:", "+creation time:", "+last access time:", "+archival time:")
    e = f.get("ext") if f is not None else None
    if e:
        base = B.dos(tm)
        for k, x, w in zip(keys, e, [B.xtime(base, e[0])] + [B.xtime(None, x) for x in e[1:]]):
            same_time(field(lines, k), w, k)
    else:
        check(not any(l.startswith(keys) for l in lines), "extended times shown")


def check_block(lines, t, h, data, kept, pos, f=None, name=None, pad=False):
    head = lines[0]
    if t == 0:          # the archive end of P0W4: what it is called is left open
        check(field(lines, "|Header bytes:") == h.hex(), "bytes of the last block differ")
        return
    check(head.startswith("Block: %s" % TYPE[t]), "block %#x is called %r", t, head)
    m = re.search(r"offset: (.*)", head)
    if pad:
        rawb = struct.pack("<HBHHI", 0x6C6C, 0x6C, 0x8000, 11, len(data)) + data
        check(field(lines, "|Header bytes:") == rawb.hex(), "padding bytes differ")
        check(num(field(lines, "+Padding size (4 bytes):")) == len(data), "padding size")
        return
    check(m and num(m.group(1)) == pos, "block %#x at %d shown as %r", t, pos, head)
    check(field(lines, "|Header bytes:") == (h + (data if kept else b"")).hex(), "bytes of block %#x at %d differ", t, pos)
    crc, _t, fl, hs = struct.unpack_from("<HBHH", h, 0)
    check(int(field(lines, "|HEAD_CRC:"), 16) == crc, "header CRC %04x: %r", crc, lines)
    ty = field(lines, "|HEAD_TYPE:")
    check(ty == "0x%X (%s)" % (t, TYPE[t]), "type %#x shown as %r", t, ty)
    check(num(field(lines, "|HEAD_SIZE:")) == hs, "header size %d", hs)
    check_flags(lines, t, fl)
    if t in (0x74, 0x7A):
        check_file_lines(lines, h, f, name)
    if t == 0x73:
        r1, r2 = struct.unpack_from("<HI", h, 7)
        check(int(field(lines, "+RESERVED1: 2 bytes:")) == r1 and int(field(lines, "+RESERVED2: 4 bytes:")) == r2, "reserved fields: %r", lines)
    if t == 0x78:
        n, ds = struct.unpack_from("<HI", h, 12)
        check(int(field(lines, "+Recovery sectors:")) == n and int(field(lines, "+Data sectors:")) == ds, "recovery record: %r", lines)
        check(num(field(lines, "+ADD_SIZE:")) == struct.unpack_from("<I", h, 7)[0], "recovery size")
    if t == 0x7A:
        nl = struct.unpack_from("<H", h, 26)[0]
        at = 40 if fl & 0x100 else 32
        k = h[at:at + nl].decode("latin-1")
        if k == "RR":
            p = len(h) - 12
            n, ds = struct.unpack_from("<IQ", h, p)
            check(int(field(lines, "+Recovery sectors:")) == n and int(field(lines, "+Data sectors:")) == ds, "recovery record: %r", lines)
        elif k in ("AV", "CMT", "ACL"):
            check(any(l.startswith("+%s:" % k) for l in lines), "%s block: %r", k, lines)
    if t == 0x7B:
        p = 7
        if fl & 2:
            check(int(field(lines, "+RAR CRC (4 bytes):"), 16) == struct.unpack_from("<I", h, p)[0], "volume CRC: %r", lines)
            p += 4
        else:
            check(not any(l.startswith("+RAR CRC") for l in lines), "a CRC is shown")
        if fl & 8:
            check(int(field(lines, "+Volume number (2 bytes):")) == struct.unpack_from("<H", h, p)[0], "volume number: %r", lines)
        else:
            check(not any(l.startswith("+Volume number") for l in lines), "a volume number is shown")


def details(p, how, d):
    if how == "cli":
        r = core.cli(CLI.main, [p, "-e"], cwd=d)
        check(r.rc == 0 and not r.exc and not r.err, "-e failed: %r", r)
        return r.out
    with core.quiet() as (o, e):
        M.print_details(p)
    return o.getvalue()


@st.composite
def rar_case(draw):
    c = draw(B.rar_case())
    c["how"] = draw(st.sampled_from(["path", "path", "sub"]))
    return c


def rar_run(c, ctx):
    d = ctx.dir()
    s = c["set"]
    vols, _files = rarw.build(s)
    for v in vols:
        raw = bytes(v.raw)
        p = core.write(os.path.join(d, "sub dir" if c["how"] == "sub" else "", v.name), raw)
        try:
            out = details(p, "api", d)
        finally:
            check(core.read(p) == raw, "the file changed")
        pre, bl, post = blocks_of(out)
        check(pre == ["The file is a RAR file."], "introduced as %r", pre)
        check(len(bl) == len(v.blocks), "%d blocks shown, expected %d", len(bl), len(v.blocks))
        pos = k = 0
        for lines, (t, h, data, kept) in zip(bl, v.blocks):
            f = None
            name = None
            if t == 0x74:
                f = s["files"][v.pieces[k][0]]
                name = f["name"]
                k += 1
            check_block(lines, t, h, data, kept, pos, f, name, pad=t == 0x6C)
            pos += len(h) + len(data)
        ctx.nontrivial(len(v.blocks) > 4)
    ctx.label(c["how"])


def srr_run(c, ctx):
    d = ctx.dir()
    out, info = B.assemble(c, ctx)
    raw = b"".join(h + dd for _t, h, dd, _k in out)
    if len(raw) < 20:
        raise core.Reject()
    p = core.write(os.path.join(d, "t.srr"), raw)
    text = details(p, "cli" if len(raw) % 8 == 0 and clean(raw) else "api", d)
    pre, bl, post = blocks_of(text)
    check(pre == ["The file is an SRR file."], "introduced as %r", pre)
    check(len(bl) == len(out), "%d blocks shown, expected %d", len(bl), len(out))
    pos = 0
    for lines, (t, h, data, kept), (k, v) in zip(bl, out, info):
        f, name = (v["f"], v["f"]["name"]) if k == "file" else (None, None)
        check_block(lines, t, h, data, kept, pos, f, name)
        if k == "h":
            app = v.encode("utf-8")
            check(num(field(lines, "+Application name length:")) == len(app), "application name length")
            if clean(app):
                check(field(lines, "+Application name:") == v.strip(), "application name %r: %r", v, lines)
        elif k == "stored":
            check(num(field(lines, "+ADD_SIZE:")) == len(data), "stored size")
            check(num(field(lines, "+Stored file name length (2 bytes):")) == len(v[0].encode("utf-8")), "name length")
            check(field(lines, "+Stored file name:") == v[0].strip(), "stored name %r: %r", v[0], lines)
        elif k == "rar":
            check(num(field(lines, "+Rar name length (2 bytes):")) == len(v[0].encode("utf-8")), "name length")
            check(field(lines, "+Rar name:") == v[0].strip(), "volume name %r: %r", v[0], lines)
        elif k == "oso":
            check(num(field(lines, "+File size (8 bytes):")) == v[1], "size of hash block")
            check(field(lines, "+OSO hash (8 bytes):") == "%016x" % v[2], "hash: %r", lines)
            check(field(lines, "+File name:") == v[0].strip(), "name of hash block")
        elif k == "pad":
            check(num(field(lines, "+Padding size (4 bytes):")) == len(data), "padding size")
        pos += len(h) + (len(data) if kept or t == 0x6A else 0)
    check(any(l.endswith(M.content_hash(p)) for l in post), "content hash not shown: %r", post)
    check(core.read(p) == raw, "the SRR changed")
    ctx.nontrivial(any(k in ("file", "sub", "rr", "pad", "oso") for k, _ in info))
    ctx.label(*{k for k, _ in info})


def clean(b):
    """No line breaks in what is printed."""
    return b.decode("utf-8", "replace").isprintable()


# --------------------------------------------------------------- terminal ----
NAME = st.one_of(gen.STORED_NAME, gen.UNI, gen.GREEK)


@st.composite
def term_case(draw):
    names = set()
    s = draw(gen.rarset(max_vols=4, max_files=3, hi=900, names=names))
    return {"set": s, "enc": draw(st.sampled_from(["ascii", "cp1252", "cp437", "latin-1"])), "app": draw(gen.app_name()),
            "stored": draw(st.lists(st.tuples(NAME, gen.content(0, 300)), max_size=3, unique_by=lambda t: t[0].lower())),
            "base": draw(st.one_of(st.none(), gen.UNI, gen.GREEK)), "spoil": draw(st.sampled_from([None, None, "lose", "change"]))}


def term_cli(argv, enc, cwd, main=None):
    def f():
        sys.stdout = io.TextIOWrapper(open(1, "wb", closefd=False), enc, errors="strict", newline="\n")
        sys.stderr = io.TextIOWrapper(open(2, "wb", closefd=False), enc, errors="backslashreplace", newline="\n")
        sys.argv = ["prog"] + list(argv)
        try:
            return (main or CLI.main)(list(argv))
        finally:
            sys.stdout.flush()
    return core.fork_run(f, cwd=cwd)


def term_run(c, ctx):
    d = ctx.dir()
    s = c["set"]
    if c["base"]:
        s = dict(s, base=c["base"])
    vols, files = rarw.build(s)
    rel = os.path.join(d, "files")
    S.write_files(files, rel)
    srr = rarw.srr_header(c["app"])
    for n, b in c["stored"]:
        if any(ch in n for ch in '\\:*?"<>|'):
            raise core.Reject()
        srr += rarw.srr_stored(n, content.data(b))
    for v in vols:
        srr += rarw.srr_rar(v.name) + bytes(v.meta)
    p = core.write(os.path.join(d, "t.srr"), srr)
    if c["spoil"] and files:
        x = os.path.join(rel, sorted(files)[0])
        if c["spoil"] == "lose":
            os.remove(x)
        else:
            core.write(x, core.read(x) + b"!")
    res = {}
    for enc in ("utf-8", c["enc"]):
        for what, argv in (("list", [p, "-l"]), ("details", [p, "-e"]), ("verify", [p, "-q", "-i", rel]), ("extract", [p, "-x", "-y", "-o", os.path.join(d, "x-" + enc)]),
                           ("rebuild", [p, "-r", "-y", "-i", rel, "-o", os.path.join(d, "r-" + enc)])):
            os.makedirs(os.path.join(d, "x-" + enc), exist_ok=True)
            os.makedirs(os.path.join(d, "r-" + enc), exist_ok=True)
            res[what, enc] = term_cli(argv, enc, d)
    e = c["enc"]
    for what in ("list", "details", "verify", "extract", "rebuild"):
        a, b = res[what, "utf-8"], res[what, e]
        check(not a.exc, "%s fails: %r", what, a)
        check(not b.exc and a.rc == b.rc, "%s gives %r on a %s terminal, %r in UTF-8", what, b, e, a)
        if what in ("list", "details"):
            check(a.rc == 0, "%s: %r", what, a)
            want = a.out.encode(e, "replace")
            check(b.out == want.decode("utf-8", "replace"), "%s on a %s terminal: %r, expected %r", what, e, b.out, want)
    for k in "xr":
        S.same_tree(core.tree(os.path.join(d, k + "-" + e)), core.tree(os.path.join(d, k + "-utf-8")), "files written with a %s terminal" % e)
    text = "".join([c["app"], s["base"]] + [n for n, _b in c["stored"]] + list(files))
    ctx.nontrivial(text.encode(e, "replace").decode(e) != text)
    ctx.label(e, *(["spoil"] if c["spoil"] else []))


LEGS = [Leg("rar", rar_case, rar_run, quick=1200, thorough=30000, shards=3),
        Leg("srr", B.srr_case, srr_run, quick=1600, thorough=40000, shards=3),
        Leg("terminal", term_case, term_run, quick=240, thorough=6000, shards=3)]


# --------------------------------------------------------------- samples ----
SNAME = st.one_of(gen.UNI, gen.GREEK, st.sampled_from(["sample", "S\u00e4mple"])).map(lambda t: t.strip(" .") or "s")


@st.composite
def srs_case(draw):
    c = draw(media.CASE["avi"]())
    c["stem"] = draw(SNAME)
    return {"m": c, "enc": draw(st.sampled_from(["ascii", "cp1252", "cp437", "latin-1"]))}


def srs_run(c, ctx):
    m = media.build(c["m"])
    if not m.present or not m.sample:
        raise core.Reject()
    d = ctx.dir()
    if len((c["m"]["stem"] + ".avi").encode()) > 200:
        raise core.Reject()
    sp = core.write(os.path.join(d, "in", c["m"]["stem"] + ".avi"), m.sample)
    mp = core.write(os.path.join(d, "main", c["m"]["stem"] + ".avi"), m.main)
    res = {}
    for enc in ("utf-8", c["enc"]):
        for f in ("s-" + enc, "r-" + enc):
            os.makedirs(os.path.join(d, f))
        p = os.path.join(d, "s-" + enc, "made.srs")
        for what, argv in (("info", [sp, "-i"]), ("create", [sp, "-y", "-o", p]), ("list", [p, "-l"]), ("rebuild", [p, mp, "-y", "-o", os.path.join(d, "r-" + enc)])):
            res[what, enc] = term_cli(argv, enc, d, RS.main)
    e = c["enc"]
    for what in ("info", "create", "list", "rebuild"):
        a, b = res[what, "utf-8"], res[what, e]
        check(not a.exc and a.rc != 99, "%s fails: %r", what, a)
        check(not b.exc and a.rc == b.rc, "srs %s gives %r on a %s terminal, %r in UTF-8", what, b, e, a)
        if what in ("info", "list"):
            check(b.out == a.out.encode(e, "replace").decode("utf-8", "replace"), "srs %s on a %s terminal: %r, in UTF-8 %r", what, e, b.out, a.out)
    for k in "sr":
        S.same_tree(core.tree(os.path.join(d, k + "-" + e)), core.tree(os.path.join(d, k + "-utf-8")), "files written with a %s terminal" % e)
    n = c["m"]["stem"]
    ctx.nontrivial(n.encode(e, "replace").decode(e) != n)
    ctx.label(e)


LEGS.append(Leg("samples", srs_case, srs_run, quick=200, thorough=5000, shards=3))
