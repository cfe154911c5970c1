"""U03: random access to a usenet-posted file equals the local file."""
import io, os, random, sys
from hypothesis import strategies as st
from vh import core, gen, content, nntp, srr as S
from vh.core import Leg, check, Reject
sys.path.insert(0, os.path.join(core.REPO, "usenet"))
import warnings
warnings.simplefilter("ignore")
with core.quiet():
    import srr_usenet as U
import pynzb, nzb_utils
from optparse import Values

RULE = ("access: a file is posted as yEnc articles (any segment size, line length, with or without a Lines header) on a loopback NNTP server and a generated sequence of seeks, reads, tells and size queries "
        "is compared step by step with the local bytes. faults: articles are missing, damaged, swapped or taken from another post on one or both of two servers; the whole file read is exact when every segment is intact somewhere, otherwise an error is raised. "
        "srr: a whole release (1-2 RAR sets, SFV or not, nfo, proof, images and other files to keep or to leave, files posted twice, segments missing from the NZB) is posted, the NZB is given to the tool's main with generated options and missing articles, and the SRR is compared with the independently known volume metadata and stored files. "
        "Non-trivial: at least two segments and two reads (access); at least one faulty article (faults); more than one volume (srr).")
ASSUMPTIONS = ["all segments but the last have the same size, as posting tools make them", "names that are not RAR volumes in access and faults: for RAR volumes the tool deliberately ignores CRC errors and realigns headers",
               "damage is checked for full downloads; the tool cannot check the CRC of an article it only reads the first lines of", "an article of another post in place of the first segment can't be told from the right one", "srr: RAR blocks of the standard types (a 0x00 end block is realigned away by design)"]


def setup_servers(n, group=False):
    ss = [nntp.server(i) for i in range(n)]
    for s in ss:
        s.reset()
    U.EXTRA_SERVERS = [("127.0.0.1", s.port, "", "", False) for s in ss]
    U.NNTP_SERVER, U.NNTP_PORT, U.NNTP_LOGIN, U.NNTP_PASSWORD = "127.0.0.1", ss[0].port, "", ""
    U.NO_CLI_SERVER = 1
    U.options = Values({"nntp_debug_level": 0, "nostat": False, "group": group, "dry_run": False, "fuckup": False, "output_dir": None, "crc": False, "largeseg": False})
    return ss


def post(ss, name, data, c, tag="f"):
    """Posts on all servers; returns the NZBFile."""
    arts = nntp.articles(name, data, c["seg"], c["line"], c.get("single", True))
    nz = pynzb.base.NZBFile("me <a@b>", 1300000000, '[1/9] - "%s" yEnc (1/%d)' % (name, len(arts)), ["alt.x"])
    for num, ls, size in arts:
        mid = "%s.%d@x" % (tag, num)
        head = [b"Subject: x"] + ([b"Lines: %d" % max(0, len(ls) + c.get("off", 0))] if c.get("lines", True) else []) + [b"Bytes: 1"]
        for s in ss:
            s.state["articles"][mid] = {"lines": ls, "head": head}
            s.state["groups"].add("alt.x")
        nz.add_segment(pynzb.base.NZBSegment(size, num, mid))
    return nz


FNAME = st.sampled_from(["file.nfo", "x.sfv", "a b.jpg", "sample.avi", "proof.png", "x.srs", "caf\u00e9.nfo", "a.mkv"])


@st.composite
def case(draw):
    n = draw(st.one_of(st.integers(1, 60), st.integers(1, 5000), st.integers(1000, 20000)))
    seg = draw(st.one_of(st.sampled_from([n, max(1, n // 2), max(1, n // 3), max(1, n // 5)]), st.integers(max(1, n // 12), n + 1), st.integers(max(1, n // 10), max(1, n // 4))))
    pos = st.one_of(st.integers(0, n), st.sampled_from([k * seg + d for k in range(0, n // seg + 1) for d in (-1, 0, 1)] + [n, n - 1, 0]), st.integers(-3, n + 3))
    op = st.one_of(st.tuples(st.just("seek"), pos, st.just(0)), st.tuples(st.just("seek"), st.one_of(st.integers(-n - 2, 2), st.just(0)), st.just(2)), st.tuples(st.just("seek"), st.integers(-n, n), st.just(1)),
                   st.tuples(st.just("read"), st.one_of(st.integers(0, 30), st.integers(0, n + 2), st.sampled_from([seg, seg - 1, seg + 1, 2 * seg])), st.just(0)),
                   st.tuples(st.just("read"), st.one_of(st.integers(0, 30), st.integers(0, n + 2), st.sampled_from([seg, seg - 1, seg + 1, 2 * seg])), st.just(0)),
                   st.tuples(st.sampled_from(["readall", "tell", "size"]), st.just(0), st.just(0)))
    return {"c": {"n": n, "s": draw(st.integers(0, 999)), "k": draw(st.sampled_from(["rand", "rand", "text", "zero", "rep"]))}, "seg": seg, "name": draw(FNAME), "line": draw(st.sampled_from([128, 128, 64, 20, 256])),
            "single": draw(st.booleans()), "lines": draw(st.sampled_from([True, True, True, False])), "off": draw(st.sampled_from([0, 0, 0, 5, -5, 40])), "big": draw(st.integers(0, 3)) == 0, "group": draw(st.booleans()), "ops": draw(st.lists(op, min_size=1, max_size=12))}


class Model:
    def __init__(self, data):
        self.d, self.p = data, 0

    def seek(self, off, wh):
        t = off + {0: 0, 1: self.p, 2: len(self.d)}[wh]
        if not 0 <= t <= len(self.d):
            raise IndexError()
        self.p = t
        return t

    def read(self, n=-1):
        r = self.d[self.p:] if n < 0 else self.d[self.p:self.p + n]
        self.p += len(r)
        return r


def run(c, ctx):
    data = content.data(c["c"])
    ss = setup_servers(1, c["group"])
    U.DEFAULT_LINES = -1 if c["big"] else 4
    nz = post(ss, c["name"], data, c)
    m, reads = Model(data), 0
    with core.quiet():
        f = U.NNTPFile(U.NNTP("127.0.0.1", ss[0].port), nz)
        f.group = c["group"]
        try:
            check(str(f) == c["name"] and f.name == c["name"], "name is %r", f.name)
            for k, (op, a, b) in enumerate(c["ops"]):
                if op == "seek":
                    try:
                        want = m.seek(a, b)
                    except IndexError:
                        try:
                            got = f.seek(a, b)
                        except IndexError:
                            check(f.tell() == m.p, "a refused seek moved the position")
                            continue
                        check(False, "seek(%d, %d) outside of the file returned %r", a, b, got)
                    got = f.seek(a, b)
                    check(got == want, "op %d: seek(%d, %d) is %r, expected %r", k, a, b, got, want)
                elif op in ("read", "readall"):
                    want = m.read(a if op == "read" else -1)
                    got = bytes(f.read(a) if op == "read" else f.read())
                    check(got == want, "op %d: %s(%d) at %d: %s (segments of %d, %d bytes)", k, op, a, m.p - len(want), core.first_diff(got, want), c["seg"], len(data))
                    reads += 1
                elif op == "size":
                    check(f.file_size() == len(data), "size is %r, expected %d", f.file_size(), len(data))
                check(f.tell() == m.p, "op %d (%s): position is %r, expected %d", k, op, f.tell(), m.p)
        finally:
            try:
                f.server.quit()
            except Exception:
                pass
    ctx.nontrivial(reads > 1 and len(data) > c["seg"])
    ctx.label("%d segments" % min(9, -(-len(data) // c["seg"])))


# ---------------------------------------------------------------- faults
@st.composite
def fault_case(draw):
    n = draw(st.one_of(st.integers(1, 60), st.integers(100, 5000)))
    seg = draw(st.integers(max(1, n // 6), n + 1))
    two = draw(st.booleans())
    f = st.tuples(st.integers(0, 1 if two else 0), st.integers(0, 7), st.sampled_from(["missing", "flip", "noend", "cut", "empty", "badcrc", "drop", "other", "swap"]), st.integers(0, 10 ** 6))
    return {"c": {"n": n, "s": draw(st.integers(0, 999)), "k": "rand"}, "seg": seg, "name": draw(FNAME), "line": 128, "two": two, "faults": draw(st.lists(f, max_size=4)), "nzb": draw(st.one_of(st.none(), st.none(), st.integers(0, 7)))}


def spoil(ls, kind, a, yp):
    ls = list(ls)
    b0, b1 = yp, len(ls) - 1
    i = b0 + a % max(1, b1 - b0)
    if kind == "flip":
        j = a // 7 % len(ls[i])
        ls[i] = ls[i][:j] + bytes([65 if ls[i][j] != 65 else 66]) + ls[i][j + 1:]
    elif kind == "noend":
        del ls[-1]
    elif kind == "cut":
        del ls[i:]
    elif kind == "empty":
        ls = []
    elif kind == "badcrc":
        ls[-1] = ls[-1][:-8] + b"%08x" % (int(ls[-1][-8:], 16) ^ (1 + a))
    elif kind == "drop":
        del ls[i]
    return ls


def fault_run(c, ctx):
    data = content.data(c["c"])
    ss = setup_servers(2 if c["two"] else 1)
    U.DEFAULT_LINES = 4
    nz = post(ss, c["name"], data, c)
    n = len(nz.segments)
    bad, keep = {}, {m: a["lines"] for m, a in ss[0].state["articles"].items()}
    for srv, k, kind, a in c["faults"]:
        s, mid = ss[srv], "f.%d@x" % (k % n + 1)
        if (srv, mid) in bad:
            continue
        bad[srv, mid] = kind
        if kind == "missing":
            del s.state["articles"][mid]
        elif kind == "other":      # the server returns an article of another post
            size = len(data) + [1, -1, 700, -len(data) // 2][a % 4]
            arts = nntp.articles("other.bin", content.data({"n": max(1, size), "s": a, "k": "rand"}), c["seg"], 128)
            if k % n == 0 or size < 1 or len(arts) <= k % n or len(arts) == 1:
                del bad[srv, mid]
                continue
            s.state["articles"][mid] = dict(s.state["articles"][mid], lines=arts[k % n][1])
        elif kind == "swap":       # ... or another article of the same post
            s.state["articles"][mid] = dict(s.state["articles"][mid], lines=keep["f.%d@x" % ((k + 1 + a) % n + 1)])
            if keep["f.%d@x" % ((k + 1 + a) % n + 1)] == keep[mid]:
                del bad[srv, mid]
        else:
            art = s.state["articles"][mid]
            s.state["articles"][mid] = dict(art, lines=spoil(art["lines"], kind, a, 1 if n == 1 else 2))
    lost = False
    if c["nzb"] is not None and n > 1:
        lost = True
        del nz.segments[c["nzb"] % n]
    ok = not lost and all(any((srv, "f.%d@x" % (k + 1)) not in bad for srv in range(len(ss))) for k in range(n))
    with core.quiet():
        f = U.NNTPFile(U.NNTP("127.0.0.1", ss[0].port), nz)
        try:
            got = bytes(f.read())
        except Exception as e:
            got = e
        finally:
            try:
                f.server.quit()
            except Exception:
                pass
    if ok:
        check(isinstance(got, bytes), "every segment is available but reading failed: %r (faults %r)", got, bad)
    if isinstance(got, bytes):
        check(got == data, "reading with faults %r%s gave other data: %s", bad, " and a segment missing from the NZB" if lost else "", core.first_diff(got, data))
        check(ok, "unreadable segments were not reported: %r", bad)
    ctx.nontrivial(bool(bad) or lost)
    ctx.label("readable" if ok else "lost")


# ------------------------------------------------------------------- srr
from vh import rarw
from rescene import main as M
import rescene, zlib
BADNAME = ("kere.ws", "_s.jpg")


# posts next to the volumes: (how the content is made, is it stored?)
EXTRA = {"cover.jpg": ("nine", None), "cd-proof.jpg": ("small", True), "x_s.jpg": ("big", False), "x-thumb.jpg": ("big", False), "y_poster.jpg": ("big", False), "grp-proof-thumb.jpg": ("big", True), "front.png": ("small", True),
         "c.png": ("kere", False), "d.png": ("kere1", True), "cover.bmp": ("small", True), "grp-sample.srs": ("small", True), "UsenetSpaceCowboys.nfo": ("small", False), "_newzNZB.nfo": ("small", False), "second.nfo": ("small", True),
         "upper.JPG": ("small", True), "UPPER.NFO": ("small", True), "grp-subs.sfv": ("subs", True), "grp.mkv": ("small", False), "x.srr": ("small", False), "grp.nzb": ("small", False), "readme.txt": ("small", False)}


def extra_data(name, kind, a, c):
    """(content, stored?)"""
    if kind == "small":
        return content.data({"n": 40 + a, "s": a, "k": "rand"}), EXTRA[name][1]
    if kind == "big":
        return content.data({"n": 12000 + a, "s": a, "k": "rand"}), EXTRA[name][1]
    if kind == "subs":
        return b"grp-subs.rar 12345678\r\n", True
    if kind in ("kere", "kere1"):
        return bytes(592451 + (kind == "kere1") * (1 if a > 0 else -1)), EXTRA[name][1]
    lo, hi = 1, 9500        # an image whose posted size is about 9000 bytes
    size = lambda n: sum(x[2] for x in nntp.articles(name, content.data({"n": n, "s": 1, "k": "rand"}), c["seg"], c["line"]))
    while lo < hi:
        m = (lo + hi) // 2
        lo, hi = (m + 1, hi) if size(m) < 9000 + a else (lo, m)
    return content.data({"n": lo, "s": 1, "k": "rand"}), size(lo) >= 9000


@st.composite
def srr_case(draw):
    names = set()
    sets = [draw(gen.rarset(base=draw(st.sampled_from(["grp-rls", "a", "the.show.s01e01-grp", "x-y-z", "submarine-x"])), names=names, max_vols=6, max_files=3, hi=2500, unicode_ok=False, first_min=1))]
    if draw(st.integers(0, 3)) == 0:
        sets.append(draw(gen.rarset(base="second", names=names, max_vols=3, max_files=2, hi=1500, unicode_ok=False, first_min=1)))
    return {"sets": sets, "seg": draw(st.one_of(st.integers(300, 900), st.integers(900, 6000))), "line": draw(st.sampled_from([128, 128, 64, 20, 33, 45])), "lines": draw(st.booleans()), "off": draw(st.sampled_from([0, 0, 3, -3, -20, 60])),
            "extra": draw(st.lists(st.tuples(st.sampled_from(sorted(EXTRA)), st.integers(-3, 3)), max_size=3, unique_by=lambda t: t[0])), "dup": draw(st.lists(st.tuples(st.integers(0, 99), st.booleans(), st.sampled_from(["less", "same", "new"])), max_size=2)),
            "cutnzb": draw(st.one_of(st.none(), st.none(), st.none(), st.tuples(st.integers(0, 99), st.sampled_from(["first", "last", "any"])))), "last": draw(st.booleans()), "sfvtwice": draw(st.sampled_from([0, 0, 0, 1, 2])), "two": draw(st.booleans()),
            "sfv": draw(st.sampled_from([True, True, False])), "nfo": draw(st.booleans()), "proof": draw(st.booleans()), "opts": draw(st.lists(st.sampled_from(["-x", "-a", "-c", "-g"]), unique=True)),
            "miss": draw(st.lists(st.tuples(st.integers(0, 1), st.integers(0, 10 ** 6)), max_size=3)), "shuffle": draw(st.integers(0, 99)), "order": draw(st.booleans())}


def srr_run(c, ctx):
    for s in c["sets"]:      # the tool realigns headers by their known block types: 0x00 end blocks are out of its reach
        s["end"] = "std" if s["end"] == "p0w4" else s["end"]
    d = ctx.dir()
    out, nzbs, loc = os.path.join(d, "out"), os.path.join(d, "nzb"), os.path.join(d, "local")
    for x in (out, nzbs, loc):
        os.makedirs(x)
    ss = setup_servers(2 if c["two"] else 1)
    posted, meta, stored, firsts = {}, [], {}, []
    for s in c["sets"]:
        vols, _files, paths = S.write_set(s, loc)
        for v in vols:
            posted[v.name] = bytes(v.raw)
            meta.append((v.name, v.meta))
        firsts.append(paths[0])
        if c["sfv"]:
            posted[s["base"] + ".sfv"] = stored[s["base"] + ".sfv"] = S.sfv_text([(v.name, bytes(v.raw)) for v in vols])
    if c["nfo"]:
        posted["grp.nfo"] = stored["grp.nfo"] = b"release notes \xdb\xb2\r\n" * 30
    if c["proof"]:
        posted["grp-proof.jpg"] = stored["grp-proof.jpg"] = content.data({"n": 15000, "s": c["shuffle"], "k": "rand"})
        posted["tiny.jpg"] = b"not big enough"
    posted["grp.vol000+1.par2"] = b"par2"
    for name, a in c["extra"]:
        data, keep = extra_data(name, EXTRA[name][0], a, c)
        posted[name] = data
        if keep:
            stored[name] = data
    items = list(posted.items())
    random.Random(c["shuffle"]).shuffle(items)
    doc = nzb_utils.empty_nzb_document()
    mids, lasts, cut, files = [], [], set(), []
    isvol = {v for v, _m in meta}
    for k, (n, data) in enumerate(items):
        big = len(data) > 100000
        nz = post(ss, n, data, dict(c, seg=600000) if big else c, "f%d" % k)
        if c["order"]:
            nz.segments.reverse()
        mids += [s.message_id for s in nz.segments]
        if n in isvol:
            lasts.append(max(nz.segments, key=lambda s: s.number).message_id)
        files.append((n, nz))
        if n.endswith(".sfv") and n in stored and c["sfvtwice"] and data.count(b"\n") > 1:      # an unfinished SFV file was posted too
            data = b"\r\n".join(data.split(b"\r\n")[:-2]) + b"\r\n"
            files.insert(len(files) - (c["sfvtwice"] == 1), (n, post(ss, n, data, c, "g%d" % k)))
    if c["cutnzb"]:
        n, nz = files[c["cutnzb"][0] % len(files)]
        if n not in isvol:
            n, nz = files[[x for x, _z in files].index(meta[c["cutnzb"][0] % len(meta)][0])]
        k = {"first": 0, "last": len(nz.segments) - 1, "any": c["cutnzb"][0] % len(nz.segments)}[c["cutnzb"][1]]
        if len(nz.segments) > 1:
            s = sorted(nz.segments, key=lambda s: s.number)[k]
            nz.segments.remove(s)
            cut.add((n, k == 0))
    for k, first, kind in c["dup"]:        # the same file is posted twice: the most complete one counts
        n, nz = files[k % len(files)]
        if len(nz.segments) < 2 or n.endswith(".sfv") or (n, True) in cut or (n, False) in cut:
            continue
        if kind == "new":
            two = post(ss, n, posted[n], dict(c, seg=600000) if len(posted[n]) > 100000 else c, "d%d" % k)
        else:
            two = pynzb.base.NZBFile(nz.poster, int(nz.date.timestamp()), nz.subject, list(nz.groups), list(nz.segments))
        if kind != "same":
            del two.segments[k % len(two.segments)]
        if [x for x, _z in files].count(n) == 1:
            files.insert(files.index((n, nz)) + (0 if first else 1), (n, two))
    for _n, nz in files:
        nzb_utils.add_file(doc, nz)
    core.write(os.path.join(nzbs, "Some.Release-GRP.nzb"), nzb_utils.get_xml(doc))
    gone = set()
    sfvmids = {s.message_id for n, nz in files if n.endswith(".sfv") for s in nz.segments} if c["sfvtwice"] else ()
    for srv, k in c["miss"]:
        if srv < len(ss) and mids[k % len(mids)] not in sfvmids:
            gone.add((srv, mids[k % len(mids)]))
            ss[srv].state["articles"].pop(mids[k % len(mids)], None)
    if c["last"] and c["miss"]:      # the last segment of a volume isn't there
        m = lasts[c["miss"][0][1] % len(lasts)]
        for i in range(len(ss)):
            gone.add((i, m))
            ss[i].state["articles"].pop(m, None)
    lost = {m for m in mids if all((i, m) in gone for i in range(len(ss)))}
    cfg = core.write(os.path.join(d, "u.cfg"), "".join("[server_%d]\npriority = %d\nenabled = True\nhost = 127.0.0.1\nport = %d\nusername =\npassword =\nreadermode = %s\n" % (i, 5 - i if i else 1, s.port, i == 1) for i, s in enumerate(ss)).encode())
    o = Values({"output_dir": out, "dry_run": False, "group": "-g" in c["opts"], "crc": "-c" in c["opts"], "nostat": "-x" in c["opts"], "largeseg": "-a" in c["opts"], "nntp_debug_level": 0, "config_file": cfg, "fuckup": False,
                "server": "", "port": 119, "username": "", "password": ""})
    import time, contextlib
    log = io.StringIO()
    old, oldname = time.sleep, rescene.APPNAME if hasattr(rescene, "APPNAME") else None
    try:
        time.sleep = lambda *_a: None
        U.options, U.DEFAULT_LINES = o, 4
        with contextlib.redirect_stdout(log), contextlib.redirect_stderr(log):
            try:
                U.main(o, [os.path.join(nzbs, "Some.Release-GRP.nzb")])
            except SystemExit:
                pass
    finally:
        time.sleep = old
    srr = os.path.join(out, "Some.Release-GRP.srr")
    if not c["sfv"]:
        srr2 = os.path.join(out, "srr_no_sfv", "Some.Release-GRP.srr")
        srr = srr2 if os.path.exists(srr2) else srr
    made = os.path.exists(srr)
    moved = [p for p in core.tree(nzbs) if p.endswith(".nzb")]
    check(len(moved) == 1, "the NZB file was lost: %r", moved)
    success = moved == ["success/Some.Release-GRP.nzb"]
    if any(f for _n, f in cut):
        check(not made and moved == ["bad/Some.Release-GRP.nzb"], "a volume has no first segment in the NZB, but %r, NZB at %r", "an SRR is made" if made else "nothing", moved)
    elif not lost and not cut:
        check(made, "no SRR although every article is available (%s)", log.getvalue()[:6000])
        check(success, "NZB moved to %r", moved)
    check(made == success, "SRR made: %r, but the NZB went to %r", made, moved)
    if made:
        b = core.read(srr)
        try:
            v = rarw.srr_view(b)
        except Exception as e:
            check(False, "not a well-formed SRR: %s", e)
        got, want = [(n, m) for n, m, _f in v["rars"]], [(n, bytes(m)) for n, m in meta]
        if len(c["sets"]) > 1:
            got, want = sorted(got), sorted(want)
        check([n for n, _ in got] == [n for n, _ in want], "SRR lists %r, posted %r", [n for n, _ in got], [n for n, _ in want])
        for (n, g), (_n, w) in zip(got, want):
            check(g == w, "metadata of %s differs: %s (segments of %d)\n%s\n%s\n%s", n, core.first_diff(g, w), c["seg"], g.hex(), w.hex(), log.getvalue()[-1800:])
        st2 = dict(v["stored"])
        for n in st2:
            check(st2[n] == stored.get(n), "stored file %s differs from the posted file", n)
        nfos = [n for n, _d in v["stored"] if n.endswith(".nfo")]
        check([n for n, _d in v["stored"]][:len(nfos)] == nfos, "NFO files aren't the first stored files: %r", [n for n, _d in v["stored"]])
        check(len(st2) == len(v["stored"]), "files stored twice: %r", [n for n, _d in v["stored"]])
        miss = set(stored) - set(st2)
        check(not miss or lost, "stored files missing: %r (%s)", miss, log.getvalue()[-800:])
    ctx.nontrivial(len(meta) > 1)
    ctx.label("lost" if lost else "available", "made" if made else "none")


LEGS = [Leg("access", case, run, 1200, 16000, shards=8),
        Leg("faults", fault_case, fault_run, 1000, 16000),
        Leg("srr", srr_case, srr_run, 1500, 12000, shards=8)]
