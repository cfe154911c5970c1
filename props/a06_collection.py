"""A06: the tools for a collection of SRR and SRS files (srr_sort, srr_extract_srs, srs_batch, srs_size, srs_bad)."""
import os, re, zlib
from hypothesis import strategies as st
from vh import core, gen, rarw, media, content, srs as S, srsfile as F
from vh.core import Leg, check, Reject
from vh.srr import bin_tool
from props import s15_srscmd as X

RULE = ("srr_sort: SRRs of known characteristics (RAR methods, archived and stored files, names) in folders, with damaged ones between them, and any choice of listings, with and without moving; srs_batch, srs_size, srs_bad and "
        "srr_extract_srs: folder trees with good and broken samples, SRS and SRR files; non-trivial when some files have the characteristic and others have not")
ASSUMPTIONS = ["an SRR that cannot be read is not judged itself, only that it stays whole and that the others are not affected", "the names of stored files of one SRR differ (except for the listing of duplicates)",
               "no two volumes of one SRR have the same base name", "samples in one folder differ in the name before the extension"]

STORED = st.sampled_from(["rls.nfo", "RLS2.NFO", "CD1/rls.nfo", "rls.sfv", "CD1/RLS.SFV", "readme.txt", "Sample/x.avi.txt", "INFO.TXT", "Proof/rls.jpg", "rls-proof.JPG", "rls.PROOF.png", "cover.jpg", "Cover.PNG", "x.gif", "pic.jpeg",
                          "Covers/A.JPEG", "x.bmp", "file.nfo.bak", "a.jpgx", "jpeg", "Sample/s.srs", "m3u.m3u", "nfo", "txt.log"])
SRRNAME = st.sampled_from(["Some.Release-GRP", "Some.Release-grp", "some.release-grp", "some.release-GRP", "Some.Release", "Some-Release.2010-GRP_iNT", "A.DIRFIX-GRP", "A.NFOFix-GRP", "A-Nfofix.B-grp", "x [y]-GRP", "Title-Art_Ist-2010-007"])
RARBASE = st.sampled_from(["rls", "rls", "grp-mov", "grp-mov-rpk", "rpkgrp", "grp.repack", "x-r", "x-re", "CD1/x", "CD1/Up", "UP", "Disc"])
FLAGS = ["-c", "-e", "-i", "-p", "-t", "-u", "-f", "-m", "-s", "-n", "--txt", "-r", "-2", "-l", "-d", "-v"]
LONG = {"-c": "--compressed", "-e": "--empty", "-i": "--image", "-p": "--noproof", "-t": "--nfos", "-u": "--duplicates", "-f": "--nofiles", "-m": "--multiple", "-s": "--nosfv", "-n": "--nonfo", "-r": "--repack", "-2": "--p2p",
        "-d": "--dirfix", "-v": "--verify"}
DIRS = st.sampled_from(["a", "a", "b", "with [x]", "c-d", "x.srr"])


# stored files that just have or just do not have a characteristic
NEAR = {"-u": [["a/x.sfv", "b/x.sfv"], ["x.nfo", "X.nfo"], ["x.nfo", "y.nfo", "x.nfo"], ["x", "a/x"]], "-t": [["a.nfo"], ["a.nfo", "b.NFO"], ["x.txt", "a.nfo", "c.sfv", "b/a.nfo"], ["a.nfo", "x.nfo.txt"], ["nfo", "a.nfo"]],
        "-p": [["Proof/a.jpg"], ["a-proof.jpg", "b.jpg"], ["b.JPEG", "proof.nfo"], ["Proof.PNG", "x.gif"], ["a-proof.jpg", "b-PROOF.jpg"], ["proof.bmp", "proof/x.nfo"]],
        "-i": [["a.jpgx"], ["jpeg"], ["a.nfo", "x.Jpeg"], ["jpg.txt", "a.bmp"], ["x.tiff"], ["a.png/x.nfo"]], "-s": [["a.sfv.txt"], ["a.SFV"], ["sfv"], ["x.nfo", "CD2/b.sfv"]], "-n": [["a.nfo.txt"], ["a.NFO"], ["x/a.nfo"], ["nfo"]],
        "--txt": [["a.txt.nfo"], ["a.TXT"], ["txt"], ["a.nfo", "b.txt"]], "-f": [[], ["a"]]}


@st.composite
def one_srr(draw):
    sets = []
    used = set()
    for _ in range(draw(st.sampled_from([0, 1, 1, 1, 2, 3]))):
        b = draw(RARBASE)
        if os.path.basename(b.lower()) in [os.path.basename(s["base"].lower()) for s in sets]:
            continue
        s = draw(gen.rarset(base=b, max_files=2, hi=60, max_vols=4, dirs=False, rich=False, rr=False, unicode_ok=False, names=used))
        s["upper"] = False
        if draw(st.integers(0, 19)) == 0:       # .rar, .r00 - .r99, .s00 - .s99, .t00...
            s.update(naming="old", files=[dict(s["files"][0], c={"n": draw(st.sampled_from([99, 102, 205, 307])), "k": "zero"})], caps=[1])
        s["method"] = draw(st.sampled_from([0x30, 0x30, 0x30, 0x31, 0x33, 0x35]))
        sets.append(s)
    return {"name": draw(SRRNAME), "dir": draw(DIRS), "stored": draw(st.lists(STORED, max_size=draw(st.sampled_from([0, 2, 6])))), "sets": sets, "late": draw(st.booleans()),
            "dup": draw(st.integers(0, 5)) == 0, "near": draw(st.one_of(st.none(), st.integers(0, 59))), "cut": draw(st.integers(0, 9)) == 0, "at": draw(st.integers(1, 400)), "upper": draw(st.integers(0, 9)) == 0}


@st.composite
def sort_case(draw):
    return {"srrs": draw(st.lists(one_srr(), min_size=1, max_size=5)), "flags": draw(st.lists(st.sampled_from(FLAGS), min_size=1, max_size=draw(st.sampled_from([1, 1, 2, 3])), unique=True)), "long": draw(st.booleans()),
            "move": draw(st.sampled_from(["no", "no", "new", "old", "old", "rel"])), "clash": draw(st.integers(0, 9)), "args": draw(st.sampled_from(["dirs", "files", "mix"])), "rel": draw(st.booleans()), "junk": draw(st.booleans())}


def srr_bytes(c, asis=False):
    """-> (bytes, facts)"""
    stored = list(c["stored"]) if asis else list(dict.fromkeys(c["stored"]))
    if c["dup"] and stored:
        stored.append(stored[0])
    sb = b"".join(rarw.srr_stored(n, n.encode() * (i % 3)) for i, n in enumerate(stored))
    rb, rars, total, sets, nfiles, packed = b"", [], 0, 0, 0, False
    for s in c["sets"]:
        for f in s["files"]:
            f["method"] = s["method"]
        vols, _files = rarw.build(s)
        for v in vols:
            rb += rarw.srr_rar(v.name) + bytes(v.meta)
            rars.append(v.name)
            total += len(v.raw)
        sets += 1
        nfiles += len(s["files"])
        packed |= s["method"] != 0x30 and nfiles > 0
    low = [n.lower() for n in stored]
    img = [n for n in low if os.path.splitext(n)[1] in (".jpg", ".png", ".bmp", ".gif", ".jpeg")]
    fn = c["name"]
    grp = fn.rsplit("-")[-1]
    facts = {"-c": packed, "-e": not nfiles, "-i": bool(img), "-p": any("proof" not in n for n in img), "-t": sum(n.endswith(".nfo") for n in low) > 1, "-u": len(set(stored)) < len(stored), "-f": not stored, "-m": nfiles > sets,
             "-s": not any(n.endswith(".sfv") for n in low), "-n": not any(n.endswith(".nfo") for n in low), "--txt": any(n.endswith(".txt") for n in low),
             "-r": any(k in n for n in rars for k in ("rpk", "repack", "-r.part01.rar", "-r.rar")), "-2": any(n != n.lower() for n in rars), "-l": grp == grp.lower() or "." in grp or fn == fn.lower(),
             "-d": "dirfix" in fn.lower() or "nfofix" in fn.lower(), "-v": False}
    h = rarw.srr_header("pyReScene Auto 0.7")
    return (h + rb + sb if c["late"] else h + sb + rb), facts, total


def run_sort(c, ctx):
    base = ctx.dir()
    inp = os.path.join(base, "in")
    flags = list(c["flags"])
    if "-p" in flags and "-i" in flags:
        flags.remove("-i")
    files, damaged = {}, set()
    for x in c["srrs"]:
        name = x["name"] + ".srr"
        p = x["dir"] + "/" + name
        if p in files:
            continue
        near = [f for f in flags if f in NEAR]
        if x["near"] is not None and near:
            x["stored"] = NEAR[near[0]][x["near"] % len(NEAR[near[0]])]
            x["dup"] = False
        d, facts, total = srr_bytes(x, x["near"] is not None and bool(near))
        if x["cut"] and x["at"] < len(d):
            d = d[:x["at"]]
            damaged.add(p)
        files[p] = (d, facts, total)
        core.write(os.path.join(inp, p), d)
    junk = {}
    if c["junk"]:
        junk = {"a/note.txt": b"hello", "b/x.srr.bak": b"Rar!"}
        for n, d in junk.items():
            core.write(os.path.join(inp, n), d)
    out = None
    argv = [LONG.get(f, f) if c["long"] and f in LONG else f for f in flags]
    before_out = {}
    if c["move"] != "no":
        out = os.path.join(base, "out dir")
        if c["move"] == "old":
            os.makedirs(out)
            names = sorted({os.path.basename(p) for p in files})
            if c["clash"] < 6:
                before_out[names[c["clash"] % len(names)]] = b"another SRR"
            for n, d in before_out.items():
                core.write(os.path.join(out, n), d)
        argv += ["-o", "out dir" if c["move"] == "rel" else out]
    order = list(dict.fromkeys(os.path.dirname(p) for p in files)) if c["args"] == "dirs" else list(files) if c["args"] == "files" else []
    if c["args"] == "mix":
        for i, p in enumerate(files):
            e = os.path.dirname(p) if i % 2 else p
            if e not in order and os.path.dirname(e) not in order:
                if not any(os.path.dirname(o) == e for o in order):
                    order.append(e)
                else:
                    order.append(p)
    argv += [os.path.join("in" if c["rel"] else inp, e) for e in order]
    given = [p for p in files if p in order or os.path.dirname(p) in order]
    r = core.cli(lambda a: bin_tool("srr_sort", a), argv, cwd=base)
    check(not r.exc and r.rc == 0, "srr_sort %r: %r", argv, r)
    has = {p: any(files[p][1][f] for f in flags) for p in given}
    ctx.nontrivial(len({v for p, v in has.items() if p not in damaged}) == 2)
    ctx.label("move:" + c["move"], *flags, *(["damaged"] if damaged else []))
    lines = r.out.splitlines()
    for n in {os.path.basename(p) for p in given}:
        same = [p for p in given if os.path.basename(p) == n]
        k = lines.count(n)
        sure = sum(has[p] for p in same if p not in damaged)
        may = sum(p in damaged for p in same)
        check(sure <= k <= sure + may, "%s is listed %d times, expected %d (+%d damaged) with %r: %s", n, k, sure, may, flags, r.out[-600:])
    if ("-v" in flags or "-m" in flags) and not damaged:
        t = sum(files[p][2] for p in given)
        check(("%d bytes" % t in lines) if t else not any(x.endswith(" bytes") for x in lines), "the RARs have %d bytes: %s", t, r.out[-500:])
    now_in, now_out = core.tree(inp), core.tree(out) if out else {}
    for n, d in junk.items():
        check(now_in.pop(n, None) == d, "%s was touched", n)
    for n, d in before_out.items():
        check(now_out.get(n) == d, "%s of the output folder was replaced", n)
    moved = {}
    for p in files:
        n = os.path.basename(p)
        d = files[p][0]
        stays = now_in.pop(p, None)
        went = now_out.get(n) == d
        check(stays in (None, d), "%s changed", p)
        check(stays == d or went, "%s is gone", p)
        if p in damaged and p in given:
            if stays is None:
                moved[n] = d
            continue
        if stays is None:
            check(out and has.get(p), "%s was moved without having what was asked", p)
            check(n not in moved, "two SRRs were moved to %s", n)
            moved[n] = d
    for p in given:
        n = os.path.basename(p)
        if out and has[p] and p not in damaged and os.path.exists(os.path.join(inp, p)):
            check(n in before_out or n in moved, "%s was not moved", p)
    check(not now_in, "new files: %r", sorted(now_in))
    check(sorted(now_out) == sorted(set(moved) | set(before_out)), "the output folder has %r", sorted(now_out))


# ------------------------------------------------------------------ samples --
VIDEO = st.sampled_from(["avi", "mkv", "mp4", "wmv", "stream"])
SUB = st.sampled_from(["", "A-GRP/Sample", "A-GRP", "B [x]/Sample", "b/c/d", "S\u00e4mple"])


@st.composite
def sample(draw, kinds=VIDEO):
    return {"c": draw(S.case(draw(kinds))), "dir": draw(SUB), "state": draw(st.sampled_from(["good"] * 4 + ["text", "empty", "cut"])), "up": draw(st.integers(0, 4)) == 0}


@st.composite
def batch_case(draw):
    return {"samples": draw(st.lists(sample(), min_size=1, max_size=4)), "n": draw(st.booleans()), "old": draw(st.lists(st.integers(0, 3), max_size=2)), "oldtxt": draw(st.booleans()), "rel": draw(st.booleans()),
            "out": draw(st.sampled_from(["new", "old", "slash"]))}


def run_batch(c, ctx):
    base = ctx.dir()
    inp, out = os.path.join(base, "in put"), os.path.join(base, "out")
    os.makedirs(inp)
    want, bad = {}, []
    for i, s in enumerate(c["samples"]):
        try:
            m = X.build(s["c"])
            S.domain(s["c"], m)
        except Reject:
            continue
        ext = media.EXT[s["c"]["fmt"]]
        n = "%s%d%s" % (s["c"]["stem"], i, ext.upper() if s["up"] else ext)
        p = (s["dir"] + "/" if s["dir"] else "") + n
        d = {"good": m.sample, "text": b"this is no video at all\r\n" * 3, "empty": b"", "cut": m.sample[:-max(1, len(m.sample) // 3)]}[s["state"]]
        core.write(os.path.join(inp, p), d)
        o = os.path.join(base, "ref", str(i))
        os.makedirs(o)
        rc, txt = S.srs([os.path.join(inp, p), "-y", "-o", o])
        k = os.path.splitext(p)[0] + ".srs"
        want[p] = (k, core.read(os.path.join(o, os.listdir(o)[0])) if rc == 0 else None)
    if not want:
        raise Reject("no samples")
    for n in ("note.txt", "A-GRP/x.nfo", "A-GRP/Sample/s.jpg"):
        core.write(os.path.join(inp, n), b"text")
    before_in = core.tree(inp)
    before = {}
    ps = sorted(want)
    if c["out"] != "new":
        os.makedirs(out)
        for i in c["old"]:
            before[want[ps[i % len(ps)]][0]] = b"an older SRS"
        if c["oldtxt"]:
            before[ps[0] + ".txt"] = b"older problem"
        for n, d in before.items():
            core.write(os.path.join(out, n), d)
    argv = ["-i", "in put" if c["rel"] else inp, "-o", ("out" if c["rel"] else out) + ("/" if c["out"] == "slash" else "")] + (["-n"] if c["n"] else [])
    r = core.cli(lambda a: bin_tool("srs_batch", a), argv, cwd=base, before=S.setup_fpcalc)
    check(not r.exc and r.rc == 0, "srs_batch %r: %r", argv, r)
    after = core.tree(out) if os.path.isdir(out) else {}
    check(core.tree(inp) == before_in, "the input folder changed")
    expect = dict(before)
    good = failed = 0
    for p, (k, d) in want.items():
        t = p + ".txt"
        if c["n"] and k in before:
            expect[k] = before[k]
            if t in before and t not in after:
                expect.pop(t)       # an old report is of no interest
            continue
        if d is not None:
            expect[k] = d
            expect.pop(t, None)
            good += 1
        else:
            failed += 1
            check(after.get(t), "%s has no reason in %s.txt: %s", p, p, r.out[-300:])
            expect[t] = after[t]
            check(not (t in before and before[t] == after[t]), "the old report of %s was kept", p)
    ctx.nontrivial(good and (failed or before or good > 1))
    ctx.label("n" if c["n"] else "y", *(["failed"] if failed else []), *(["before"] if before else []))
    check(sorted(after) == sorted(expect), "output: %r too much, %r missing", sorted(set(after) - set(expect)), sorted(set(expect) - set(after)))
    for n in expect:
        check(after[n] == expect[n], "%s: %s", n, core.first_diff(after[n], expect[n]))


# ---------------------------------------------------------------------- SRS --
ANY = st.sampled_from(["avi", "mkv", "mp4", "wmv", "stream", "mp3", "flac"])


@st.composite
def srs_one(draw):
    return {"c": draw(S.case(draw(ANY))), "dir": draw(SUB), "state": draw(st.sampled_from(["good"] * 5 + ["text", "empty"])), "verify": draw(st.booleans()), "name": draw(st.sampled_from(["sample", "sample", "b", "\u00e9"])),
            "up": draw(st.integers(0, 5)) == 0}


def srs_of(x, ctx, work):
    """-> (SRS bytes, size of the sample, is unverified) or None"""
    c = x["c"]
    try:
        m = X.build(c)
        S.domain(c, m)
    except Reject:
        return None
    os.makedirs(work)
    ext = media.EXT[c["fmt"]]
    sp = core.write(os.path.join(work, "s" + ext), m.sample)
    mp = core.write(os.path.join(work, "m" + ext), m.main)
    o = os.path.join(work, "x.srs")
    v = ["-c", mp] if x["verify"] and c["fmt"] not in ("mp3", "flac") else []
    rc, txt = S.srs([sp, "-y", "-o", o] + v)
    check(rc == 0, "creating an SRS failed: %s", txt[-300:])
    d = core.read(o)
    if x["state"] == "text":
        return b"no ReSample file here\r\n", None, False
    if x["state"] == "empty":
        return b"", None, False
    _f, tracks, _fp = F.parse(F.OF[c["fmt"]], d)
    return d, len(m.sample), c["fmt"] not in ("mp3", "flac") and any(t["off"] == 0 for t in tracks.values())


@st.composite
def size_case(draw):
    return {"srs": draw(st.lists(srs_one(), min_size=1, max_size=5)), "pick": draw(st.integers(0, 9)), "delta": draw(st.sampled_from([-1, 0, 0, 1, -50, 50, None])), "rel": draw(st.booleans())}


def run_size(c, ctx):
    S.setup_fpcalc()
    base = ctx.dir()
    inp = os.path.join(base, "in")
    os.makedirs(inp)
    files = {}
    for i, x in enumerate(c["srs"]):
        got = srs_of(x, ctx, os.path.join(base, "w%d" % i))
        p = (x["dir"] + "/" if x["dir"] else "") + x["name"] + (".SRS" if x["up"] else ".srs")
        if got and p not in files:
            files[p] = got
            core.write(os.path.join(inp, p), got[0])
    core.write(os.path.join(inp, "b/c/readme.txt"), b"no SRS")
    sizes = sorted(g[1] for g in files.values() if g[1] is not None)
    if not sizes:
        raise Reject("no SRS")
    lim = 0 if c["delta"] is None else max(0, sizes[c["pick"] % len(sizes)] + c["delta"])
    arg = "in" if c["rel"] else inp
    r = core.cli(lambda a: bin_tool("srs_size", a), [arg, "-s", str(lim)], cwd=base)
    check(not r.exc and r.rc == 0, "srs_size: %r", r)
    lines = r.out.splitlines()
    want = {os.path.join(arg, p): g[1] for p, g in files.items() if g[1] is not None and g[1] > lim}
    ctx.nontrivial(want and len(want) < len(files))
    ctx.label("listed:%d" % len(want), *(["broken"] if any(g[1] is None for g in files.values()) else []))
    for p, g in files.items():
        f = os.path.join(arg, p)
        k = lines.count(f)
        check(k == (f in want), "%s of %r bytes is listed %d times for a minimum of %d: %s", p, g[1], k, lim, r.out[-500:])
        if f in want:
            got = re.sub(r"\D", "", lines[lines.index(f) + 1]) if lines.index(f) + 1 < len(lines) else ""
            check(got == str(want[f]), "%s has %d bytes, reported as %r", p, want[f], lines[lines.index(f) + 1:][:1])
    check(core.tree(inp) == dict({p: g[0] for p, g in files.items()}, **{"b/c/readme.txt": b"no SRS"}), "the folder changed")


TXT = st.sampled_from(["Sample/x.avi.txt", "x.mkv.txt", "01-a.mp3.txt", "CD1/02-b.flac.txt", "readme.txt", "x.avi.nfo", "x.vob.txt", "Sample/y.mp4.txt", "z.wmv.txt"])
ISBAD = (".mp3.txt", ".flac.txt", ".mkv.txt", ".mp4.txt", ".avi.txt", ".wmv.txt")


@st.composite
def bad_case(draw):
    return {"srrs": draw(st.lists(st.fixed_dictionaries({"srs": st.lists(srs_one(), max_size=3), "txt": st.lists(TXT, max_size=2, unique=True), "dir": SUB, "cut": st.integers(0, 7).map(lambda x: x == 0),
                                                         "name": st.sampled_from(["A-GRP", "B-GRP", "c.d-e", "Z"])}), min_size=1, max_size=3)),
            "s": draw(st.integers(0, 3)) > 0, "t": draw(st.booleans()), "mode": draw(st.sampled_from(["", "", "-l", "-p"])), "rel": draw(st.booleans()), "tool": draw(st.sampled_from(["bad", "bad", "extract"])), "old": draw(st.booleans()),
            "sub": draw(st.booleans())}


def run_bad(c, ctx):
    S.setup_fpcalc()
    base = ctx.dir()
    inp, tmp = os.path.join(base, "in"), os.path.join(base, "tmp")
    os.makedirs(inp), os.makedirs(tmp)
    srrs = {}
    for i, x in enumerate(c["srrs"]):
        p = (x["dir"] + "/" if x["dir"] else "") + x["name"] + ".srr"
        if p in srrs:
            continue
        stored, why, unreadable = {}, set(), False
        for j, y in enumerate(x["srs"]):
            got = srs_of(y, ctx, os.path.join(base, "w%d_%d" % (i, j)))
            n = (y["dir"] + "/" if y["dir"] else "") + y["name"] + ".srs"
            if not got or n in stored:
                continue
            stored[n] = got[0]
            if got[2] and c["s"]:
                why.add(os.path.basename(n))
        for n in x["txt"]:
            stored[n] = b"problem with the sample"
            if n.endswith(ISBAD) and c["t"]:
                why.add(n)
        d = rarw.srr_header("pyReScene Auto 0.7") + b"".join(rarw.srr_stored(n, stored[n]) for n in stored)
        if x["cut"]:
            d = d[:-1] if stored else d[:5]
        srrs[p] = (d, why, stored, x["cut"])
        core.write(os.path.join(inp, p), d)
    arg = "in" if c["rel"] else inp
    before = core.tree(inp)
    if c["tool"] == "extract":
        p = sorted(srrs)[0]
        d, _w, stored, cut = srrs[p]
        if cut:
            raise Reject("damaged")
        out = os.path.join(base, "out")
        os.makedirs(out)
        expect = {}
        names = sorted(n for n in stored if n.endswith(".srs"))
        if c["old"] and names:
            expect[names[-1]] = b"was here"
            core.write(os.path.join(out, names[-1]), b"was here")
        want = dict({n: stored[n] for n in names}, **expect)
        r = core.cli(lambda a: bin_tool("srr_extract_srs", a), [os.path.join(arg, p), "out" if c["rel"] else out], cwd=base)
        check(not r.exc and r.rc == 0, "srr_extract_srs: %r", r)
        check(core.tree(out) == want, "extracted %r, expected %r", {n: len(d) for n, d in core.tree(out).items()}, {n: len(d) for n, d in want.items()})
        check(sorted(r.out.splitlines()) == names, "names of %r: %s", names, r.out[-300:])
        ctx.nontrivial(names and len(stored) > len(names))
        ctx.label("extract:%d" % len(names))
        return
    argv = [arg] + (["-s"] if c["s"] else []) + (["-t"] if c["t"] else []) + ([c["mode"]] if c["mode"] else [])
    r = core.cli(lambda a: bin_tool("srs_bad", a), argv, cwd=base, before=lambda: setattr(__import__("tempfile"), "tempdir", tmp))
    check(not r.exc and r.rc == 0, "srs_bad %r: %r", argv, r)
    lines = r.out.splitlines()
    has = [p for p in srrs if srrs[p][1]]
    ctx.nontrivial(has and any(not v[1] for v in srrs.values()))
    ctx.label("bad:%d" % len(has), c["mode"] or "full", *(["damaged"] if any(v[3] for v in srrs.values()) else []))
    show = {"": lambda p: os.path.join(arg, p), "-l": lambda p: os.path.basename(p)[:-4], "-p": lambda p: os.path.dirname(os.path.join(arg, p))}[c["mode"]]
    for p in srrs:
        same = [q for q in srrs if show(q) == show(p)]
        k = lines.count(show(p))
        lo, hi = (sum(bool(srrs[q][1]) and not srrs[q][3] for q in same), sum(bool(srrs[q][1]) or srrs[q][3] for q in same))
        check(lo <= k <= hi, "%s is listed %d times, expected %d: %s", p, k, lo, r.out[-600:] + r.err[-300:])
        if c["mode"] == "" and k and not srrs[p][3]:
            got = []
            for x in lines[lines.index(show(p)) + 1:]:
                if not x.startswith("-> "):
                    break
                got.append(x[3:])
            check(sorted({os.path.basename(g) if g.endswith(".srs") else g for g in got}) == sorted(srrs[p][1]), "%s: problems %r, expected %r", p, got, sorted(srrs[p][1]))
    check(core.tree(inp) == before, "the folder changed")
    check(not os.listdir(tmp), "left temporary files: %r", os.listdir(tmp))


@st.composite
def crcs_case(draw):
    return {"srrs": draw(st.lists(one_srr(), min_size=1, max_size=4)), "mode": draw(st.sampled_from(["dir", "files", "mix"])), "rel": draw(st.booleans()), "junk": draw(st.booleans())}


def run_crcs(c, ctx):
    """list_crcs.py: every archived file of every SRR with its CRC"""
    base = ctx.dir()
    inp = os.path.join(base, "in")
    want, args, withsrs = [], [], []
    os.makedirs(inp)
    for i, x in enumerate(c["srrs"]):
        stored = list(dict.fromkeys(x["stored"])) + ([["CD1/Sample/a.srs"], ["a.srs", "Sample/B.avi.srs"], ["a.srs.txt"]] + [[]] * 3)[(x["near"] or 5) % 6]
        b = srr_bytes(dict(x, stored=stored, dup=False, near=None))[0]
        p = x["dir"] + "/" + x["name"] + str(i) + ".srr"
        if c["mode"] == "mix" and i == 0:
            p = "sub/" + p
            args.append(os.path.join("in", "sub") if c["rel"] else os.path.join(inp, "sub"))
        else:
            args.append(os.path.join("in" if c["rel"] else inp, p))
        if x["cut"]:         # not an SRR
            core.write(os.path.join(inp, p), [b"", b"junk", b"Rar!\x1a\x07\0" + b[:20], b[:9]][x["at"] % 4])
            continue
        core.write(os.path.join(inp, p), b)
        if any(n.endswith(".srs") for n in stored):
            withsrs.append(x["name"] + str(i))
        for s in x["sets"]:
            for f in s["files"]:
                want.append("%s\t%08X" % (f["name"].replace("\\", "/"), zlib.crc32(content.data(f["c"]))))
    if c["mode"] == "dir":
        args = ["in" if c["rel"] else inp]
        if c["junk"]:
            core.write(os.path.join(inp, "a/read.srr.txt"), b"no SRR")
    before = core.tree(base)
    r = core.cli(lambda a: bin_tool("list_crcs", a, "scripts"), args, cwd=base)
    check(not r.exc and r.rc == 0, "list_crcs: %r", r)
    check(sorted(r.out.splitlines()) == sorted(want), "listed %r, expected %r", sorted(r.out.splitlines()), sorted(want))
    r = core.cli(lambda a: bin_tool("list_samples", a, "scripts"), args, cwd=base)
    check(not r.exc and r.rc == 0, "list_samples: %r", r)
    check(sorted(r.out.splitlines()) == sorted(withsrs), "SRRs with samples %r, expected %r", r.out.splitlines(), sorted(withsrs))
    check(core.tree(base) == before, "the files changed")
    ctx.nontrivial(len(want) > 1)
    ctx.label(c["mode"], *(["broken"] if any(x["cut"] for x in c["srrs"]) else []), "crcs:%d" % min(4, len(want)))


@st.composite
def compare_case(draw):
    line = st.one_of(st.sampled_from(["Some.Release-GRP", "some.release-grp", "Some.Release-GRP ", "A", "B.2010-X", "x y"]), st.text("abAB.-_1 ", min_size=1, max_size=6))
    txt = st.fixed_dictionaries({"l": st.lists(line, max_size=7), "eol": st.sampled_from(["\n", "\r\n", "\n"]), "end": st.booleans()})
    return {"a": draw(txt), "b": draw(txt), "more": draw(st.integers(0, 7)), "d": draw(st.booleans()), "u": draw(st.booleans()), "long": draw(st.booleans())}


def run_compare(c, ctx):
    """list_compare.py: what two lists of releases share, and what only the new one has"""
    base = ctx.dir()
    b = dict(c["b"], l=c["b"]["l"] + c["a"]["l"][-c["more"]:] if c["more"] else c["b"]["l"])
    for n, x in (("main.txt", c["a"]), ("new.txt", b)):
        t = x["eol"].join(x["l"]) + (x["eol"] if x["end"] and x["l"] else "")
        core.write(os.path.join(base, n), t.encode())
    args = [("--duplicates" if c["long"] else "-d")] * c["d"] + [("--uniques" if c["long"] else "-u")] * c["u"] + ["main.txt", "new.txt"]
    r = core.cli(lambda a: bin_tool("list_compare", a, "scripts"), args, cwd=base)
    check(not r.exc and r.rc == 0, "list_compare: %r", r)
    m, n = set(c["a"]["l"]), set(b["l"])
    want = sorted(m & n) * c["d"] + sorted(n - m) * c["u"]
    check(sorted(r.out.split("\n")[:-1]) == sorted(want), "listed %r, expected %r", sorted(r.out.split("\n")), sorted(want))
    ctx.nontrivial(m & n and n - m and want)
    ctx.label("%s%s" % ("d" * c["d"], "u" * c["u"]), *(["other-eol"] if c["a"]["eol"] != b["eol"] else []), *(["open-end"] if c["a"]["l"] and not c["a"]["end"] else []))


LEGS = [Leg("sort", sort_case, run_sort, quick=3200, thorough=120000, shards=8), Leg("batch", batch_case, run_batch, quick=800, thorough=24000, shards=8),
        Leg("size", size_case, run_size, quick=800, thorough=24000, shards=8), Leg("compare", compare_case, run_compare, quick=400, thorough=12000, shards=4), Leg("crcs", crcs_case, run_crcs, quick=400, thorough=12000, shards=4), Leg("bad", bad_case, run_bad, quick=1200, thorough=36000, shards=8)]
