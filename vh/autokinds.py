"""Kinds of releases that pyrescene.py treats in their own way (a leg of A01)."""
import os
from hypothesis import strategies as st
from vh import core, gen, media, auto as A, content, rarw, srr as R, srs as S, srsfile as F
from vh.core import check, Reject

# release name, folder, base name of the main set, and whether one volume is enough to see it as such
MAIN = [("The.Substitute.2001.DVDRip-GRP", "CD1", "the.subs.grp.cd1", 1), ("The.Movie.2001.DVDRip-GRP", "", "THE.SUBS.GRP.CD1", 1), ("The.Movie.2001-GRP", "", "the.subs.cd2", 1), ("The.Movie.2001-GRP", "", "the.subs-Flac", 1),
        ("The.Movie.SUBS.DVDRip-GRP", "", "grp-subs", 1), ("The.Movie.SUBFIX-GRP", "", "tdk-subs-done", 1), ("The.Movie.VOBSUBS-GRP", "", "vobsub_abm", 1),
        ("Movie.SUB.PACK-GRP", "", "svn.sub.pack.subs", 1), ("Movie.SUB.PACK-GRP", "", "grp.vobsubs", 1), ("Movie.SUBPACK-GRP", "", "koe.multi.vobsubs", 1),
        ("Movie.Subtitle.Pack-GRP", "", "grp-subtitles", 1), ("Movie.Vobsub.Pack-GRP", "", "grp-subs", 1), ("Sync-GRP", "", "00-rv-subsync", 1), ("Sync-GRP", "", "000-rv-subsync", 1), ("Sync-GRP", "", "rv-subsync", 2),
        ("Movie.SUBPACK-GRP", "x.subpack", "grp", 1), ("Movie.Fix-GRP", "Fix", "grp", 1), ("Movie.SUBFIX-GRP", "x.subfix", "grp", 1),
        ("Sub.Sam.2012-EXViD", "", "exvid-subsam", 2), ("Sub.Sam.2012-EXViD", "", "exvid-sub-sam", 1), ("Sub.Sam.2012-EXViD", "", "exvid-subsam-subs", 2),
        ("The.Film.2012-GRP", "", "grp-vobsubs", 2), ("The.Film.2012-GRP", "", "GRP.Subtitle", 2), ("The.Film.2012-GRP", "Subs", "film", 2), ("The.Film.2012-GRP", "a.fix", "film", 2),
        ("The.Suburbs.2012-GRP", "", "grp-suburbs", 1)]
NOTMAIN = [("Subs", "grp-sub"), ("SUBS", "grp"), ("VobSubs", "abc"), ("vobsub", "abc"), ("Subtitles", "abc"), ("sub", "abc"), ("CZSubs", "abc"), ("SubPack", "abc"), ("vobsubs-full", "a"),
           ("VobSubs-Light", "a"), ("Codec", "divx"), ("Codecs", "divx"), ("Cover", "grp-cover"), ("Covers", "c"), ("Subs/CD1", "x.cd1"), ("Subs.CD2", "x.cd2"), ("x/VobSubs-CD3", "abc"),
           ("The.Movie.FIX-GRP", "fx"), ("DirFix", "fx"), ("x.subpack-GRP", "fx"), ("y.SubFix", "fx"), ("", "grp-vobsubs"), ("", "grp.Subtitles"), ("", "grp-subs"), ("CD1", "grp-subs"),
           ("Extra", "GRP-SUBS"), ("SubsCD1", "abc")]
FIX = [("Game.FIX-GRP", 1), ("Game.FiX.READNFO-GRP", 1), ("Movie.2009.NFOFIX.DVDRip-GRP", 1), ("Movie.Sync.Fix-GRP", 1), ("Movie.PROOF.FIX-GRP", 1), ("Movie.prooffix-GRP", 1),
       ("Movie.DVDR.Fix-GRP", 1), ("Movie.DVDR.REPACK.Fix-GRP", 1), ("Game.PPF.Patch-GRP", 1), ("Movie.SFV_FIX-GRP", 1), ("Movie.Trackorder.fix.DVDRip-GRP", 1), ("Movie.INTERLEAVING.FIX-GRP", 1),
       ("Movie.DiRFiX-GRP", 1), ("Mr.Fix.It.2006.DVDRip-GRP", 0), ("Prefix.Movie-GRP", 0), ("Movie.FiXED-GRP", 0), ("Movie.Sub.Fix-GRP", 0), ("Movie.DVDR.Fixed-GRP", 0),
       ("Movie.fix-GRP", 0), ("The.Raven.Legacy.of.a.Master.Thief.FIX-RELOADED", 0), ("Herbie.Fully.Loaded.SUB.FIX-DiAMOND", 0)]
MV = ["Artist-Song-DVDRip-XviD-2008-GRP", "VA-Clips-x264-2010-aBc"]


@st.composite
def rars(draw, base, lo=1, hi=3):
    k = draw(st.integers(lo, hi))
    s = draw(gen.rarset(base=base, max_files=2, hi=700, dirs=False, unicode_ok=False, rr=False, namings=["old", "part1", "num"] if k > 1 else ["old", "single"], first_min=8))
    total = sum(f["c"]["n"] for f in s["files"])
    s["caps"] = [-(-total // k)] if k > 1 else [1 << 40]
    return s


@st.composite
def main_kind(draw):
    rel, d, base, n = draw(st.sampled_from(MAIN))
    return {"rel": rel, "dir": d, "set": draw(rars(base, 1, 3)), "min": n}


@st.composite
def extra_kind(draw):
    xs = draw(st.lists(st.sampled_from(NOTMAIN), min_size=1, max_size=3, unique=True))
    return {"rel": draw(st.sampled_from(["The.Movie.2003.DVDRip-GRP", "A.Sub.Movie-aBc"])), "main": draw(A.sets(subs=[("",), ("CD1", "CD2")], hi=300, max_vols=3)),
            "x": [[d, draw(rars(b, 1, 2))] for d, b in xs]}


@st.composite
def fix_kind(draw):
    rel, y = draw(st.sampled_from(FIX))
    n = draw(st.sampled_from([1, 1, 1, 1, 2]))
    return {"rel": rel, "yes": y, "sets": [draw(rars(draw(st.sampled_from(["grp-%s", "GRP-%s"])) % "ab"[i], 1, draw(st.sampled_from([1, 1, 2])))) for i in range(n)], "one": draw(st.booleans()),
            "sfvcase": draw(st.sampled_from([None, None, "lower", "upper"])), "lines": draw(st.sampled_from([[], [], [], ["grp.nfo 00000000"]])), "dir": draw(st.sampled_from(["", "", "CD1"]))}


@st.composite
def clip_kind(draw):
    vs = [draw(S.case(draw(st.sampled_from(["avi", "mkv", "mp4"])))) for _ in range(draw(st.integers(1, 3)))]
    return {"rel": draw(st.sampled_from(MV)), "v": vs, "sfv": [draw(st.sampled_from(["own", "ownx", "all", "no"])) for _ in vs], "dir": draw(st.sampled_from(["", "CD1"]))}


@st.composite
def collide_kind(draw):
    return {"rel": "The.Movie.2003.DVDRip-GRP", "main": draw(A.sets(subs=[("",)], hi=300, max_vols=3)), "order": draw(st.permutations([0, 1, 2, 3])),
            "v": [draw(S.case(x)) for x in ("avi", "mkv", "mp4", "avi")], "dir": draw(st.sampled_from(["Sample", "CD1/Sample"])), "srs": draw(st.lists(st.integers(0, 5), max_size=4, unique=True))}


@st.composite
def vob_kind(draw):
    return {"rel": "The.Movie.2003.NTSC.DVDR-GRP", "main": draw(A.sets(subs=[("",)], hi=300, max_vols=3)), "set": draw(rars("vobset", 1, 2)), "ext": draw(st.sampled_from([".vob", ".VOB"])),
            "dir": draw(st.sampled_from(["Sample", "sample"])), "not": draw(st.booleans()), "srr": draw(st.booleans())}


SAME = ["00-artist_name-title-grp", "the.film.x264-grp", "The.Film.x264-GRP", "000-Artist-grp"]


@st.composite
def image_kind(draw):
    b = draw(st.sampled_from(SAME))
    i, like = draw(st.sampled_from([(b + "-cover", 1), (b.lower(), 1), (b.upper(), 1), (b[:-3] + "x", 1), ("zz-" + b[-3:], 1), ("zz-" + b[-3:].upper(), 1),
                                    ("unrelated", 0), ("poster", 0), ("x" + b + "x", 0), ("scan of " + b, -1), (b + "-folder", -1)]))
    return {"rel": "The.Release.2003.DVDRip-GRP", "base": b, "by": draw(st.sampled_from(["rar", "nfo", "m3u"])), "img": i, "like": like, "ext": draw(st.sampled_from([".jpg", ".jpeg", ".png", ".gif", ".bmp"])),
            "n": draw(st.sampled_from([100000, 100001, 99999, 150000, 20000, 10001, 5000, 300000])), "poster": draw(st.booleans()), "s": draw(st.integers(0, 99)), "dir": draw(st.sampled_from(["", "", "CD1"]))}


@st.composite
def first_kind(draw):
    a, b = draw(rars("seta", 1, 2)), draw(rars("setb", 1, 2))
    # (the sample has to be found, which is what S11 is about: mostly not at the start)
    return {"rel": "The.Movie.2003.DVDRip-GRP", "v": draw(S.case(draw(st.sampled_from(["avi", "mkv", "mp4", "wmv"])))), "sets": [a, b], "in": draw(st.sampled_from([0, 1, 1, 2])), "one": draw(st.booleans())}


KINDS = {"main": main_kind, "extra": extra_kind, "fix": fix_kind, "clip": clip_kind, "collide": collide_kind, "vob": vob_kind, "first": first_kind, "image": image_kind}


@st.composite
def case(draw):
    k = draw(st.sampled_from(["main", "main", "extra", "extra", "fix", "fix", "fix", "clip", "collide", "vob", "first", "first", "image"]))
    return {"kind": k, "k": draw(KINDS[k]()), "nfo": draw(st.booleans()), "opts": {"s": draw(st.booleans()), "c": draw(st.booleans()), "i": draw(st.booleans())}}


def put_set(r, d, s, main, sfv=None, case_=None, lines=()):
    vols, files, _p = R.write_set(s, os.path.join(r.root, d))
    pre = d + "/" if d else ""
    for v in vols:
        if (pre + v.name).lower() in r.lower:
            raise Reject("names")
        r.lower.add((pre + v.name).lower())
    e = [({"lower": v.name.lower(), "upper": v.name.upper()}.get(case_, v.name), bytes(v.raw)) for v in vols]
    if sfv is None:
        t = R.sfv_text(e) + "".join(x + "\r\n" for x in lines).encode()
        n = pre + s["base"] + ".sfv"
        if not A.put(r, n, t):
            raise Reject("names")
        r.stored[n] = t
        if main:
            r.sfvs.append(n)
    else:
        sfv.extend(e)
    if main:
        r.vols.append([(pre + v.name, bytes(v.raw), v.meta) for v in vols])
        for k, b in files.items():
            if r.packed.get(k, b) != b:
                raise Reject("the archives have files of the same name")
            r.packed[k] = b
    return vols


def place_main(k, r, o):
    n = len(rarw.build(k["set"])[0])
    main = n >= k["min"]
    put_set(r, k["dir"], k["set"], main)
    return ["main" if main else "not-main"]


def place_extra(k, r, o):
    A.add_sets(r, k["main"], {})
    for d, s in k["x"]:
        put_set(r, d, s, False)
    return ["extra"]


def place_fix(k, r, o):
    sfv = [] if k["one"] and len(k["sets"]) > 1 else None
    vs = [put_set(r, k["dir"], s, True, sfv, k["sfvcase"], k["lines"]) for s in k["sets"]]
    pre = k["dir"] + "/" if k["dir"] else ""
    if sfv is not None:
        t = R.sfv_text(sfv)
        A.put(r, pre + "all.sfv", t)
        r.stored[pre + "all.sfv"] = t
        r.sfvs.append(pre + "all.sfv")
    yes = k["yes"] and len(vs) == 1 and len(vs[0]) == 1 and not (k["lines"] and sfv is None)
    r.fixrar = []
    if yes:
        v = vs[0][0]
        up = v.name.upper()
        n = v.name
        if n.lower() == n and k["sfvcase"] == "upper":       # the name with capitals is kept
            n = up
        elif k["sfvcase"] == "upper":
            n = up
        r.stored[pre + n] = bytes(v.raw)
        r.fixrar = [pre + n]
        if n[-4:].lower() == ".rar":
            r.above.append((pre + n, pre + k["sets"][0]["base"] + ".sfv"))
    r.foldnames = bool(k["sfvcase"])
    return ["stored" if yes else "not-stored"]


def place_clip(k, r, o):
    lines, out = [], []
    pre = k["dir"] + "/" if k["dir"] else ""
    for i, (c, how) in enumerate(zip(k["v"], k["sfv"])):
        m = A.valid(c)
        if not m:
            continue
        ext = c.get("ext") or media.EXT[c["fmt"]]
        stem = "%s%02d-artist-song%d" % (pre, i, i)
        A.put(r, stem + ext, m.sample)
        out.append(m)
        if how == "all":
            lines.append((os.path.basename(stem) + ext, m.sample))
        elif how.startswith("own"):
            t = R.sfv_text([(os.path.basename(stem) + ext if how == "own" else "other.nfo", m.sample)])
            A.put(r, stem + ".sfv", t)
            r.stored[stem + ".sfv"] = t
        if how != "no":
            r.srs[stem + ".srs"] = (c, m, os.path.basename(stem) + ext)
    if lines:
        t = R.sfv_text(lines)
        A.put(r, "00-all.sfv", t)
        r.stored["00-all.sfv"] = t
    return ["clip"]


def place_collide(k, r, o):
    A.add_sets(r, k["main"], {})
    stems = ["grp-sample", "grp-sample", "grp-sample", "grp-sample-b"]
    ms = {}
    for i in k["order"]:
        c = k["v"][i]
        m = A.valid(c)
        if not m:
            continue
        ext = (".avi", ".mkv", ".mp4", ".avi")[i]
        if A.put(r, k["dir"] + "/" + stems[i] + ext, m.sample):
            ms[i] = (c, m, ext)
    for i, (c, m, ext) in ms.items():
        many = sum(stems[j] == stems[i] for j in ms) > 1
        r.srs["%s/%s%s.srs" % (k["dir"], stems[i], ext if many else "")] = (c, m, stems[i] + ext)
    for j in k["srs"]:           # SRS files that came with the release: those of samples are made again
        n = ["%s/grp-sample.srs", "%s/grp-sample-b.srs", "%s/grp-sample.avi.srs", "x%s/older.srs", "%s/z.SRS", "y%s/grp-sample.srs"][j] % k["dir"]
        if A.put(r, n, b"SRSx%d" % j) and n not in r.srs:
            r.stored[n] = b"SRSx%d" % j
    return ["collide"]


def place_vob(k, r, o):
    A.add_sets(r, k["main"], {})
    vols, _f = rarw.build(k["set"])
    v = vols[0]
    data = (b"\0\0\x01\xba" if k["not"] else b"") + bytes(v.raw)
    n = k["dir"] + "/grp-sample"
    A.put(r, n + k["ext"], data)
    c = {"fmt": "stream", "ext": k["ext"], "stem": "x"}
    m = media.M()
    m.sample, m.main, m.tracks = data, media.rnd(100, 3) + data + b"end", {1: data}
    r.srs[n + ".srs"] = (c, m, "grp-sample" + k["ext"])
    if not k["not"]:
        r.stored[n + ".srr"] = None
        r.vobsrr = (n + ".srr", "grp-sample" + k["ext"], v.meta)
    return ["vob", "not-rar" if k["not"] else "rar"]


def place_image(k, r, o):
    """A large image is stored when it is named like the files of the release, unless it is a poster of a site."""
    if k["by"] == "rar":
        put_set(r, "", {"base": k["base"], "naming": "single", "files": [{"name": "f.bin", "c": {"k": "rand", "n": 50, "s": 1}}], "caps": [1 << 40]}, True)
    else:
        r.stored[k["base"] + "." + k["by"]] = b"text"
        A.put(r, k["base"] + "." + k["by"], b"text")
    n = (k["dir"] + "/" if k["dir"] else "") + k["img"] + k["ext"]
    poster = k["poster"] and k["ext"] == ".png"
    data = A.png(630, 1200, k["n"] - 33, k["s"]) if poster else media.rnd(k["n"], k["s"])
    data += bytes(k["n"] - len(data))
    A.put(r, n, data)
    always = k["img"].startswith(("00", "01"))
    if k["like"] >= 0 and (always or o["i"] or (k["like"] and k["n"] > 100000 and not poster)):
        r.stored[n] = data
    return ["image", "image-stored" if n in r.stored else "image-skipped"]


def place_first(k, r, o):
    c = k["v"]
    m = A.valid(c)
    if not m:
        raise Reject("media")
    ext = c.get("ext") or media.EXT[c["fmt"]]
    sets = [dict(s) for s in k["sets"]]
    if k["in"] < 2:
        s = sets[k["in"]]
        s["files"] = [{"name": "main" + ext, "c": {"k": "lit", "n": len(m.main), "h": m.main.hex()}}]
        n = len(rarw.build(k["sets"][k["in"]])[0])
        s["caps"] = [-(-len(m.main) // n)] if n > 1 else [1 << 40]
    sfv = [] if k["one"] else None
    for s in sets:
        put_set(r, "", s, True, sfv)
    if sfv is not None:
        t = R.sfv_text(sfv)
        A.put(r, "all.sfv", t)
        r.stored["all.sfv"] = t
        r.sfvs.append("all.sfv")
    A.put(r, "Sample/s" + ext, m.sample)
    r.srs["Sample/s.srs"] = (c, m, "s" + ext)
    r.want_off = o["s"] and k["in"] < 2
    return ["first", "checked" if r.want_off else "unchecked"]


def run(c, ctx):
    d = ctx.dir()
    k, o = c["k"], c["opts"]
    root, out, tmp = os.path.join(d, "in", k["rel"]), os.path.join(d, "out"), os.path.join(d, "tmp")
    r = A.new(root)
    r.foldnames, r.fixrar, r.vobsrr = False, [], None
    labels = globals()["place_" + c["kind"]](k, r, o)
    if c["nfo"] and A.put(r, "grp.nfo", b"some text"):
        r.stored["grp.nfo"] = b"some text"
    os.makedirs(out), os.makedirs(tmp)
    before = core.tree(root)
    if not before:
        return
    A.module()
    res = A.run(["-o", out, "-t", tmp] + (["--best"] if c["kind"] == "first" and o["s"] and o["c"] else ["-s"] * o["s"] + ["-c"] * o["c"]) + ["-i"] * o["i"] + [root], cwd=d)
    check(not res.exc, "the tool failed: %r", res)
    check(res.rc == 0, "exit code %d: %r", res.rc, res)
    check(core.tree(root) == before, "the release changed")
    check(os.listdir(tmp) == [], "left in the temporary directory: %r", os.listdir(tmp))
    check(os.listdir(out) == [k["rel"] + ".srr"], "the output directory has %r", os.listdir(out))
    srr = os.path.join(out, k["rel"] + ".srr")
    b = core.read(srr)
    if r.foldnames:              # which casing the volumes get is not what this is about
        v = rarw.srr_view(b)
        real = {n.lower(): n for n, _m, _f in v["rars"]}
        r.vols = [[(real.get(n.lower(), n), x, y) for n, x, y in vs] for vs in r.vols]
    v = A.check_volumes(r, b)
    got, data = A.check_stored(r, v)
    A.check_order(r, got, r.fixrar)
    A.check_srs(r, data, d)
    if r.vobsrr:
        n, name, meta = r.vobsrr
        R.check_meta(data[n], [(name, meta)], n)
        check(got.index(n) >= 0, "?")
    if c["kind"] == "first":
        found = match_offsets(data["Sample/s.srs"], k["v"]["fmt"])
        if r.want_off:
            sp = os.path.join(root, "Sample", os.path.basename(r.srs["Sample/s.srs"][2]))
            q = os.path.join(d, "ref.srs")
            mp = core.write(os.path.join(d, "mainfile", "main" + os.path.splitext(sp)[1]), r.srs["Sample/s.srs"][1].main)
            rc, txt = S.srs([sp, "-y", "-o", q, "-c", mp])
            check(rc == 0, "the sample is not found in its main file: %s", txt[-300:])
            want = match_offsets(core.read(q), k["v"]["fmt"])
            check(found == want, "the SRS has the track positions %r, but the sample is in a main file at %r", found, want)
            ctx.label("positions" if any(found.values()) else "at-0")
        else:
            check(not any(found.values()), "the SRS has track positions %r, but was not checked against anything", found)
    t = A.rebuild_all(r, srr, d)
    want = {n: raw for vs in r.vols for n, raw, _m in vs}
    want.update(data)
    R.same_tree(t, want, "rebuild from the SRR")
    ctx.nontrivial(len(data) > 1 and len(before) > 2)
    ctx.label(c["kind"], *labels)


def match_offsets(b, fmt):
    """The track positions in an SRS file that are not zero."""
    f, ts, _ = F.parse({"avi": "riff", "mkv": "ebml", "mp4": "mov", "wmv": "asf"}[fmt], b)
    return {n: t["off"] for n, t in ts.items() if t["off"]}
