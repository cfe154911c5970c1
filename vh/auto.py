"""Release directories for bin/pyrescene.py and what the tool must make of them."""
import importlib.util, os, sys, zlib
from hypothesis import strategies as st
from vh import core, gen, media, rarw, srr as R, srs as S
from vh.core import Violation, Reject, check
from props import s01_avi, s02_mkv, s03_mp4, s04_wmv, s05_flac, s06_mp3, s07_stream

EXTRA = {n: x.extra for n, x in [("avi", s01_avi), ("mkv", s02_mkv), ("mp4", s03_mp4), ("wmv", s04_wmv), ("flac", s05_flac), ("mp3", s06_mp3), ("stream", s07_stream)]
         if hasattr(x, "extra")}
_MOD = []


def module():
    """bin/pyrescene.py as a module, imported once per process."""
    if not _MOD:
        p = os.path.join(core.REPO, "bin")
        sys.path.insert(0, p)
        spec = importlib.util.spec_from_file_location("pyrescene_auto", os.path.join(p, "pyrescene.py"))
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        _MOD.append(m)
    return _MOD[0]


def run(argv, cwd=None, unrar=True, fpcalc=True, **kw):
    m = module()
    S.setup_fpcalc()

    def before():
        m.o.events = []
        fp = sys.modules["resample.fpcalc"]
        fp.fpcalc_executable = os.path.join(S.STUB, "fpcalc") if fpcalc else None
        if not fpcalc:           # not installed
            os.environ["PATH"] = os.path.join(S.STUB, "nothing")
        elif not unrar:
            os.environ["PATH"] = S.STUB
    return core.cli(m.main, [str(a) for a in argv], cwd=cwd, before=before, **kw)


def png(w, h, n, s):
    return (b"\x89PNG\r\n\x1a\n" + b"\0\0\0\x0dIHDR" + w.to_bytes(4, "big") + h.to_bytes(4, "big") + b"\x08\2\0\0\0" + media.rnd(n, s))


# ------------------------------------------------------------ generators ----
MOVIE_RLS = ["Some.Movie.2010.DVDRip.XviD-GRP", "A.Film.1999.1080p.BluRay.x264-TEAM", "Show.S01E02.HDTV.x264-aBc", "The.Game-RELOADED", "Old_App_v1.0-XYZ"]
MUSIC_RLS = ["Artist-Album-2007-GRP", "VA-Some_Songs-(CAT001)-CD-FLAC-2011-TEAM", "Band-Two_Discs-2CD-2003-aBc"]
SETBASE = ["grp-movie", "abc", "GRP-Movie", "x.y.z", "grp_1", "the.film.x264"]
STEMS = ["grp", "a", "x.y", "NAME", "00-name-grp", "01_name", "100%", "b[1]", "rls_info", "Group.Name"]

# role -> (directories, names, extensions) that end up in the SRR / that do not
KEEP = {
    "nfo": (["", "", "CD1", "Sample", "a/b"], STEMS, [".nfo", ".NFO", ".Nfo"]),
    "m3u": (["", "CD1"], STEMS, [".m3u", ".M3U"]),
    "cue": (["", "CD1"], STEMS, [".cue"]),
    "log": (["", "CD2", "EAC"], STEMS + ["_x", "ufx.rushchk"], [".log", ".LOG"]),
    "realno": (["", "Sample"], ["no", "NO", "o", "n"], [".nfo"]),
    "image": (["Proof", "proof", "Sample", "Cover", "Covers", "covers", "Screenshots", "Compare", "x/Proofs"], STEMS + ["with space"], [".jpg", ".jpeg", ".png", ".bmp", ".gif", ".JPG"]),
    "proofname": (["", "CD1"], ["grp-proof", "the.Proof", "grp-sample"], [".jpg", ".png"]),
    "zeroname": (["", "CD1"], ["00-x", "00_y-grp", "01-z", "000-q", "001-w"], [".jpg", ".png", ".gif"]),
}
SKIP = {
    "sitenfo": (["", "CD1"], ["imdb", "IMDB", "tvmaze", "TvMaze"], [".nfo"]),
    "nonfo": (["", "Sample"], ["no", "NO"], [".nfo"]),
    "sitelog": (["", "CD1"], ["rushchk", "RushChk", ".upchk", "ufxpcrc", ".hidden"], [".log"]),
    "folderimg": (["", "CD1"], ["folder", "Folder", "my cover", "AlbumArtSmall", "AlbumArt_{7E518F75}_Large"], [".jpg"]),
    "smallimg": (["", "x"], ["tt0123", "poster", "fanart"], [".jpg", ".png"]),
    "other": (["", "CD1", "Sample", "Proof"], STEMS, [".txt", ".diz", ".exe", ".par2", ".url", ".nfo.bak", ".dat"]),
    "video": (["", "Extras"], ["extra", "movie2"], [".mkv", ".avi"]),
}


@st.composite
def plain(draw, roles):
    role = draw(st.sampled_from(sorted(roles)))
    ds, ns, es = roles[role]
    d, n, e = draw(st.sampled_from(ds)), draw(st.sampled_from(ns)), draw(st.sampled_from(es))
    c = {"k": "text", "n": 8, "s": 1} if role == "nonfo" else draw(gen.content(0, 900))
    if role == "realno" and n.lower() == "no" and c["n"] == 8:
        c["n"] = 9
    elif role == "realno" and n.lower() != "no":
        c["n"] = 8
    return {"role": role, "path": (d + "/" if d else "") + n + e, "c": c}


@st.composite
def sample(draw):
    fmt = draw(st.sampled_from(["avi", "mkv", "mp4", "wmv", "stream"]))
    c = draw(S.case(fmt))
    return {"c": c, "dir": draw(st.sampled_from(["Sample", "sample", "SAMPLE", "CD1/Sample", ""])),
            "stem": draw(st.sampled_from(["grp-sample", "sample", "grp.Sample.1", "SAMPLE-x"])),
            "main": draw(st.sampled_from(["set", "set", "loose"])),
            "bad": draw(st.sampled_from([None, None, None, None, None, "empty", "junk"]))}


@st.composite
def sets(draw, subs=(("",), ("",), ("CD1", "CD2"), ("Disc1", "Disc2"), ("", "")), hi=2000, max_vols=6):
    """RAR sets with their folder."""
    dirs = draw(st.sampled_from(list(subs)))
    names, out, used = set(), [], set()
    for d in dirs:
        s = draw(gen.rarset(base=draw(st.sampled_from(SETBASE)), names=names, max_files=2, max_vols=max_vols, hi=hi, dirs=False,
                            namings=["old", "old", "part1", "part2", "num", "single"], first_min=1))
        while (d + "/" + s["base"]).lower() in used:
            s["base"] += "b"
        used.add((d + "/" + s["base"]).lower())
        out.append({"dir": d, "set": s})
    return {"sets": out, "onesfv": draw(st.integers(0, 4)) == 0, "sfvup": draw(st.integers(0, 4)) == 0}


@st.composite
def proofrar(draw):
    img = draw(st.booleans())
    more = draw(st.sampled_from([[], [], [".nfo"], [".png"], [".x", ".jpg"]] if img else [[], [], [".nfo"], [".a", ".b"]]))
    ext = draw(st.sampled_from([".jpg", ".jpeg", ".png", ".bmp", ".gif", ".JPG"] if img else [".txt", ".avi"]))
    s = draw(gen.rarset(base=draw(st.sampled_from(["grp-proof", "prf", "Grp.Proof"])), max_files=1, hi=600, dirs=False, unicode_ok=False, rr=False, namings=["single"], first_min=1))
    s["files"][0]["name"] = "the.proof" + ext
    s["files"] = [dict(s["files"][0], name="p%d%s" % (i, e), c={"k": "rand", "n": 5 + i, "s": i}) for i, e in enumerate(more)] + s["files"]
    return {"dir": draw(st.sampled_from(["Proof", "proofs", "PROOF", "CD1/Proof"])), "set": s, "img": img, "case": draw(st.booleans())}


@st.composite
def bigimage(draw):
    return {"like": draw(st.booleans()), "poster": draw(st.integers(0, 3)) == 0, "n": draw(st.sampled_from([100001, 100000, 120000, 20000, 99999])), "s": draw(st.integers(0, 99))}


# --------------------------------------------------------------- placing ----
class Rel:
    """stored: {name: bytes} expected in the SRR (None: any content); srs: {name: sample record};
    vols: [[(name, raw, meta)] per set]; packed: {name: bytes}"""


def norm(p):
    return p.replace(os.sep, "/")


def put(r, path, data):
    if path.lower() in r.lower:
        return False
    d = os.path.dirname(path)
    while d:                     # a folder may not be a file
        if d.lower() in r.lower:
            return False
        d = os.path.dirname(d)
    r.lower.add(path.lower())
    core.write(os.path.join(r.root, path), data)
    return True


def new(root):
    r = Rel()
    r.root, r.lower = root, set()
    r.stored, r.srs, r.vols, r.packed, r.sfvs, r.txt, r.above = {}, {}, [], {}, [], [], []
    os.makedirs(root)
    return r


def valid(c):
    """The media of a case inside the domain of S01-S07, or None."""
    try:
        m = media.build(c)
        S.domain(c, m)
        if c["fmt"] in EXTRA:
            EXTRA[c["fmt"]](c, m)
        return m
    except Reject:
        return None


def streams(m):
    return list(getattr(m, "full", {}).values()) + [m.main]


def mixable(ms, m):
    """No sample can be found in the main file of another one."""
    for o in ms:
        for a, b in ((o, m), (m, o)):
            if any(t and any(t[:256] in x for x in streams(b)) for t in a.tracks.values()):
                return False
    return True


def add_sets(r, c, mains):
    """mains: {set index: (name, bytes)} extra first file of a set"""
    texts = {}
    for i, x in enumerate(c["sets"]):
        s = dict(x["set"])
        if i in mains:
            n, data = mains[i]
            s["files"] = [{"name": n, "c": {"k": "lit", "n": len(data), "h": data.hex()}}] + s["files"]
            if s["naming"] != "single" and s["caps"][0] < 1 << 40:
                total = sum(f["c"]["n"] for f in s["files"])
                s["caps"] = [max(k, total // 8 + 1) for k in s["caps"]]
        pre = x["dir"] + "/" if x["dir"] else ""
        vols, files, paths = R.write_set(s, os.path.join(r.root, x["dir"]))
        for v in vols:
            r.lower.add((pre + v.name).lower())
        r.vols.append([(pre + v.name, bytes(v.raw), v.meta) for v in vols])
        r.packed.update(files)
        key = (x["dir"], "all" if c["onesfv"] else s["base"])
        texts.setdefault(key, []).extend((v.name, bytes(v.raw)) for v in vols)
    for (d, b), e in texts.items():
        n = (d + "/" if d else "") + b + (".SFV" if c["sfvup"] else ".sfv")
        t = R.sfv_text(e)
        put(r, n, t)
        r.stored[n] = t
        r.sfvs.append(n)


def add_proofrar(r, c):
    """A RAR with its SFV in a proof folder: stored when it holds an image, like a main archive otherwise."""
    s = c["set"]
    sub = os.path.join(r.root, c["dir"])
    base = c["dir"] + "/" + (s["base"].upper() if c["case"] and len(s["files"]) % 2 else s["base"])
    if (base + ".rar").lower() in r.lower or (base + ".sfv").lower() in r.lower:
        return False
    vols, files, paths = R.write_set(s, sub)
    v = vols[0]
    r.lower.add((c["dir"] + "/" + v.name).lower())
    t = R.sfv_text([(v.name.lower() if c["case"] else v.name, bytes(v.raw))])
    if not put(r, base + ".sfv", t):
        raise Reject("names")
    r.stored[base + ".sfv"] = t
    if c["img"]:
        r.stored[c["dir"] + "/" + v.name] = bytes(v.raw)
        r.above.append((c["dir"] + "/" + v.name, base + ".sfv"))
    else:
        r.sfvs.append(base + ".sfv")
        r.vols.append([(c["dir"] + "/" + v.name, bytes(v.raw), v.meta)])
        r.packed.update(files)
    return True


def add_bigimage(r, c, all_images, base):
    """A large image in the root: stored when named like the release's files."""
    n = (base + "-cover" if c["like"] else "zzz.unrelated.name") + (".png" if c["poster"] else ".jpg")
    data = png(630, 1200, c["n"] - 33, c["s"]) if c["poster"] else media.rnd(c["n"], c["s"])
    if put(r, n, data) and (all_images or (c["like"] and c["n"] > 100000 and not c["poster"])):
        r.stored[n] = data


def add_twins(r, names, datas):
    """Files that only differ in letter case."""
    if any(n.lower() in r.lower for n in names):
        return
    for n, d in zip(names, datas):
        core.write(os.path.join(r.root, n), d)
        r.lower.add(n.lower())
        r.stored[n] = d


def check_order(r, got, fixrar=()):
    main = [n for n in r.sfvs if n in r.stored]
    if main:
        i = min(got.index(n) for n in main)
        for n in got[max(0, i):]:
            check(n in main or n in fixrar, "the SFVs of the archives are not at the end: %r", got)
    for rar, sfv in r.above:
        if rar in got and sfv in got:
            check(got.index(rar) + 1 == got.index(sfv), "%s is not right above its SFV: %r", rar, got)


def check_volumes(r, srr_bytes):
    try:
        v = rarw.srr_view(srr_bytes)
    except Exception as e:
        raise Violation("the SRR is not well-formed: %s" % e)
    got = [(n, bytes(m)) for n, m, _f in v["rars"]]
    names = [n for n, _ in got]
    want = {n: bytes(m) for vs in r.vols for n, _r, m in vs}
    check(sorted(names) == sorted(want), "the SRR has the volumes %r, expected %r", sorted(names), sorted(want))
    for n, m in got:
        check(m == want[n], "metadata of volume %s differs: %s", n, core.first_diff(m, want[n]))
    for vs in r.vols:
        ns = [n for n, _, _ in vs]
        i = names.index(ns[0])
        check(names[i:i + len(ns)] == ns, "volumes of one set are out of order: %r", names)
    return v


def check_stored(r, v):
    got = [n for n, _ in v["stored"]]
    want = sorted(list(r.stored) + list(r.srs) + list(r.txt))
    check(sorted(got) == want, "the SRR stores %r; missing %r, unexpected %r", got, sorted(set(want) - set(got)),
          sorted(set(got) - set(want)) or [n for n in got if got.count(n) > 1])
    d = dict(v["stored"])
    for n, b in r.stored.items():
        check(b is None or d[n] == b, "stored %s has other content: %s", n, core.first_diff(d[n], b or b""))
    return got, d


def check_srs(r, d, base):
    """Each stored SRS rebuilds its sample."""
    for i, (n, (c, m, name)) in enumerate(sorted(r.srs.items())):
        w = os.path.join(base, "srs%d" % i)
        p = core.write(os.path.join(w, "x.srs"), d[n])
        mp = core.write(os.path.join(w, "movie" + S.names(m, c)[1][-5:].lstrip("movie")), m.main)
        S.rebuild(c, None, w, p, mp, {name: m.sample})


def rebuild_all(r, srr, base):
    """The SRR and the packed files give back every volume and stored file."""
    inp, out = os.path.join(base, "reb_in"), os.path.join(base, "reb_out")
    os.makedirs(inp), os.makedirs(out)
    R.write_files(r.packed, inp)
    R.reconstruct(srr, inp, out, extract_paths=True, extract_files=True)
    return core.tree(out)
