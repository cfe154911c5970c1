"""A02: pyrescene.py makes a complete SRR of a music release."""
import os, zlib
from hypothesis import strategies as st
from vh import core, gen, media, auto as A, content, rarw, srr as R, srs as S
from vh.core import Leg, check

RULE = ("a generated music release (one or more discs of MP3 and FLAC tracks with SFVs, playlists, cue sheets, logs, covers and unwanted files; tracks that do not match "
        "their SFV line) is given to the tool; non-trivial when at least two tracks get an SRS and three other files are stored")
ASSUMPTIONS = ["with an SFV in the root, tracks in sub folders are listed in the SFV there",
               "tracks are in the domain of S05 and S06", "the fingerprint program is a stand-in (its output is data to the tool)"]


@st.composite
def track(draw, no):
    fmt = draw(st.sampled_from(["mp3", "mp3", "flac"]))
    c = draw(S.case(fmt))
    return {"c": c, "name": draw(st.sampled_from(["%02d-artist-title.%s", "%02d_Artist_-_Title-GRP.%s", "%d.%s", "%02d-T\u00e4tle.%s"])) % (no, draw(st.sampled_from([fmt, fmt.upper()] + (["mp2", "MP2"] if fmt == "mp3" and not c.get("riff") else [])))),
            "crc": draw(st.sampled_from(["ok", "ok", "ok", "ok", "bad", "zero", "none", "lower"])), "bad": draw(st.integers(0, 11)) == 0}


@st.composite
def case(draw):
    discs = draw(st.sampled_from([[""], [""], ["CD1", "CD2"], ["Disc_1", "Disc_2"], ["", "bonus"]]))
    return {"rel": draw(st.sampled_from(A.MUSIC_RLS)), "discs": [[d, [draw(track(i + 1)) for i in range(draw(st.integers(1, 3)))]] for d in discs],
            "sfv": draw(st.sampled_from(["00-artist-album-2007-grp.sfv", "GRP.SFV"])),
            "files": draw(st.lists(A.plain(A.KEEP), max_size=6)) + draw(st.lists(A.plain(A.SKIP), max_size=3)),
            "opts": {"i": draw(st.integers(0, 4)) == 0, "best": draw(st.booleans()), "nosrs": draw(st.integers(0, 9)) == 0, "r": draw(st.integers(0, 4)) == 0,
                     "fp": draw(st.integers(0, 9)) > 0}}


def place(c, root):
    r = A.new(root)
    o = c["opts"]
    bases = {}
    for d, ts in c["discs"]:
        lines = []
        for t in ts:
            m = A.valid(t["c"])
            if not m:
                continue
            data = media.rnd(40, 5) if t["bad"] else m.sample
            p = (d + "/" if d else "") + t["name"]
            if not A.put(r, p, data):
                continue
            crc = zlib.crc32(data)
            if t["crc"] == "bad":
                crc ^= 1
            if t["crc"] == "zero":
                if not crc:
                    continue
                crc = 0
            if t["crc"] != "none" or (d and c["discs"][0][0] == ""):     # an SFV in the root may be for sub folders too
                lines.append("%s %08x" % (t["name"].lower() if t["crc"] == "lower" else t["name"], crc))
            bases.setdefault(p.rsplit(".", 1)[0], []).append((p, t, m))
        if lines:
            n = (d + "/" if d else "") + c["sfv"]
            b = ("; made by hand\r\n" + "\r\n".join(lines) + "\r\n").encode("latin-1")
            A.put(r, n, b)
            r.stored[n] = b
    if not o["nosrs"]:
        for b, xs in bases.items():
            for p, t, m in xs:
                n = p if len(xs) > 1 else b
                if t["bad"]:
                    r.txt.append(p + ".txt")
                elif t["crc"] not in ("bad", "zero"):
                    r.srs[n + ".srs"] = (t["c"], m, os.path.basename(p))
    for f in c["files"]:
        d = content.data(f["c"])
        if A.put(r, f["path"], d) and (f["role"] in A.KEEP or (o["i"] and f["role"] == "smallimg")):
            r.stored[f["path"]] = d
    r.music = bool(bases)
    return r


def run(c, ctx):
    d = ctx.dir()
    o = c["opts"]
    root = os.path.join(d, c["rel"])
    r = place(c, root)
    out, tmp = os.path.join(d, "out"), os.path.join(d, "tmp")
    os.makedirs(out), os.makedirs(tmp)
    before = core.tree(root)
    args = ["-o", out, "-t", tmp] + ["-i"] * o["i"] + ["--best"] * o["best"] + ["--no-srs"] * o["nosrs"]
    inner = o["r"] and any("/" not in n and n[-4:].lower() in (".nfo", ".sfv") for n in r.stored) and len([n for n in os.listdir(root) if os.path.isfile(os.path.join(root, n))]) > 1
    res = A.run(args + ["-r"] * inner + [root], cwd=d, fpcalc=o["fp"])
    check(not res.exc, "the tool failed: %r", res)
    check(core.tree(root) == before, "the release changed")
    check(os.listdir(tmp) == [], "left in the temporary directory: %r", os.listdir(tmp))
    need = r.music and not o["nosrs"] and any(t["c"]["fmt"] for _d, ts in c["discs"] for t in ts)
    if not o["fp"] and need:
        if any(n for n in r.srs):
            check(res.rc == 1 and os.listdir(out) == [], "without fpcalc: exit code %d and output %r: %r", res.rc, os.listdir(out), res)
            ctx.label("no-fpcalc")
            return
        if res.rc:       # tracks whose SRS would be left out need the program as well
            check(os.listdir(out) == [], "failed, but made %r", os.listdir(out))
            return
    check(res.rc == 0, "exit code %d: %r", res.rc, res)
    check(os.listdir(out) == [c["rel"] + ".srr"], "the output directory has %r", os.listdir(out))
    srr = os.path.join(out, c["rel"] + ".srr")
    v = A.check_volumes(r, core.read(srr))
    got, data = A.check_stored(r, v)
    if r.music and not o["nosrs"]:
        nfo = [n for n in got if n[-4:].lower() == ".nfo"]
        check(got[:len(nfo)] == nfo, "the nfo files are not first: %r", got)
        rest = got[len(nfo):]
        check(rest == sorted(rest), "the stored files are not sorted: %r", rest)
    A.check_srs(r, data, d)
    ctx.nontrivial(len(r.srs) > 1 and len(r.stored) > 2)
    ctx.label("discs:%d" % len(c["discs"]), "srs:%d" % len(r.srs), *{"crc-" + t["crc"] for _d, ts in c["discs"] for t in ts}, *(["failed"] if r.txt else []))


LEGS = [Leg("release", case, run, quick=400, thorough=20000, shards=8)]
