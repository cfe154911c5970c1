"""A05: retag.py gives a music release back its files and its tracks."""
import importlib.util, os, sys
from hypothesis import strategies as st
from vh import core, gen, media, auto as A, content, rarw, srs as S
from vh.core import Leg, check, Reject
from props import s15_srscmd as X

RULE = ("an SRR with the SRS files of the tracks of one or more discs and other stored files is given to retag.py with a folder that holds the tracks with other tags "
        "(in place or flat, in other capitals, absent, or of other music), and an output folder that is new, the same, or has files in the way; "
        "non-trivial when a track is fixed and another file is stored, or a track cannot be fixed")
ASSUMPTIONS = ["no two files of a folder differ only in capitals", "the SRR is not in the input or output folder", "a track that is found in its own folder is used before one in the root"]
_MOD = []


def module():
    if not _MOD:
        p = os.path.join(core.REPO, "bin")
        sys.path.insert(0, p)
        spec = importlib.util.spec_from_file_location("retag_tool", os.path.join(p, "retag.py"))
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        _MOD.append(m)
    return _MOD[0]


NAME = st.sampled_from(["01-artist-title.%s", "02_Artist_-_Title-GRP.%s", "3.%s", "04-T\u00e4tle.%s", "05 a b.%s", "6.x.y.%s"])
DISC = st.sampled_from(["", "", "CD1", "CD2", "Disc_1", "bonus/x"])
OTHER = st.sampled_from(["00-grp.nfo", "00-grp.sfv", "CD1/00.sfv", "CD2/00.sfv", "00.sfv", "cover.jpg", "CD1/cover.jpg", "a/b/c.m3u", "01-artist-title.nfo", "empty.log"])


@st.composite
def track(draw):
    fmt = draw(st.sampled_from(["mp3", "mp3", "flac"]))
    return {"c": draw(S.case(fmt)), "disc": draw(DISC), "name": draw(NAME) % draw(st.sampled_from([fmt, fmt.upper()])),
            "where": draw(st.sampled_from(["path", "path", "path", "flat", "flat", "done", "none", "wrong", "text"])), "case": draw(st.sampled_from(["same", "same", "lower", "upper"])),
            "dcase": draw(st.booleans()), "ext": draw(st.integers(0, 5)) == 0, "broken": draw(st.integers(0, 11)) == 0}


@st.composite
def case(draw):
    return {"tracks": draw(st.lists(track(), min_size=1, max_size=3)), "wrong": draw(S.case("mp3")),
            "files": draw(st.lists(st.tuples(OTHER, gen.content(0, 300)), max_size=4)), "video": draw(st.integers(0, 4)) == 0,
            "out": draw(st.sampled_from(["new", "new", "same", "same", "old", "deep"])), "mode": draw(st.sampled_from(["y", "y", "n", ""])), "ans": draw(st.booleans()),
            "order": draw(st.randoms(use_true_random=False)).getrandbits(30), "old": draw(st.lists(st.integers(0, 9), max_size=3)), "srs": draw(st.integers(0, 2)) == 0, "cwd": draw(st.booleans())}


def run(c, ctx):
    import random
    S.setup_fpcalc()
    base = ctx.dir()
    inp, work = os.path.join(base, "in"), os.path.join(base, "work")
    os.makedirs(inp), os.makedirs(work)
    stored, want, user, tracks = {}, {}, {}, []
    wm = A.valid(c["wrong"])
    for i, t in enumerate(c["tracks"]):
        m = A.valid(t["c"])
        p = (t["disc"] + "/" if t["disc"] else "") + t["name"]
        if not m or p.lower() in [x["p"].lower() for x in tracks]:
            continue
        s = os.path.join(work, str(i))
        sp = core.write(os.path.join(s, t["name"]), m.sample)
        rc, txt = S.srs([sp, "-y", "-o", os.path.join(s, "x.srs")])
        check(rc == 0, "creating an SRS failed: %s", txt[-300:])
        n = (p if t["ext"] else p.rsplit(".", 1)[0]) + ".srs"
        if n.lower() in [x.lower() for x in stored]:
            continue
        d = core.read(os.path.join(s, "x.srs"))
        bad = False
        if t["broken"]:
            bad = X.recrc(t["c"]["fmt"], d) != d
            d = X.recrc(t["c"]["fmt"], d)
        stored[n] = d
        disc = t["disc"].swapcase() if t["dcase"] and c["out"] != "same" else t["disc"]
        name = {"same": str, "lower": str.lower, "upper": str.upper}[t["case"]](t["name"])
        q = name if t["where"] == "flat" else (disc + "/" if disc else "") + name
        has = t["where"] != "none" and q.lower() not in [k.lower() for k in user]
        data = m.sample if t["where"] == "done" else wm.sample if t["where"] == "wrong" and wm and wm.sample != m.sample else b"no music here at all" if t["where"] == "text" else m.main
        if t["where"] == "wrong" and (not wm or data in (m.main, m.sample)):
            has = False
        if has:
            user[q] = data
        tracks.append({"p": p, "srs": n, "m": m, "q": q if has else None, "t": t, "bad": bad, "fmt": t["c"]["fmt"]})
    if not tracks:
        raise Reject("no track")
    for n, rec in c["files"]:
        if n.lower() not in [x.lower() for x in stored] and n.lower() not in [x["p"].lower() for x in tracks]:
            stored[n] = content.data(rec)
    if c["video"]:
        stored["Sample/movie.srs"] = b"RIFF\x10\0\0\0AVI LIST" + b"\0" * 20
    names = sorted(stored)
    random.Random(c["order"]).shuffle(names)
    srr = core.write(os.path.join(base, "rls.srr"), rarw.srr_header("test") + b"".join(rarw.srr_stored(n, stored[n]) for n in names))
    # folders of two discs may be spelled in two ways: one folder each
    dirs = {}
    for q in list(user):
        h, _s, b = q.rpartition("/")
        if h:
            k = dirs.setdefault(h.lower(), h)
            user[k + "/" + b] = user.pop(q)
            for t in tracks:
                if t["q"] == q:
                    t["q"] = k + "/" + b
    for q, d in user.items():
        core.write(os.path.join(inp, q), d)
    out = {"new": os.path.join(base, "out"), "deep": os.path.join(base, "out", "a b", "c"), "old": os.path.join(base, "out"), "same": inp}[c["out"]]
    if c["out"] in ("old", "same"):
        pool = sorted([n for n in stored if not n.endswith(".srs") or c["srs"]] + ([t["p"] for t in tracks] if c["out"] == "old" else []))
        for k in c["old"]:
            if pool:
                p = os.path.join(out, pool[k % len(pool)])
                if not os.path.exists(p):
                    core.write(p, b"was here before")
    os.makedirs(out, exist_ok=True) if c["out"] == "old" else None
    before_in, before = core.tree(inp), core.tree(out) if os.path.isdir(out) else {}
    argv = [srr] + (["-y"] if c["mode"] == "y" else ["-n"] if c["mode"] == "n" else [])
    cwd = base
    if c["cwd"] and c["out"] == "same":
        cwd = inp
    else:
        argv += ["-i", inp, "-o", out]
    tool = module()
    res = core.cli(tool.main, argv, cwd=cwd, stdin=((b"y\n" if c["ans"] else b"n\n") * 60))
    after = core.tree(out) if os.path.isdir(out) else {}
    consent = c["mode"] == "y" or c["ans"]
    check(not res.exc, "the tool failed: %r", res)
    expect = dict(before)
    for n, d in stored.items():
        if not n.endswith(".srs") and (n not in before or c["mode"] == "y" or (c["mode"] == "" and c["ans"])):
            expect[n] = d
    failed = fixed = unsure = kept = 0
    lower = {}
    ok = c["mode"] == "y" or (c["mode"] == "" and c["ans"])
    for n in stored:
        if n.endswith(".srs") and n in before and ok:
            expect.pop(n)       # replaced and removed after use
    for q in before_in:
        lower.setdefault(q.lower(), q)
    for t in tracks:
        # the file the tool has to work with
        q = lower.get(t["p"].lower()) or lower.get(os.path.basename(t["p"]).lower())
        ctx.label(t["t"]["where"], t["fmt"])
        if t["srs"] in before and not ok:
            kept += 1           # the SRS could not be extracted
            continue
        if q is None or q != t["q"] or t["t"]["where"] in ("wrong", "text"):
            if q is not None and before_in[q] not in (b"no music here at all", b"was here before"):
                unsure += 1
                if t["p"] in after and after[t["p"]] == t["m"].sample:
                    expect[t["p"]] = t["m"].sample
                    continue
            failed += 1
            continue
        if t["bad"] or (t["p"] in before and not consent):
            failed += 1
            continue
        expect[t["p"]] = t["m"].sample
        fixed += 1
    ctx.nontrivial((fixed and len(stored) > len(tracks)) or failed)
    ctx.label(*(["srs in the way"] if kept else []))
    ctx.label("out:" + c["out"], "fixed:%d" % fixed, "failed:%d" % failed, "mode:" + c["mode"])
    check(sorted(after) == sorted(expect), "the output has %r, expected %r: %s", sorted(set(after) - set(expect)), sorted(set(expect) - set(after)), res.out[-900:])
    for n in expect:
        check(after[n] == expect[n], "%s: %s", n, core.first_diff(after[n], expect[n]))
    if out != inp:
        check(core.tree(inp) == before_in, "the input folder changed")
    if not unsure:
        check(res.rc == (1 if failed else 0), "exit code %r with %d fixed and %d failed tracks: %r", res.rc, fixed, failed, res)


LEGS = [Leg("retag", case, run, quick=1600, thorough=40000, shards=8)]
