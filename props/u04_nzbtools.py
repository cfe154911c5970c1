"""U04: the NZB tools (merge, split, sample extraction, renaming) lose no posts."""
import collections, os, sys
from hypothesis import strategies as st
from vh import core
from vh.core import Leg, check, Reject
from props import u02_nzb as u02
import pynzb, nzb_utils, nzb_merge, nzb_split, nzb_sample_extract, nzb_rename
from optparse import Values

RULE = ("merge: a directory of release folders, each with one or more NZB files of generated posts; afterwards every folder that had NZBs holds one NZB with every post of its former NZBs, once per "
        "occurrence. split: a NZB of posts from several interleaved releases in many subject styles, split into an empty folder or one holding the results of an earlier run; every post that the tool does not report as "
        "failed is in exactly one output NZB, once per occurrence, with all its values. sample: the written NZB lists exactly the sample posts (by extension and size limit). "
        "rename: every input NZB survives with its bytes, whatever names result. Input files that a tool does not rename or merge stay as they were. Non-trivial: at least three posts or two NZBs with posts.")
ASSUMPTIONS = ["posts have printable text and at least one segment; NZBs are well formed"]

EXTS = [".rar", ".r00", ".r01", ".part01.rar", ".sfv", ".nfo", ".vol003+10.par2", ".par2", ".mkv", ".avi", ".mp4", ".sample.avi", ".mp3", ".jpg", ".001", ".txt", "", ".srr", ".AVI", ".mkv.vol01+2.par2"]
REL = st.sampled_from(["Some.Show.S01E01.720p.x264-GRP", "Some.Show.S01E02.720p.x264-GRP", "Artist-Album-2010-GRP", "Other.Movie.2011.DVDR-ABC", "x", "a&b<c>-GRP", "Film.(2010).CD1-\u00c9T\u00c9", "..", "_", ".hidden-GRP"])
BASE = st.sampled_from(["grp-show.s01e01", "grp-show.s01e02", "abc-film", "a", "_x_", "grp-show.s01e01-sample", "00-artist-album", ""])


@st.composite
def post(draw):
    rel, base, ext = draw(REL), draw(BASE), draw(st.sampled_from(EXTS))
    sty = draw(st.integers(0, 9))
    i, n = draw(st.integers(1, 9)), draw(st.integers(1, 9))
    name = base + ext
    sub = ["[1234]-[FULL]-[#a.b.teevee@EFNet]-[ %s ]-[%02d/97] \"%s\" yEnc (1/61)" % (rel, i, name),
           "\"%s\" yEnc (1/3)" % name, "%s [%d/%d] - \"%s\" yEnc (1/3)" % (rel, i, n, name), "(%s Powered by Cheese) \"%s\" (1/2)" % (rel, name),
           "[:SEK9:][x]-[:%s:]-\"%s\" (1/2)" % (rel, name), "< %s > \"%s\" (1/2)" % (rel, name), "%s yEnc (1/5)" % name, "%s" % name,
           ">ghost-of-usenet.org<ENG-DVDR><< %s >> \"%s\" (1/2)" % (rel, name), "www.Thunder-News.org >%s< >Sponsored by Secretusenet \"%s\"" % (rel, name)][sty]
    return {"poster": draw(st.sampled_from(["a@b.c (x)", "<p@q>"])), "date": draw(st.integers(10 ** 9, 15 * 10 ** 8)), "subject": sub, "groups": ["alt.binaries.x"],
            "segs": [[k + 1, draw(st.one_of(st.integers(0, 10 ** 6), st.sampled_from([1, 700, 2500, 384000]))), draw(u02.word(u02.CH, 10))] for k in range(draw(st.integers(1, 3)))]}


def write(path, posts):
    doc = nzb_utils.empty_nzb_document()
    for f in posts:
        o = pynzb.base.NZBFile(f["poster"], f["date"], f["subject"], list(f["groups"]))
        for n, b, m in f["segs"]:
            o.add_segment(pynzb.base.NZBSegment(b, n, m))
        nzb_utils.add_file(doc, o)
    return core.write(path, nzb_utils.get_xml(doc))


def load(path):
    """Reads with this harness's own reader."""
    import xml.etree.ElementTree as E
    N = "{http://www.newzbin.com/DTD/2003/nzb}"
    out = []
    try:
        root = E.parse(path).getroot()
    except E.ParseError as e:
        raise core.Violation("%s is not well-formed: %s" % (path, e))
    for f in root.findall(N + "file"):
        out.append({"poster": f.get("poster"), "date": int(f.get("date")), "subject": f.get("subject"), "groups": [g.text for g in f.iter(N + "group")],
                    "segs": [[int(s.get("number")), int(s.get("bytes")), s.text] for s in f.iter(N + "segment")]})
    return out


def bag(posts):
    return collections.Counter(core.jdump(p) for p in posts)


# ----------------------------------------------------------------- merge
@st.composite
def merge_case(draw):
    d = {}
    for i in range(draw(st.integers(1, 3))):
        names = draw(st.lists(st.sampled_from(["a.nzb", "bb.nzb", "c.NZB", "long name.nzb", "x.nzb", "y.Nzb"]), max_size=4, unique=True))
        d["rel%d" % i] = {n: draw(st.lists(post(), max_size=3)) for n in names}
    return {"dirs": d, "extra": draw(st.booleans()), "cwd": draw(st.booleans()), "sub": draw(st.booleans())}


def merge_run(c, ctx):
    d = ctx.dir()
    for rel, nz in c["dirs"].items():
        os.makedirs(os.path.join(d, rel))
        for n, posts in nz.items():
            write(os.path.join(d, rel, n), posts)
        if c["extra"]:
            core.write(os.path.join(d, rel, "notes.txt"), b"keep me")
        if c["sub"]:
            core.write(os.path.join(d, rel, "deep.nzb", "x.txt"), b"a folder")
    if c["extra"]:
        core.write(os.path.join(d, "top.txt"), b"keep me")
    before = core.tree(d)
    r = core.cli(lambda argv: nzb_merge.main(Values(), argv), [d], cwd=d if c["cwd"] else "/")
    check(not r.exc and not r.killed, "merging failed: %r", r)
    after = core.tree(d)
    for rel, nz in c["dirs"].items():
        left = [p for p in after if p.startswith(rel + "/") and p.lower().endswith(".nzb") and p.count("/") == 1 and p != rel + "/deep.nzb"]
        if nz:
            check(len(left) == 1, "%s holds %r after merging %r", rel, left, sorted(nz))
            got, want = bag(load(os.path.join(d, left[0]))), bag([p for v in nz.values() for p in v])
            check(got == want, "%s: lost %r, extra %r", left[0], want - got, got - want)
    for p in before:
        if not p.lower().endswith(".nzb"):
            check(after.get(p) == before[p], "%s changed or disappeared", p)
    ctx.nontrivial(any(len(nz) > 1 and sum(map(len, nz.values())) > 1 for nz in c["dirs"].values()))


# ----------------------------------------------------------------- split
@st.composite
def split_case(draw):
    return {"posts": draw(st.lists(post(), max_size=8)), "more": draw(st.one_of(st.none(), st.lists(post(), max_size=4))), "sub": draw(st.booleans())}


def split_run(c, ctx):
    d = ctx.dir()
    out = os.path.join(d, "out")
    os.makedirs(out)
    want, failed = [], []
    for i, posts in enumerate([c["posts"]] + ([c["more"]] if c["more"] is not None else [])):
        p = write(os.path.join(d, "in%d.nzb" % i), posts)
        src = core.read(p)
        r = core.cli(lambda argv: nzb_split.main(Values({"substring": c["sub"]}), argv), [p, out], cwd=d)
        check(not r.exc and not r.killed, "splitting failed: %r for %r", r, [x["subject"] for x in posts])
        check(core.read(p) == src, "the input NZB changed")
        want += posts
        failed += [l[len("Failed: "):] for l in r.out.splitlines() if l.startswith("Failed: ")]
    check(set(core.tree(d)) <= {"in0.nzb", "in1.nzb", "out"} | {p for p in core.tree(d) if p.startswith("out/")}, "files written elsewhere: %r", sorted(core.tree(d)))
    got = bag([p for n in os.listdir(out) for p in load(os.path.join(out, n))])
    w = bag(want)
    for f in failed:
        k = [x for x in w if core.json.loads(x)["subject"] == f and w[x] > got[x]]
        check(k, "%r reported as failed but written", f)
        w[k[0]] -= 1
    w = +w
    check(got == w, "lost posts %r, extra posts %r", w - got, got - w)
    ctx.nontrivial(len(want) > 2 and len(os.listdir(out)) > 1)
    ctx.label("failed" if failed else "all")


# ---------------------------------------------------------------- sample
OPTS = ["avi", "mkv", "mp4", "wmv", "vob", "m2ts"]


@st.composite
def sample_case(draw):
    nzbs = draw(st.lists(st.lists(post(), max_size=5), min_size=1, max_size=3))
    sizes = [sum(s[1] for s in f["segs"]) + k for posts in nzbs for f in posts for k in (-1, 0, 1)]
    return {"nzbs": nzbs, "opts": draw(st.lists(st.sampled_from(OPTS), unique=True)), "upper": draw(st.integers(0, 3)) == 0,
            "max": draw(st.sampled_from([-1, -1, 0, 5000, 1000000] + sizes + sizes)), "out": draw(st.booleans()), "dir": draw(st.booleans())}


def sample_run(c, ctx):
    d = ctx.dir()
    ps = [write(os.path.join(d, "n", "in%d.%s" % (i, "NZB" if c["upper"] and i % 2 == 0 else "nzb")), posts) for i, posts in enumerate(c["nzbs"])]
    core.write(os.path.join(d, "n", "other.txt"), b"x")
    before = core.tree(d)
    out = os.path.join(d, "o") if c["out"] else None
    o = Values(dict({k + "sample": k in c["opts"] or None for k in OPTS}, output_dir=out, max_size=c["max"]))

    def go(argv):
        nzb_sample_extract.options = o
        nzb_sample_extract.main(o, argv)
    r = core.cli(go, [os.path.join(d, "n")] if c["dir"] else ps, cwd=d)
    check(not r.exc and not r.killed, "failed: %r", r)
    after = core.tree(d)
    exts = c["opts"] or ["avi", "mkv"]
    import re
    some = 0
    for p, posts in zip(ps, c["nzbs"]):
        want = []
        for f in posts:
            n = nzb_utils.parse_name(f["subject"]).lower()
            n = re.sub(r"(\.vol\d+\+\d+)?\.par2$", "", n)
            if n.endswith(tuple("." + e for e in exts)) and (c["max"] <= 0 or sum(s[1] for s in f["segs"]) <= c["max"]):
                want.append(f)
        t = os.path.join(out or os.path.join(d, "n", "samples"), os.path.basename(p))
        if want:
            check(os.path.isfile(t), "no sample NZB for %r\n%r", want, r)
            check(load(t) == want, "sample NZB has %r, expected %r", load(t), want)
            some += 1
        else:
            check(not os.path.exists(t), "sample NZB without a sample")
    for p in before:
        check(after.get(p) == before[p], "%s changed", p)
    ctx.nontrivial(some and sum(map(len, c["nzbs"])) > 2)


# ---------------------------------------------------------------- rename
def rename_run(c, ctx):
    d = ctx.dir()
    for i, posts in enumerate(c["nzbs"]):
        write(os.path.join(d, "in%d.nzb" % i), posts)
    core.write(os.path.join(d, "other.txt"), b"x")
    before = core.tree(d)
    r = core.cli(lambda argv: nzb_rename.main(Values(), argv), [d], cwd=d)
    check(not r.exc and not r.killed, "failed: %r", r)
    after = {p: v for p, v in core.tree(d).items() if os.path.isfile(os.path.join(d, p))}
    a, b = collections.Counter(core.read(os.path.join(d, p)) for p in after), collections.Counter()
    for i, posts in enumerate(c["nzbs"]):
        b[core.read(write(os.path.join(ctx.dir("z"), "x.nzb"), posts))] += 1
    b[b"x"] += 1
    check(a == b, "files lost or changed by renaming: %r -> %r", sorted(before), sorted(after))
    check(after.get("other.txt") == before["other.txt"], "other file moved")
    music = {bytes(core.read(write(os.path.join(ctx.dir("z"), "x.nzb"), posts))): any(nzb_utils.parse_name(f["subject"]).endswith((".mp3", ".flac", ".mp2")) for f in posts) for posts in c["nzbs"]}
    for p in after:
        if p.startswith("processed/"):
            check(p.split("/")[1] == ("music" if music[bytes(core.read(os.path.join(d, p)))] else "other"), "%s is in the wrong folder", p)
    ctx.nontrivial(len(c["nzbs"]) > 1 and any(p.startswith("processed/") for p in after))


LEGS = [Leg("merge", merge_case, merge_run, 300, 8000),
        Leg("split", split_case, split_run, 600, 15000),
        Leg("sample", sample_case, sample_run, 400, 10000),
        Leg("rename", sample_case, rename_run, 250, 6000)]
