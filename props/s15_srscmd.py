"""S15: the srs command writes the file that was asked for, and nothing else."""
import io, os, sys, tempfile
from hypothesis import strategies as st
from vh import core, media, srs as S, srsfile as F
from vh.core import Leg, check, Reject
from props import s01_avi, s02_mkv, s04_wmv, s06_mp3, s07_stream

RULE = ("create: a sample below a nested folder is given to srs with naming options, an output option, prompts to answer and a file that is in the way or not; "
        "rebuild: an SRS (with the right or with another CRC-32) is rebuilt into a folder that exists or not, with prompts, -k and -m; "
        "args: unsuitable arguments; non-trivial when a naming or output option, a prompt or an error is involved")
ASSUMPTIONS = ["the sample lies at least two folders below the root of the file system", "a prompt that gets no answer at all ends the command"]

FMT = st.sampled_from(["avi", "mkv", "mp4", "wmv", "flac", "mp3", "stream"])
DIR = st.sampled_from(["Sample", "sample", "Grp.Movie.2010-GRP", "a b", "CD1", "x.srs", "v1.0", "\u00e9t\u00e9", "Sample.avi", "d"])
STEM = st.sampled_from(["sample", "grp-movie-sample", "a.b.c", "x y (1)", "S\u00e4mple", "x.srs", "vts.avi", "-dash", "100%"])
ANS = st.lists(st.sampled_from(["y", "n", "Y", "N", "", "yes", "no", "q", " y"]), max_size=3)

EXTRA = {"avi": s01_avi.extra, "mkv": s02_mkv.extra, "wmv": s04_wmv.extra, "mp3": s06_mp3.extra, "stream": s07_stream.extra}


def media_case(draw):
    fmt = draw(FMT)
    return draw(S.case(fmt))


@st.composite
def create_case(draw):
    return {"c": media_case(draw), "path": draw(st.lists(DIR, min_size=2, max_size=4)), "stem": draw(STEM),
            "noext": draw(st.integers(0, 7)) == 0,
            "arg": draw(st.sampled_from(["abs", "rel", "local", "dotted"])),
            "d": draw(st.sampled_from([[], [], ["--d"], ["--dd"], ["--ddd"], ["--d", "--dd"], ["--d", "--ddd"], ["--dd", "--ddd"]])),
            "o": draw(st.sampled_from([None, None, "dir", "dir", "file", "upper", "relfile", "reldir", "nodir", "nodirfile"])),
            "y": draw(st.booleans()), "ans": draw(ANS), "old": draw(st.booleans()), "i": draw(st.integers(0, 5)) == 0, "b": draw(st.booleans()),
            "long": draw(st.booleans())}


def build(c):
    m = media.build(c)
    if not m.present or not any(m.tracks.values()):
        raise Reject("no stream")
    if c["fmt"] in EXTRA:
        EXTRA[c["fmt"]](c, m)
    return m


def answer(ans):
    """What the answers come down to: True, False or None (no usable answer)."""
    for a in ans:
        if a.lower() in ("y", "n"):
            return a.lower() == "y"
    return None


def call(ctx, argv, ans, cwd):
    S.setup_fpcalc()
    here = os.getcwd()
    stdin, sys.stdin = sys.stdin, io.StringIO("".join(a + "\n" for a in ans))
    old, tempfile.tempdir = tempfile.tempdir, ctx.dir("tmp")
    os.chdir(cwd)
    try:
        rc, txt = S.srs(argv)
        left = core.tree(tempfile.tempdir)
    finally:
        os.chdir(here)
        sys.stdin = stdin
        tempfile.tempdir = old
    check(not left, "srs %r left temporary files %r", argv, sorted(left))
    return rc, txt


def dirs_of(root):
    return sorted(os.path.relpath(os.path.join(d, x), root) for d, ds, _f in os.walk(root) for x in ds)


def run_create(c, ctx):
    m = build(c["c"])
    S.domain(c["c"], m)
    root = ctx.dir()
    ext = "" if c["noext"] and c["c"]["fmt"] not in ("stream", "mp3") else c["c"].get("ext") or media.EXT[c["c"]["fmt"]]
    name = c["stem"] + ext
    if name.lower().endswith(".srs"):
        raise Reject("the sample is named .srs")
    sdir = os.path.join(root, *c["path"])
    sp = core.write(os.path.join(sdir, name), m.sample)
    work, out = os.path.join(root, "work"), os.path.join(root, "out")
    os.makedirs(work, exist_ok=True)
    os.makedirs(out, exist_ok=True)
    cwd = sdir if c["arg"] == "local" else work
    arg = {"abs": sp, "rel": os.path.relpath(sp, cwd), "local": name, "dotted": os.path.join(sdir, "..", os.path.basename(sdir), ".", name)}[c["arg"]]
    if arg.startswith("-"):
        arg = "./" + arg
    argv = list(c["d"])
    folder, target = cwd, None
    o = {None: None, "dir": out, "reldir": os.path.relpath(out, cwd), "file": os.path.join(out, "made.file.srs"), "upper": os.path.join(out, "MADE.SRS"),
         "relfile": "rel.srs", "nodir": os.path.join(root, "none"), "nodirfile": os.path.join(root, "none", "x.srs")}[c["o"]]
    if o:
        argv += ["--output", o] if c["long"] else ["-o", o]
        if o.lower().endswith(".srs"):
            target = os.path.join(cwd, o)
        else:
            folder = os.path.join(cwd, o)
    elif c["d"] == ["--ddd"]:
        folder = os.path.dirname(sdir)
    if target is None:
        base = {"--d": os.path.basename(sdir), "--dd": os.path.basename(os.path.dirname(sdir)), "--ddd": os.path.basename(os.path.dirname(sdir))}.get("".join(c["d"][:1]))
        if base is None:
            base = os.path.splitext(name)[0]
        target = os.path.join(folder, base + ".srs")
    target = os.path.normpath(target)
    if os.path.isdir(target):
        raise Reject("a folder is in the way")
    bad = len(c["d"]) > 1 or c["o"] in ("nodir", "nodirfile")
    if c["old"] and not bad:
        core.write(target, b"the old SRS")
    argv = [arg] + argv + (["-y"] if c["y"] else []) + (["-i"] if c["i"] else []) + (["-b"] if c["b"] else [])
    before, dirs = core.tree(root), dirs_of(root)
    rc, txt = call(ctx, argv, c["ans"], cwd)
    after = core.tree(root)
    key = os.path.relpath(target, root)
    ctx.nontrivial(bool(c["d"] or c["o"] or c["old"] or c["i"]))
    ctx.label(c["c"]["fmt"], "naming:" + ("+".join(c["d"]) or "none"), "out:%s" % c["o"])
    check(dirs_of(root) == dirs, "srs %r changed the folders", argv)
    say = answer(c["ans"])
    if bad:
        check(rc not in (0, None), "srs %r was not refused", argv)
        new = None
    elif c["i"]:
        check(rc == 0, "srs %r failed with %r: %s", argv, rc, txt[-300:])
        new = None
    elif c["old"] and not c["y"] and not say:
        ctx.label("refused" if say is False else "no answer")
        check((rc == 0) if say is False else rc not in (0, None), "srs %r ended with %r", argv, rc)
        new = None
    else:
        check(rc == 0, "srs %r failed with %r: %s", argv, rc, txt[-300:])
        new = key
        check(key in after, "srs %r did not make %r but %r", argv, key, sorted(set(after) - set(before)))
        check(os.path.basename(key) in txt, "the name of the SRS is not told: %s", txt[-200:])
    for k in sorted(set(before) | set(after)):
        if k != new:
            check(k in before, "srs %r made %r", argv, k)
            check(after.get(k) == before[k], "srs %r changed %r", argv, k)
    if new:
        f = F.parse(F.OF[c["c"]["fmt"]], after[new])[0]
        check(f["name"] == name, "the SRS records the name %r of the sample %r", f["name"], name)
        check(f["size"] == len(m.sample), "the SRS records a sample of %r bytes, not %d", f["size"], len(m.sample))


@st.composite
def rebuild_case(draw):
    return {"c": media_case(draw), "o": draw(st.sampled_from([None, "new", "deep", "dir", "dir", "rel", "main"])), "y": draw(st.booleans()), "k": draw(st.booleans()),
            "m": draw(st.booleans()), "bad": draw(st.integers(0, 2)) == 0, "old": draw(st.booleans()), "same": draw(st.booleans()), "ans": draw(ANS),
            "upper": draw(st.booleans())}


def recrc(fmt, b):
    """The SRS with another CRC-32 of the sample."""
    env = F.OF[fmt]
    p = F.find(env, b)
    recs, end = F.records(env, b, p)
    f = F.file_record(recs[0][1])
    f["crc"] ^= 0x10000001
    return b.replace(F.wrap(env, "F", recs[0][1]), F.wrap(env, "F", F.make_file(f)), 1)


def run_rebuild(c, ctx):
    cc = c["c"]
    fmt = cc["fmt"]
    m = build(cc)
    S.domain(cc, m)
    cc["how"]["check"] = False
    cc["how"]["old"] = False
    root, sp, mp = S.place(m, cc, ctx)
    p = S.make(cc, ctx, m, root, sp, mp)
    name = os.path.basename(sp)
    music = fmt in ("flac", "mp3")
    if c["bad"]:
        b = core.read(p)
        nb = recrc(fmt, b)
        if nb == b:
            raise Reject("record not found")
        core.write(p, nb)
    if c["upper"]:
        os.rename(p, p[:-4] + ".SRS")
        p = p[:-4] + ".SRS"
    if c["same"]:
        # the main file has the name of the sample
        q = os.path.join(os.path.dirname(mp), name)
        os.rename(mp, q)
        mp = q
    work, res = os.path.join(root, "work"), os.path.join(root, "res")
    os.mkdir(work)
    os.mkdir(res)
    o = {None: None, "new": os.path.join(root, "made"), "deep": os.path.join(root, "made", "a b", "c"), "dir": res, "rel": os.path.relpath(res, work), "main": os.path.dirname(mp)}[c["o"]]
    target = os.path.normpath(os.path.join(work, o or ".", name))
    key = os.path.relpath(target, root)
    over = target == mp
    if c["old"] and not over and c["o"] not in ("new", "deep"):
        core.write(target, b"something else")
    exists = os.path.exists(target)
    argv = [p, mp] + (["-o", o] if o else []) + (["-y"] if c["y"] else []) + (["-k"] if c["k"] else []) + (["-m"] if c["m"] else [])
    before = core.tree(root)
    rc, txt = call(ctx, argv, c["ans"], work)
    after = core.tree(root)
    say = answer(c["ans"])
    go = not exists or c["y"] or bool(say)
    ctx.nontrivial(exists or c["bad"] or c["o"] in (None, "new", "deep", "main"))
    ctx.label(fmt, "bad" if c["bad"] else "good", "kept" if c["k"] else "dropped", "go" if go else "stop", "over" if over else "apart")
    new, extra = None, sorted(set(after) - set(before) - {key})
    if not go:
        check(rc not in (0, None), "srs %r reports success (answers %r)", argv, c["ans"])
    elif c["bad"]:
        check(rc not in (0, None), "srs %r reports success with a wrong CRC", argv)
        if c["k"] and music and over:
            # the source is never replaced by a bad result
            check(len(extra) == 1 and os.path.dirname(extra[0]) == os.path.dirname(key), "srs %r left %r", argv, extra)
            check(after[extra[0]] == m.sample, "srs %r kept something else: %s", argv, core.first_diff(after[extra[0]], m.sample))
            extra = []
        elif c["k"]:
            new = key
    else:
        check(rc == 0, "srs %r failed with %r: %s", argv, rc, txt[-400:])
        new = key
    check(not extra, "srs %r left %r", argv, extra)
    if new:
        check(after.get(new) == m.sample, "srs %r made %s", argv, core.first_diff(after[new], m.sample) if new in after else "nothing at %r: %s" % (new, txt[-700:]))
    for k in sorted(set(before) | set(after)):
        if k != new and k not in set(after) - set(before) - {key}:
            check(k in before, "srs %r made %r", argv, k)
            check(after.get(k) == before[k], "srs %r changed %r", argv, k)


@st.composite
def args_case(draw):
    return {"c": media_case(draw), "args": draw(st.lists(st.sampled_from(["sample", "main", "srs", "none", "folder", "text", "empty", "rarhead"]), min_size=0, max_size=4)),
            "y": draw(st.booleans()), "l": draw(st.booleans())}


def run_args(c, ctx):
    m = build(c["c"])
    S.domain(c["c"], m)
    c["c"]["how"]["check"] = False
    c["c"]["how"]["old"] = False
    root, sp, mp = S.place(m, c["c"], ctx)
    p = S.make(c["c"], ctx, m, root, sp, mp)
    kinds = c["args"]
    good = kinds in ([], ["sample"], ["main"], ["srs", "main"]) or kinds == ["srs"] and c["l"]
    ctx.nontrivial(not good)
    ctx.label("n:%d" % len(kinds))
    if kinds in (["srs", "sample"], ["srs", "main"]):
        raise Reject("a rebuild")
    f = {"sample": sp, "main": mp, "srs": p, "none": os.path.join(root, "none.avi"), "folder": os.path.join(root, "fold"),
         "text": core.write(os.path.join(root, "x.txt"), b"just text, no media data at all\n" * 4), "empty": core.write(os.path.join(root, "e.avi"), b""),
         "rarhead": core.write(os.path.join(root, "h.rar"), b"Rar!\x1a\x07\0")}
    os.mkdir(f["folder"])
    work = os.path.join(root, "work")
    os.mkdir(work)
    before = core.tree(root)
    argv = [f[k] for k in kinds] + (["-y"] if c["y"] and kinds else []) + (["-l"] if c["l"] and kinds else [])
    rc, txt = call(ctx, argv, [], work)
    after = core.tree(root)
    if good:
        check(rc == 0, "srs %r failed with %r: %s", argv, rc, txt[-300:])
    else:
        check(rc not in (0, None), "srs %r reports success: %s", argv, txt[-300:])
    if kinds not in (["sample"], ["main"]):
        check(sorted(after) == sorted(before), "srs %r made %r", argv, sorted(set(after) ^ set(before)))
    for k in before:
        check(after.get(k) == before[k], "srs %r changed %r", argv, k)


LEGS = [Leg("create", create_case, run_create, quick=3000, thorough=60000, shards=8),
        Leg("rebuild", rebuild_case, run_rebuild, quick=3000, thorough=60000, shards=8),
        Leg("args", args_case, run_args, quick=800, thorough=10000, shards=8)]
