"""S13: rebuilding a sample writes only inside the output folder."""
import io, os, sys, tempfile
from hypothesis import strategies as st
from vh import core, media, srs as S, srsfile as F
from vh.core import Leg, check, Reject
from props import s08_srsfile as S08

RULE = "an SRS whose recorded sample name was replaced by a hostile one is rebuilt with the right main file; non-trivial when the name holds a separator, is special or empty"
ASSUMPTIONS = ["POSIX: the backslash is an ordinary character of a file name"]

PART = st.one_of(st.sampled_from(["..", ".", "", "evil.avi", "sub", "a b", "C:", "~", "...", "main", "x.srs", "\u00e9"]), st.text(st.characters(blacklist_categories=("Cs",)), max_size=8))
NAME = st.one_of(st.lists(PART, min_size=1, max_size=5).map("/".join), st.lists(PART, min_size=1, max_size=4).map("\\".join),
                 st.lists(PART, min_size=1, max_size=4).map(lambda x: "/" + "/".join(x)), st.sampled_from(["@ABS/evil.avi", "@ABS/main/main movie.avi", "../x.srs", "../keep.txt", "sub/../../keep.txt", "a" * 300, "\0x", "x\0"]))


@st.composite
def case(draw):
    fmt = draw(st.sampled_from(["avi", "mkv", "mp4", "stream", "flac", "mp3", "wmv"]))
    return {"c": draw(S.case(fmt)), "name": draw(NAME), "old": draw(st.booleans()), "y": draw(st.booleans()), "mk": draw(st.booleans())}


def rename(fmt, b, name):
    """The SRS with another sample name in its file record."""
    env = F.OF[fmt]
    p = F.find(env, b)
    recs, end = F.records(env, b, p)
    f = F.file_record(recs[0][1])
    f["name"] = name
    new = [F.wrap(env, "F", F.make_file(f))] + [F.wrap(env, k, d) for k, d in recs[1:]]
    body = b"".join(new)
    if env == "ebml":
        q = b.find(b"\x1f\x69\x75\x76")
        return b[:q] + media.el("1F697576", body) + b[end:]
    return b[:p] + body + b[end:]


def run(c, ctx):
    fmt = c["c"]["fmt"]
    m = media.build(c["c"])
    if not m.present or not any(m.tracks.values()):
        raise Reject("no stream")
    if fmt == "stream":
        from props import s07_stream
        s07_stream.extra(c["c"], m)
    c["c"]["how"]["check"] = False
    d, sp, mp = S.place(m, c["c"], ctx)
    p = S.make(c["c"], ctx, m, d, sp, mp)
    name = c["name"].replace("@ABS", d)
    if len(name.encode()) > 60000:
        raise Reject()
    core.write(p, rename(fmt, core.read(p), name))
    core.write(os.path.join(d, "keep.txt"), b"keep")
    out = os.path.join(d, "reb")
    if c["mk"]:
        os.mkdir(out)
    before = core.tree(d)
    esc = []
    argv = [p, mp, "-o", out] + (["-y"] if c["y"] else [])
    stdin, sys.stdin = sys.stdin, io.StringIO("y\n" * 5)
    old, tempfile.tempdir = tempfile.tempdir, ctx.dir("tmp")
    try:
        with core.guard(ctx.base) as esc:
            rc, txt = S.srs(argv)
    finally:
        sys.stdin = stdin
        tempfile.tempdir = old
    ctx.nontrivial("/" in name or name in ("", ".", "..") or "\\" in name or len(name) > 200)
    ctx.label(fmt, "rc:%s" % rc)
    check(not esc, "tried to write outside of the case folder: %r", esc[:3])
    after = core.tree(d)
    for k in before:
        check(after.get(k) == before[k], "%s changed (sample name %r)", k, name)
    new = sorted(set(after) - set(before))
    check(all(k.startswith("reb" + os.sep) for k in new), "created %r outside of the output folder (sample name %r)", new, name)
    check(all(os.path.dirname(k) == "reb" for k in new) and len(new) <= 1, "created %r (sample name %r)", new, name)
    if rc == 0:
        check(len(new) == 1 and after[new[0]] == m.sample, "success reported without the sample")
    else:
        check(not new, "failed rebuild left %r", new)
    base = name.split("/")[-1]
    if rc != 0 and fmt in ("flac",) and base and base not in (".", "..") and "\0" not in base and len(base.encode()) < 200:
        check(False, "a rebuild with the right main file failed with %r: %s", rc, txt[-300:])


LEGS = [Leg("names", case, run, quick=3000, thorough=60000, shards=8)]
