"""S11: rebuilding from main files inside RARs equals plain files."""
import os
from hypothesis import strategies as st
from vh import core, media, gen, srs as S, srr as R
from props import s01_avi, s02_mkv, s03_mp4, s04_wmv, s05_flac, s06_mp3, s07_stream
from vh.core import Leg, check, Reject

RULE = ("a sample is checked against and rebuilt from its main file packed in a generated store-mode RAR set, addressed by the first volume; "
        "non-trivial when the set has several volumes or another file precedes the main file")
ASSUMPTIONS = ["when several files are packed, the first with a known media extension is the main file (as the tool documents)",
               "the main file starts in the first volume", "the first 256 bytes of each sample stream occur once in the main stream"]


EXTRA = {n: x.extra for n, x in [("avi", s01_avi), ("mkv", s02_mkv), ("mp4", s03_mp4), ("wmv", s04_wmv), ("flac", s05_flac), ("mp3", s06_mp3), ("stream", s07_stream)]
         if hasattr(x, "extra")}


@st.composite
def case(draw):
    fmt = draw(st.sampled_from(sorted(media.CASE)))
    c = {"c": draw(S.case(fmt)), "vols": draw(st.integers(1, 12)), "caps": draw(st.lists(st.integers(0, 700), min_size=3, max_size=3)),
         "even": draw(st.booleans()), "up": draw(st.integers(0, 3)) == 0, "sub": draw(st.integers(0, 5)) == 0, "check": draw(st.booleans()),
         "before": draw(st.lists(st.tuples(st.sampled_from(["nfo", "srt", "txt", "idx", "sub"]), gen.content(0, 900)), max_size=2)),
         "after": draw(st.lists(st.tuples(st.sampled_from(["nfo", "srt", "avi", "mkv"]), gen.content(0, 900)), max_size=1))}
    s = draw(gen.rarset(max_files=1, dirs=False, unicode_ok=False, namings=["old", "part1", "part2", "part3", "num", "single"], first_min=1))
    c["set"] = s
    return c


def run(c, ctx):
    m = media.build(c["c"])
    fmt = c["c"]["fmt"]
    S.domain(c["c"], m)
    if fmt in EXTRA:
        EXTRA[fmt](c["c"], m)
    d, sp, mp = S.place(m, c["c"], ctx)
    ext = os.path.splitext(mp)[1]
    s = dict(c["set"])
    me = {"name": ("Folder\\" if c["sub"] else "") + "the.movie" + (ext.upper() if c["up"] else ext), "c": {"k": "lit", "n": len(m.main), "h": m.main.hex()}}
    fs = [{"name": "a%d.%s" % (i, e), "c": x} for i, (e, x) in enumerate(c["before"])]
    fs += [me] + [{"name": "z%d.%s" % (i, e), "c": x} for i, (e, x) in enumerate(c["after"])]
    s["files"] = fs
    total = sum(f["c"]["n"] for f in fs)
    if s["naming"] == "single" or not total:
        s["caps"] = [1 << 40]
    else:
        cap = max(1, -(-total // min(c["vols"], {"part1": 9}.get(s["naming"], 99))))
        s["caps"] = [cap] * 4 if c["even"] else [cap + x for x in c["caps"]]
        s["caps"][0] += sum(f["c"]["n"] for f in fs[:len(c["before"])])  # the main file starts in the first volume
    vols, files, paths = R.write_set(s, os.path.join(d, "rar"))
    ctx.nontrivial(len(vols) > 1 or bool(c["before"]))
    ctx.label(fmt, s["naming"], "vols:%s" % min(len(vols), 5), "before:%d" % len(c["before"]), *(["upper"] if c["up"] else []))
    before = core.tree(d)
    rarred = paths[0]
    # the same search result
    if c["check"]:
        res = []
        for i, movie in enumerate([mp, rarred]):
            p = os.path.join(d, "out", "made%d.srs" % i)
            rc, txt = S.srs([sp, "-y", "-o", p, "-c", movie])
            check(rc == 0, "creation with the %s main file failed with exit code %r: %s", "plain RAR".split()[i], rc, txt[-500:])
            res.append(core.read(p))
            os.unlink(p)
        check(res[0] == res[1], "SRS files checked against the plain and the packed main file differ: %s", core.first_diff(res[1], res[0]))
        p = core.write(os.path.join(d, "out", "m.srs"), res[1])
    else:
        p = S.make(dict(c["c"], how=dict(c["c"]["how"], check=False, old=False)), ctx, m, d, sp, mp)
    S.rebuild(c["c"], ctx, d, p, rarred, {os.path.basename(sp): m.sample}, ["-m"] if c["c"]["how"]["m"] else [])
    after = core.tree(d)
    check({k: v for k, v in after.items() if not k.startswith(("out", "reb"))} == before, "the input files changed")


LEGS = [Leg("packed", case, run, quick=3000, thorough=80000, shards=8)]
