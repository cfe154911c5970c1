"""Driver around the srs command line of the code under test."""
import os, stat, tempfile, zlib
from hypothesis import strategies as st
from vh import core, media
from vh.core import Violation, Reject, check, Leg
from resample import srs as RS

STUB = None
FP = b"AQAAFINGERPRINT"


def setup_fpcalc():
    """A stand-in for the external fingerprint program (its result is data to the code under test)."""
    global STUB
    if STUB is None:
        d = tempfile.mkdtemp(prefix="fp_")
        p = os.path.join(d, "fpcalc")
        with open(p, "w") as f:
            f.write("#!/bin/sh\necho FILE=x\necho DURATION=123\necho FINGERPRINT=%s\n" % FP.decode())
        os.chmod(p, 0o755)
        STUB = d
    if os.environ["PATH"].split(os.pathsep)[0] != STUB:
        os.environ["PATH"] = STUB + os.pathsep + os.environ["PATH"]


def srs(argv, **kw):
    """In-process call: (exit code, output)."""
    setup_fpcalc()
    rc, o, e = core.call_cli(RS.main, [str(a) for a in argv], "srs")
    return rc, o + e


def names(m, c):
    ext = c.get("ext") or media.EXT[c["fmt"]]
    return c.get("stem", "sample") + ext, "main movie" + ext.lower()


def place(m, c, ctx):
    d = ctx.dir()
    sn, mn = names(m, c)
    sp = core.write(os.path.join(d, "in", sn), m.sample)
    mp = core.write(os.path.join(d, "main", mn), m.main)
    os.mkdir(os.path.join(d, "out"))
    return d, sp, mp


def facts(m, c):
    """What the container description says the SRS must record."""
    return {no: (len(m.tracks[no]), m.tracks[no]) for no in m.present}


HOW = st.fixed_dictionaries({"check": st.booleans(), "m": st.booleans(), "big": st.integers(0, 4).map(lambda x: x == 0),
                             "to": st.sampled_from(["file", "file", "dir", "cwd"]), "old": st.booleans(), "rel": st.integers(0, 3).map(lambda x: x == 0)})
STEM = st.sampled_from(["sample", "group-movie-sample", "a.b.c", "S\u00e4mple", "x y (1)", "\u65e5\u672c"])


@st.composite
def case(draw, fmt):
    c = draw(media.CASE[fmt]())
    c["how"] = draw(HOW)
    c["stem"] = draw(STEM)
    return c


def make(c, ctx, m, d, sp, mp):
    """Create the SRS; returns its path."""
    h = c["how"]
    out = os.path.join(d, "out")
    stem = os.path.splitext(os.path.basename(sp))[0]
    p = os.path.join(out, stem + ".srs")
    argv = [sp, "-y"]
    cwd = os.getcwd()
    if h["to"] == "file":
        p = os.path.join(out, "made.srs")
        if h["rel"]:
            os.chdir(out)
            argv += ["-o", "made.srs"]
        else:
            argv += ["-o", p]
    elif h["to"] == "dir":
        argv += ["-o", out]
    else:
        os.chdir(out)
    if h["check"]:
        argv += ["-c", mp]
    if h["big"]:
        argv += ["-b"]
    if h["old"]:
        core.write(p, b"old content")
    try:
        rc, txt = srs(argv)
    finally:
        os.chdir(cwd)
    check(rc == 0, "creating the SRS failed with exit code %r: %s", rc, txt[-500:])
    check(sorted(os.listdir(out)) == [os.path.basename(p)], "creation left %r", sorted(os.listdir(out)))
    return p


def rebuild(c, ctx, d, p, movie, want, extra=(), name="reb"):
    """Rebuild from the SRS and compare with the sample."""
    out = os.path.join(d, name)
    rc, txt = srs([p, movie, "-y", "-o", out] + list(extra))
    check(rc == 0, "rebuilding failed with exit code %r: %s", rc, txt[-600:])
    got = core.tree(out)
    check(sorted(got) == sorted(want), "rebuild made %r, expected %r", sorted(got), sorted(want))
    for n in want:
        check(got[n] == want[n], "rebuilt %s differs from the sample: %s", n, core.first_diff(got[n], want[n]))
    return txt


def roundtrip(c, ctx, m):
    d, sp, mp = place(m, c, ctx)
    p = make(c, ctx, m, d, sp, mp)
    check(core.read(sp) == m.sample and core.read(mp) == m.main, "creating the SRS changed its input")
    os.rename(os.path.join(d, "in"), os.path.join(d, "in_gone"))
    rebuild(c, ctx, d, p, mp, {os.path.basename(sp): m.sample}, ["-m"] if c["how"]["m"] else [])
    check(core.read(mp) == m.main, "rebuilding changed the main file")


def domain(c, m):
    """Cases the property speaks about."""
    if not m.present:
        raise Reject("no stream")
    if "tracks" in c:
        for no in m.tracks:
            if m.tracks[no] and not m.uniq[no]:
                raise Reject("signature not unique")
    if not any(m.tracks.values()):
        raise Reject("no data")


def legs(fmt, extra=None, label=None, quick=3000, thorough=90000):
    def run(c, ctx):
        m = media.build(c)
        domain(c, m)
        if extra:
            extra(c, m)
        if label:
            label(c, m, ctx)
        n = sum(1 for no in m.tracks if m.tracks[no])
        ctx.nontrivial(n >= 1 and (n > 1 or len(m.tracks[m.present[0]]) > 256 or m.main != m.sample))
        ctx.label("check" if c["how"]["check"] else "nocheck", "tracks:%d" % n)
        roundtrip(c, ctx, m)
    return [Leg("rebuild", lambda: case(fmt), run, quick=quick, thorough=thorough, shards=8)]
