"""S09: a wrong main file never yields a claimed success."""
import builtins, io, os, sys, zlib
from hypothesis import strategies as st
from vh import core, media, mut, content, srs as S, srsfile as F
from vh.core import Leg, check, Reject
from rescene import utility as RU

RULE = ("a sample is made into an SRS and rebuilt against a main file that is mutated, cut, another movie's, another type's, the SRS or the sample itself; "
        "non-trivial when the main file offered is not the right one and the rebuild got as far as reading the SRS")
ASSUMPTIONS = ["no accidental CRC-32 collision (2^-32 per case)"]

KINDS = ["mut", "mut", "mut", "data", "data", "data", "data", "cut", "other", "othertype", "sample", "srs", "empty", "dir", "decoy", "missing", "swap", "drop"]


@st.composite
def case(draw):
    fmt = draw(st.sampled_from(sorted(media.CASE)))
    c = {"c": draw(S.case(fmt)), "kind": draw(st.sampled_from(KINDS)), "muts": draw(mut.mutations(3)),
         "pos": draw(st.lists(st.tuples(st.integers(0, 2 ** 20), st.integers(0, 255)), min_size=1, max_size=3)),
         "old": draw(st.sampled_from([None, None, "old", "old", "same", "ro"])), "k": draw(st.integers(0, 3)) == 0, "m": draw(st.booleans()),
         "answer": draw(st.sampled_from(["-y", "-y", "-y", "y", "n"]))}
    if c["kind"] == "other":
        c["c2"] = draw(media.CASE[fmt]())
    if c["kind"] == "othertype":
        c["c2"] = draw(media.CASE[draw(st.sampled_from([f for f in sorted(media.CASE) if f != fmt]))]())
    return c


def wrong_main(c, m, srs):
    k = c["kind"]
    b = m.main
    if k == "mut":
        b = mut.apply(b, c["muts"], [0, 4, 12, len(b) // 2, max(0, len(b) - 200)])
    elif k == "data":
        b = bytearray(b)
        spots = []
        for no in m.present:
            t = m.tracks[no]
            for i in range(0, len(t), max(1, len(t) // 24)):
                q = m.main.find(t[i:i + 12])
                if q >= 0:
                    spots.append(q)
        for p, v in c["pos"]:
            i = spots[p % len(spots)] if spots else p % len(b)
            b[i] ^= (v or 1)
        b = bytes(b)
    elif k == "cut":
        b = b[:c["pos"][0][0] % len(b)]
    elif k in ("other", "othertype"):
        b = media.build(c["c2"]).main
    elif k == "sample":
        b = m.sample
    elif k == "srs":
        b = srs
    elif k == "empty":
        b = b""
    elif k == "decoy":
        t = m.tracks[m.present[0]][:256]
        q = m.main.find(t)
        p = c["pos"][0][0] % (q + 1) if q >= 0 else 0
        b = b[:p] + t + b[p:]
    elif k == "swap":
        p, n = c["pos"][0][0] % len(b), 1 + c["pos"][0][1]
        b = b[:p] + b[p + n:p + 2 * n] + b[p:p + n] + b[p + 2 * n:]
    elif k == "drop":
        p, n = c["pos"][0][0] % len(b), 1 + c["pos"][-1][1]
        b = b[:p] + b[p + n:]
    return b


def run(c, ctx):
    m = media.build(c["c"])
    if not m.present or not any(m.tracks.values()):
        raise Reject("no stream")
    h = c["c"]["how"]
    h["check"] = False
    if c["c"]["fmt"] == "stream":
        from props import s07_stream
        if s07_stream.other_type(m.sample):
            raise Reject("other type")
    d, sp, mp = S.place(m, c["c"], ctx)
    p = S.make(c["c"], ctx, m, d, sp, mp)
    name = os.path.basename(sp)
    srs = core.read(p)
    os.rename(os.path.join(d, "in"), os.path.join(d, "in_gone"))
    w = wrong_main(c, m, srs)
    ctx.label(c["c"]["fmt"], c["kind"])
    if c["kind"] == "dir":
        os.unlink(mp)
        os.mkdir(mp)
    elif c["kind"] == "missing":
        os.unlink(mp)
    else:
        core.write(mp, w)
    out = os.path.join(d, "reb")
    result = os.path.join(out, name)
    old = {"old": b"older file", "same": m.sample, "ro": b"read only"}.get(c["old"])
    if old is not None:
        core.write(result, old)
        if c["old"] == "ro":
            os.chmod(result, 0o444)
    argv = [p, mp, "-o", out] + (["-k"] if c["k"] else []) + (["-m"] if c["m"] else [])
    if c["answer"] == "-y":
        argv.append("-y")
    stdin = sys.stdin
    sys.stdin = io.StringIO("maybe\n" + c["answer"] + "\n")
    before = set(os.listdir(d))
    try:
        rc, txt = S.srs(argv)
    finally:
        sys.stdin = stdin
    got = core.tree(out) if os.path.isdir(out) else {}
    asked = old is not None and c["answer"] != "-y"
    ctx.label("rc:%s" % rc)
    ctx.nontrivial(w != m.main or c["kind"] in ("dir", "missing"))
    check(set(os.listdir(d)) - before <= {"reb"}, "files next to the output folder: %r", sorted(set(os.listdir(d)) - before))
    check(core.read(p) == srs, "the SRS changed")
    if os.path.isfile(mp):
        check(core.read(mp) == w, "the main file changed")
    left = sorted(set(got) - {name})
    check(not left, "exit code %r left %r", rc, left)
    if asked and c["answer"] == "n":
        check(rc != 0, "success after the answer no")
        check(got.get(name) == old, "existing file changed although the answer was no")
    if rc == 0:
        check(got.get(name) == m.sample, "success reported, but the result is not the sample: %s", core.first_diff(got.get(name) or b"", m.sample))
        check("Successfully rebuilt" in txt, "no success message")
    else:
        check("Successfully rebuilt" not in txt, "success message with exit code %r", rc)
        if c["k"] and rc == 5:
            check(name in got, "-k kept nothing")
        else:
            check(got.get(name) == old, "failed rebuild (exit code %r): %s", rc, "existing file changed" if old is not None else "left a file")


@st.composite
def check_case(draw):
    fmt = draw(st.sampled_from(sorted(media.CASE)))
    c = {"c": draw(S.case(fmt)), "kind": draw(st.sampled_from(["flip", "flip", "flip", "cut", "other", "other"])), "t": draw(st.integers(0, 5)),
         "pos": draw(st.one_of(st.integers(0, 255), st.sampled_from([0, 1, 255, 254, 128]))), "v": draw(st.integers(1, 255)), "old": draw(st.booleans())}
    if c["kind"] == "other":
        c["c2"] = draw(media.CASE[fmt]())
    return c


def check_run(c, ctx):
    """A sample is only said to be in a main file that holds the start of each of its tracks."""
    m = media.build(c["c"])
    if not m.present or not any(m.tracks.values()):
        raise Reject("no stream")
    fmt = c["c"]["fmt"]
    if fmt == "stream":
        from props import s07_stream
        if s07_stream.other_type(m.sample):
            raise Reject("other type")
    nos = [no for no in m.present if m.tracks[no]]
    no = nos[c["t"] % len(nos)]
    sig = m.tracks[no][:256]
    if c["kind"] == "other":
        o = media.build(c["c2"])
        wrong, full = o.main, o.full.get(no, b"")
        bad = sig not in full
    else:
        i = c["pos"] % len(sig)
        # the byte of the signature: found through its surroundings in the main file
        k = 12
        a = max(0, min(i, len(sig) - k))
        piece = sig[a:a + k]
        q = m.main.find(piece)
        if len(piece) < 4 or q < 0 or m.main.find(piece, q + 1) >= 0 or sum(x.count(piece) for x in m.full.values()) != 1 or m.full[no].count(sig) != 1:
            raise Reject("not one place")
        q += i - a
        if c["kind"] == "flip":
            wrong = m.main[:q] + bytes([m.main[q] ^ c["v"]]) + m.main[q + 1:]
            p = m.full[no].find(sig) + i
            full = m.full[no][:p] + bytes([m.full[no][p] ^ c["v"]]) + m.full[no][p + 1:]
            bad = sig not in full
        else:
            wrong, bad = m.main[:q], True
    if not bad:
        raise Reject("still there")
    d, sp, mp = S.place(m, c["c"], ctx)
    core.write(mp, wrong)
    out = os.path.join(d, "out")
    if c["old"]:
        core.write(os.path.join(out, "x.srs"), b"old")
    before = core.tree(out)
    rc, txt = S.srs([sp, "-y", "-c", mp, "-o", os.path.join(out, "x.srs")])
    ctx.nontrivial(True)
    ctx.label(fmt, c["kind"], "rc:%s" % rc)
    check(rc != 0 and "All tracks located" not in txt, "track %r (%d bytes of signature) is not in the main file, but the check says it is: %s", no, len(sig), txt[-300:])
    check(core.tree(out) == before, "the failed check changed the output: %r", sorted(core.tree(out)))
    check(core.read(sp) == m.sample and core.read(mp) == wrong, "input changed")


LEGS = [Leg("wrong", case, run, quick=6000, thorough=150000, shards=8), Leg("check", check_case, check_run, quick=3000, thorough=60000, shards=8)]
