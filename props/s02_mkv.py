"""S02: MKV samples rebuild byte-identically from SRS + main file."""
from vh import srs as S, walk
from vh.core import Reject

RULE = "a sample with at least one non-empty track that has two tracks, more than 256 bytes or another layout than the main file"
ASSUMPTIONS = ["the first 256 bytes of each sample track occur once in the main track, starting with a frame"]


def extra(c, m):
    for no in m.present:
        if m.tracks[no] and walk.overlapped(m.full[no], m.pieces[no], m.start[no], min(256, len(m.tracks[no])), False):
            raise Reject("overlapping partial match")


def label(c, m, ctx):
    for s, d in zip(("main", "smp"), m.strips):
        if d:
            ctx.label("strip:" + s)
    if m.strips[0] and m.strips[1] and m.strips[0] != m.strips[1]:
        ctx.label("strip:differ")
    if c.get("att"):
        ctx.label("attachments")
    for k in c["smp"]["lace"]:
        ctx.label("lace%d" % (k % 4))


LEGS = S.legs("mkv", extra, label)


# ----- streams that repeat their encoder settings at every key frame (x265)
import random
from hypothesis import strategies as st
from vh import media
from vh.core import Leg


@st.composite
def settings_case(draw):
    k = draw(st.integers(2, 5))
    i = draw(st.integers(0, k - 1))
    return {"k": k, "i": i, "n": draw(st.integers(1, min(2, k - i))), "s": draw(st.integers(0, 99)), "text": draw(st.sampled_from([256, 300, 1000, 5000, 12000])),
            "afirst": draw(st.booleans()), "own": draw(st.booleans()), "extra": draw(st.integers(0, 3000)), "good": draw(st.sampled_from([1, 1, 1, 2, 0])),
            "bad": draw(st.sampled_from([1, 1, 1, 2])), "lay": [draw(media.mkv_layout()), draw(media.mkv_layout())], "check": draw(st.booleans()), "m": draw(st.booleans()),
            "mix": draw(st.booleans())}


def settings_run(c, ctx):
    r = random.Random(c["s"])
    text = ("x265 (build 130) - options: " + "".join(r.choice("abcdefgh =0123456789/") for _ in range(c["text"]))).encode()[:c["text"]]
    size = 1000001 // c["n"] + c["extra"]
    bad = [1, 4][:c["bad"]]
    good = [2, 3][:c["good"]]
    order = []
    for g in range(c["k"]):
        v, a = [], []
        for no in bad:
            v += [(no, text)] if c["own"] else [(no, text + (r.randbytes(40) if g else b""))]
            left = size
            while left > 0:
                f = r.randbytes(min(left, 400000))
                v.append((no, b"\xff" + f[1:]))
                left -= len(f)
        for no in good:
            a += [(no, r.randbytes(1 + r.randrange(600))) for _ in range(3)]
        if c["mix"]:            # the sound lies between the pictures
            h = len(v) // 2
            order.append(v[:1] + a + v[1:] if not c["afirst"] else a[:1] + v[:h] + a[1:] + v[h:])
        else:
            order.append(a + v if c["afirst"] else v + a)
    smp = order[c["i"]:c["i"] + c["n"]]
    flat = lambda gs: [x for g in gs for x in g]
    tr = [(no, None) for no in bad + good]
    m = type("M", (), {})()
    lays = [dict(l, lace=[0]) for l in c["lay"]]
    m.main = media.mkv_mux(flat(order), lays[0], c, tr, [], {})
    m.sample = media.mkv_mux(flat(smp), lays[1], c, tr, [], {})
    how = {"check": c["check"], "big": False, "to": "file", "old": False, "rel": False, "m": c["m"]}
    c = dict(c, fmt="mkv", how=how, stem="sample")
    ctx.nontrivial(c["i"] > 0)
    ctx.label("gop%d" % c["i"], "good%d" % c["good"], "bad%d" % c["bad"])
    S.roundtrip(c, ctx, m)


LEGS.append(Leg("settings", settings_case, settings_run, quick=300, thorough=6000, shards=8))
