"""A01: pyrescene.py makes a complete SRR of a release directory."""
import os, zlib
from hypothesis import strategies as st
from vh import core, gen, media, rarw, auto as A, content, srr as R, srs as S
from vh.core import Leg, check
from vh import autokinds as K

RULE = ("a generated release directory (RAR sets in the root or disc folders with their SFVs, samples, proofs, text files, unwanted files) is given to the tool; "
        "non-trivial when it has RAR volumes and at least three files to store, one of them an SRS")
ASSUMPTIONS = ["samples are in the domain of S01-S07"]


@st.composite
def case(draw):
    fs = draw(st.lists(A.plain(A.KEEP), max_size=7)) + draw(st.lists(A.plain(A.SKIP), max_size=4))
    return {"rel": draw(st.sampled_from(A.MOVIE_RLS)), "parent": draw(st.sampled_from(["", "", "in", "my samples", "Proof/x", "Subs"])),
            "sets": draw(A.sets()), "files": fs,
            "samples": draw(st.lists(A.sample(), max_size=3)),
            "proof": draw(st.lists(A.proofrar(), max_size=1)), "big": draw(st.lists(A.bigimage(), max_size=1)),
            "twins": draw(st.lists(gen.content(0, 60), min_size=2, max_size=2)) if draw(st.integers(0, 7)) == 0 else None,
            "oldsrs": draw(st.lists(st.tuples(st.sampled_from(["Sample/old.srs", "x.srs", "Sample/grp-sample.srs", "CD1/y.SRS", "sample/sample.srs", "z/z.srs"]), gen.content(1, 60)), max_size=3)),
            "opts": {"s": draw(st.booleans()), "c": draw(st.booleans()), "v": draw(st.integers(0, 3)) == 0, "best": draw(st.integers(0, 5)) == 0,
                     "to": draw(st.sampled_from(["o", "o", "d", "cwd"])), "i": draw(st.integers(0, 4)) == 0, "isdb": draw(st.booleans()),
                     "nosrs": draw(st.integers(0, 9)) == 0, "old": draw(st.sampled_from([None, None, "y", "n"])), "rel": draw(st.booleans()),
                     "unrar": draw(st.booleans()), "x": draw(st.integers(0, 5)), "r": draw(st.integers(0, 4)) == 0, "report": draw(st.integers(0, 5)) == 0}}


def place(c, root):
    r = A.new(root)
    o = c["opts"]
    ms, mains = [], {}
    for s in c["samples"]:
        m = A.valid(s["c"])
        if not m or not A.mixable([x[1] for x in ms], m):
            continue
        ext = s["c"].get("ext") or media.EXT[s["c"]["fmt"]]
        k = len(ms) % len(c["sets"]["sets"])
        if s["main"] == "set" and k not in mains:
            mains[k] = ("main.%d%s" % (len(ms), ext.lower()), m.main)
        ms.append((s, m, ext))
    A.add_sets(r, c["sets"], mains)
    byname = {}
    for s, m, ext in ms:
        p = (s["dir"] + "/" if s["dir"] else "") + s["stem"] + ext
        data = {None: m.sample, "empty": b"", "junk": media.rnd(50, 1)}[s["bad"]]
        if s["c"]["fmt"] == "stream" and s["bad"] == "junk":
            data, s = m.sample, dict(s, bad=None)
        if not A.put(r, p, data):
            continue
        byname.setdefault(p.rsplit(".", 1)[0], []).append((p, s, m))
    if not o["nosrs"]:
        for b, xs in byname.items():
            for p, s, m in xs:
                n = p if len(xs) > 1 else b
                if s["bad"] is None:
                    r.srs[n + ".srs"] = (s["c"], m, os.path.basename(p))
                elif s["bad"] == "junk":
                    r.txt.append(p + ".txt")
    for x in c["proof"]:
        A.add_proofrar(r, x)
    for x in c["big"]:
        near = any(n.startswith("the.film.x264") for n in r.sfvs)
        A.add_bigimage(r, x if near else dict(x, like=False), o["i"], "the.film.x264")
    if c["twins"]:
        A.add_twins(r, ["Read.Me.nfo", "read.me.NFO"], [content.data(x) for x in c["twins"]])
    for n, x in c["oldsrs"]:
        if A.put(r, n, content.data(x)) and n not in r.srs:
            r.stored[n] = content.data(x)
    for f in c["files"]:
        d = content.data(f["c"])
        if A.put(r, f["path"], d):
            if f["role"] in A.KEEP or (o["i"] and f["role"] == "smallimg"):
                r.stored[f["path"]] = d
    return r


def argv(c, d, root):
    o = c["opts"]
    out = os.path.join(d, "out")
    a = ["-t", os.path.join(d, "tmp")]
    a += ["--best"] if o["best"] else ["-s"] * o["s"] + ["-c"] * o["c"] + ["-v"] * o["v"]
    a += ["-i"] * o["i"] + ["--no-srs"] * o["nosrs"] + ["--no-isdb"] * (not o["isdb"]) + ["-r"] * o["r"]
    if o["to"] == "o":
        a += ["-o", out]
    elif o["to"] == "d":
        a += ["-d"]
        out = root
    if o["old"]:
        a += ["-" + o["old"]]
    return a + [os.path.relpath(root, os.path.join(d, "out")) if o["rel"] else root], out


def run(c, ctx):
    d = ctx.dir()
    o = c["opts"]
    root = os.path.join(d, c["parent"], c["rel"])
    r = place(c, root)
    os.makedirs(os.path.join(d, "out")), os.makedirs(os.path.join(d, "tmp"))
    if o["r"] and not any(os.path.dirname(n) == "" and n[-4:].lower() in (".nfo", ".sfv") for n in r.stored):
        o = dict(o, r=False)
        c = dict(c, opts=o)
    if o["r"] and len([n for n in os.listdir(root) if os.path.isfile(os.path.join(root, n))]) == 1:
        core.write(os.path.join(root, "second.file"), b"x")
    before = core.tree(root)
    args, out = argv(c, d, root)
    srr = os.path.join(out, c["rel"] + ".srr")
    skip = {}
    if o["x"] and r.stored:
        n = sorted(r.stored)[o["x"] % len(r.stored)]
        skip = {k for k in list(r.stored) + list(r.srs) + r.txt if os.path.basename(k) == os.path.basename(n)}
        args = ["-x", os.path.basename(n)] + args
        if o["i"]:
            n2 = sorted(r.stored)[-1]
            args = ["--skip-list", core.write(os.path.join(d, "list.txt"), b"nothing.here\n" + os.path.basename(n2).encode() + b"\n")] + args
            skip |= {k for k in list(r.stored) + list(r.srs) + r.txt if os.path.basename(k) == os.path.basename(n2)}
        if o["x"] == 2:
            args = ["--skip-regex", "(.*/)?zz[.]nfo$"] + args
        if o["x"] == 4:          # the pattern is for the path, from its start
            args = ["--skip-regex", "[.]nfo$|fo$|(?i:sample)/"] + args
            skip |= {k for k in list(r.stored) + list(r.srs) + r.txt if k.lower().startswith("sample/")}
        if o["x"] == 3:
            import re
            args = ["--skip-regex", "^(.*/)?" + re.escape(os.path.basename(n)) + "$"] + args
            skip |= {k for k in list(r.stored) + list(r.srs) + r.txt if os.path.basename(k).lower() == os.path.basename(n).lower()}
    if o["old"]:
        core.write(srr, b"an older SRR")
    res = A.run(args, cwd=os.path.join(d, "out"), unrar=o["unrar"])
    check(not res.exc, "the tool failed: %r", res)
    check(res.rc == 0, "exit code %d: %r", res.rc, res)
    after = core.tree(root)
    if o["to"] == "d":
        after.pop(c["rel"] + ".srr", None)
    check(after == before, "the release changed: %r", sorted(set(after) ^ set(before)))
    check(os.listdir(os.path.join(d, "tmp")) == [], "left in the temporary directory: %r", os.listdir(os.path.join(d, "tmp")))
    made = sorted(os.listdir(os.path.join(d, "out")))
    check(made == ([] if o["to"] == "d" else [c["rel"] + ".srr"]), "the output directory has %r", made)
    check(os.path.isfile(srr), "no SRR was made")
    b = core.read(srr)
    if o["old"] == "n":
        check(b == b"an older SRR", "an existing SRR was replaced against the user's wish")
        ctx.label("kept")
        return
    v = A.check_volumes(r, b)
    for n in skip:
        r.stored.pop(n, None)
        r.srs.pop(n, None)
        if n in r.txt:
            r.txt.remove(n)
    got, st_ = A.check_stored(r, v)
    A.check_order(r, got)
    A.check_srs(r, st_, d)
    t = A.rebuild_all(r, srr, d)
    want = {n: raw for vs in r.vols for n, raw, _m in vs}
    want.update(st_)
    R.same_tree(t, want, "rebuild from the SRR")
    ctx.nontrivial(len(r.stored) + len(r.srs) >= 3 and bool(r.srs) and sum(len(x) for x in r.vols) > 1)
    ctx.label(o["to"], "sets:%d" % len(r.vols), "srs:%d" % len(r.srs), *(["best"] if o["best"] else []), *(["skip"] if skip else []),
              *(["recursive"] if o["r"] else []), *(["collision"] if any(n[:-4].lower().endswith((".avi", ".mkv", ".mp4", ".wmv")) for n in r.srs) else []),
              *(["failed-sample"] if r.txt else []), *(["proof-rar"] if c["proof"] else []), *(["twins"] if c["twins"] else []), *(f["role"] for f in c["files"]))


OTHER = bytes(rarw.build({"base": "x", "naming": "single", "caps": [1 << 40], "end": "std", "files": [{"name": "other.avi", "c": {"k": "rand", "n": 90, "s": 1}}]})[0][0].raw)


@st.composite
def compressed_case(draw):
    return {"rel": draw(st.sampled_from(A.MOVIE_RLS)), "sets": draw(A.sets(hi=400, max_vols=4)), "files": draw(st.lists(A.plain(A.KEEP), max_size=3)),
            "m": draw(st.integers(0, 5)), "which": draw(st.integers(0, 7)), "how": draw(st.sampled_from(["-c", "--compressed", "--best", "-csv", "", "-s", "-sv"])),
            "isdb": draw(st.booleans()), "old": draw(st.sampled_from([None, "y"])), "to": draw(st.sampled_from(["o", "d"])), "more": draw(st.booleans())}


def compressed_run(c, ctx):
    """An archive of the release is compressed: only on demand."""
    d = ctx.dir()
    up = os.path.join(d, "in")
    root = os.path.join(up, c["rel"])
    r = A.new(root)
    fs = [f for x in c["sets"]["sets"] for f in x["set"]["files"] if f["c"]["n"]]
    packed = False
    if fs and c["m"]:
        f = fs[c["which"] % len(fs)]
        f["method"] = 0x30 + c["m"]
        packed = True
    A.add_sets(r, c["sets"], {})
    for f in c["files"]:
        b = content.data(f["c"])
        if A.put(r, f["path"], b):
            r.stored[f["path"]] = b
    other = os.path.join(up, "Zz.Other.2001.DVDRip.XviD-GRP")
    if c["more"]:
        core.write(os.path.join(other, "other.nfo"), b"an nfo")
        core.write(os.path.join(other, "grp-other.sfv"), b"grp-other.rar %08x\r\n" % zlib.crc32(OTHER))
        core.write(os.path.join(other, "grp-other.rar"), OTHER)
    out = os.path.join(d, "out")
    os.makedirs(out), os.makedirs(os.path.join(d, "tmp"))
    before = core.tree(up)
    dest = root if c["to"] == "d" else out
    srr = os.path.join(dest, c["rel"] + ".srr")
    if c["old"]:
        core.write(srr, b"an older SRR")
    args = ["-t", os.path.join(d, "tmp")] + ([c["how"]] if c["how"] else []) + ["--no-isdb"] * (not c["isdb"]) + (["-o", out] if c["to"] == "o" else ["-d"])
    args += (["-" + c["old"]] if c["old"] else []) + (["-r", up] if c["more"] else [root])
    res = A.run(args, cwd=d)
    check(not res.exc, "the tool failed: %r", res)
    after = core.tree(up)
    rel = lambda n: os.path.relpath(n, up)
    if c["to"] == "d":
        after.pop(rel(srr), None)
        after.pop(rel(os.path.join(other, os.path.basename(other) + ".srr")), None)
    check(after == before, "the releases changed: %r", sorted(set(after) ^ set(before)))
    check(os.listdir(os.path.join(d, "tmp")) == [], "left in the temporary directory")
    want = [os.path.basename(srr)]
    ok = not packed or c["how"] in ("-c", "--compressed", "--best", "-csv")
    if ok:
        v = A.check_volumes(r, core.read(srr))
        got, _ = A.check_stored(r, v)
        check(res.rc == 0, "exit code %d: %r", res.rc, res)
    elif c["old"]:
        check(core.read(srr) == b"an older SRR", "the SRR was replaced while none could be made")
    else:
        check(not os.path.exists(srr), "an SRR was made of a compressed archive without being asked")
    if c["more"]:
        o = os.path.join(other if c["to"] == "d" else out, os.path.basename(other) + ".srr")
        check(os.path.isfile(o), "no SRR of the other release: %r", res)
        want.append(os.path.basename(o))
    made = os.listdir(out)
    check(set(made) <= set(want), "the output directory has %r", made)
    ctx.nontrivial(packed)
    ctx.label("asked" if c["how"] in ("-c", "--compressed", "--best", "-csv") else "not-asked", "packed" if packed else "plain", *(["more"] if c["more"] else []))


LEGS = [Leg("release", case, run, quick=800, thorough=20000, shards=8), Leg("kinds", K.case, K.run, quick=1600, thorough=20000, shards=8),
        Leg("compressed", compressed_case, compressed_run, quick=300, thorough=6000, shards=8)]
