"""A03: recursive scanning finds every release and treats each one on its own."""
import os
from hypothesis import strategies as st
from vh import core, gen, auto as A, content, rarw, srr as R
from vh.core import Leg, check

RULE = ("a generated folder tree with releases (some incomplete), release packs, category folders and other folders is scanned recursively; "
        "non-trivial when it has at least three releases")
ASSUMPTIONS = ["release folders hold an nfo or SFV in their root or SFVs in disc folders, have no spaces and do not contain other releases"]

CAT = ["TV", "XviD", "my stuff", "a/b", "TV/Pack.S02-GRP", "2010", "Show.S01E01-GRP.Packed", "X-Y2", "X-Y 2"]
NAMES = ["Show.S01E01-GRP", "Show.S01E01-GRPB", "Show.S01E01", "Movie.2010.DVDRip-ABC", "movie.2010.dvdrip-abc", "App_v1-XYZ", "X-Y", "Show.S01E01-GRP.EXTRAS"]


@st.composite
def rls(draw):
    kind = draw(st.sampled_from(["root", "root", "root", "discs", "disc2", "nfo", "folders"]))
    s = draw(A.sets(subs=[("CD1", "CD2")] if kind == "discs" else [("CD2",), ("DISC_1",)] if kind == "disc2" else
                    [("Left", "Right"), ("a_1", "a_2", "b_1"), tuple("d%d" % i for i in range(10))] if kind == "folders" else [("",)], hi=300, max_vols=3)) if kind != "nfo" else None
    return {"cat": draw(st.sampled_from([""] + CAT)), "name": draw(st.sampled_from(NAMES)), "kind": kind, "sets": s,
            "nfo": kind == "nfo" or draw(st.booleans()), "only": draw(st.booleans()), "nfoname": draw(st.sampled_from(["grp.nfo", "GRP.NFO"])),
            "sample": kind != "folders" and draw(st.integers(0, 3)) == 0, "proof": kind != "folders" and draw(st.integers(0, 3)) == 0,
            "hurt": draw(st.sampled_from([None, None, None, "missing", "empty", "text"])), "c": draw(gen.content(1, 50))}


@st.composite
def case(draw):
    return {"rls": draw(st.lists(rls(), min_size=1, max_size=5)), "noise": draw(st.lists(st.sampled_from(["empty", "my docs/notes.txt", "TV/readme.txt", "2010/x y/z.nfo", "Sample/y.mkv", "lone.txt", "2010/imdb.nfo", "a/movie.nfo"]), max_size=3)),
            "packnfo": draw(st.booleans()), "packname": draw(st.sampled_from(["site.nfo", "SITE.NFO"])), "packempty": draw(st.booleans()), "to": draw(st.sampled_from(["o", "o", "d"])), "best": draw(st.booleans()), "two": draw(st.booleans())}


def place(c, root):
    out = {}
    used = set()
    for x in c["rls"]:
        p = (x["cat"] + "/" if x["cat"] else "") + x["name"]
        if p.lower() in used:
            continue
        if c["to"] == "o" and any(os.path.basename(q) == x["name"].lower() for q in used):
            continue
        used.add(p.lower())
        r = A.new(os.path.join(root, p))
        if x["sets"]:
            A.add_sets(r, x["sets"], {})
        if x["nfo"]:
            A.put(r, x["nfoname"], content.data(x["c"]))
            if not x["only"]:
                A.put(r, "other.txt", b"x")
            r.stored[x["nfoname"]] = content.data(x["c"])
        if x["kind"] == "disc2":
            A.put(r, "CD1/readme.txt", b"x")
        if x["sample"]:
            A.put(r, "Sample/readme.nfo", b"abc")
            r.stored["Sample/readme.nfo"] = b"abc"
        if x["proof"]:
            A.put(r, "Proof/p.jpg", b"abcd")
            r.stored["Proof/p.jpg"] = b"abcd"
        r.bad = False
        if x["hurt"] and r.vols:
            n = r.vols[-1][-1][0]
            q = os.path.join(r.root, n)
            os.unlink(q)
            if x["hurt"] == "empty":
                core.write(q, b"")
            elif x["hurt"] == "text":
                core.write(q, b"This is not an archive. " * 5)
            r.bad = True
        out[p] = r
    return out


def run(c, ctx):
    d = ctx.dir()
    root = os.path.join(d, "files")
    os.makedirs(root)
    rs = place(c, root)
    for n in c["noise"]:
        if n == "empty":
            os.makedirs(os.path.join(root, n), exist_ok=True)
        elif not os.path.exists(os.path.join(root, n)):
            core.write(os.path.join(root, n), b"note")
    packs = sorted({os.path.dirname(p) for p in rs if "Pack" in os.path.dirname(p)})
    if c["packnfo"]:
        for p in packs:
            core.write(os.path.join(root, p, c["packname"]), b"x")
            if c["packempty"]:
                os.makedirs(os.path.join(root, p, "Next-GRP"))
    before = core.tree(root)
    # the listing
    res = A.run(["--list-releases", "--show-paths", root])
    check(res.rc == 0 and not res.exc, "listing failed: %r", res)
    lines = [os.path.relpath(x, root) for x in res.out.splitlines()]
    check(sorted(lines) == sorted(rs), "the listed releases are %r, expected %r", lines, sorted(rs))
    res = A.run(["--missing-nfos", "--show-paths", root])
    want = sorted(p for p, r in rs.items() if not any(n.lower() == "grp.nfo" for n in r.stored))
    check(res.rc == 0 and sorted(os.path.relpath(x, root) for x in res.out.splitlines()) == want, "--missing-nfos: %r, expected %r", res, want)
    res = A.run(["--missing-samples", root])
    want = sorted(os.path.basename(p) for p, r in rs.items())
    check(res.rc == 0 and sorted(res.out.splitlines()) == want, "--missing-samples: %r, expected %r", res, want)
    # the scan
    out, tmp, solo = (os.path.join(d, x) for x in ("out", "tmp", "solo"))
    for x in (out, tmp, solo):
        os.makedirs(x)
    base = ["-t", tmp] + ["--best"] * c["best"]
    ins = [root]
    if c["two"]:
        ins = [os.path.join(root, x) for x in sorted(os.listdir(root)) if os.path.isdir(os.path.join(root, x)) and os.listdir(os.path.join(root, x))]
    res = A.run(base + ["-r"] + (["-d"] if c["to"] == "d" else ["-o", out]) + ins, cwd=d)
    check(not res.exc, "the tool failed: %r", res)
    bad = sorted(p for p in rs if rs[p].bad)
    check(res.rc == (1 if bad else 0), "exit code %d with incomplete releases %r: %r", res.rc, bad, res)
    for p in bad:
        check(os.path.join(root, p) in res.out.split("some SRRs failed to create!")[-1], "the failed release %s is not reported: %r", p, res)
    check(os.listdir(tmp) == [], "left in the temporary directory: %r", os.listdir(tmp))
    after = core.tree(root)
    made = {}
    for p in rs:
        n = os.path.basename(p) + ".srr"
        if c["to"] == "d":
            made[p] = after.pop(p + "/" + n, None)
        else:
            made[p] = core.read(os.path.join(out, n)) if os.path.exists(os.path.join(out, n)) else None
    check(after == before, "the releases changed: %r", sorted(set(after) ^ set(before)))
    check(len(os.listdir(out)) == (0 if c["to"] == "d" else len(rs) - len(bad)), "the output folder has %r", os.listdir(out))
    for p, r in sorted(rs.items()):
        if r.bad:
            check(made[p] is None, "an SRR was made of the incomplete release %s", p)
            continue
        check(made[p] is not None, "no SRR was made of %s", p)
        v = A.check_volumes(r, made[p])
        got, _ = A.check_stored(r, v)
        A.check_order(r, got)
    for p in sorted(rs)[:2]:
        res = A.run(base + ["-o", solo, os.path.join(root, p)], cwd=d)
        check(not res.exc and res.rc == int(rs[p].bad), "alone, %s ended with %r", p, res)
        q = os.path.join(solo, os.path.basename(p) + ".srr")
        one = core.read(q) if os.path.exists(q) else None
        check(one == made[p], "the SRR of %s depends on the other releases", p)
        if one is not None:
            os.unlink(q)
    ctx.nontrivial(len(rs) > 2)
    ctx.label("releases:%d" % len(rs), "bad:%d" % len(bad), c["to"], *(["pack"] if packs else []), *(x["kind"] for x in c["rls"]))


LEGS = [Leg("tree", case, run, quick=400, thorough=16000, shards=8)]
