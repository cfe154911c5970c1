"""A04: SRR files for the subtitle archives of a release."""
import os
from hypothesis import strategies as st
from vh import core, gen, auto as A, content, rarw, srr as R
from vh.core import Leg, check, Reject

RULE = ("generated subtitle archives (one or more sets per SFV, several SFVs, idx files, subtitles packed again in RARs up to three levels) are handled with -v or --vobsubs; "
        "non-trivial when there is a RAR inside a RAR and an idx file")
ASSUMPTIONS = ["archives hold files without directories", "the installed unrar unpacks the archives"]

LANG = st.lists(st.sampled_from(["id: en, index: 0", "id: nl, index: 1", "id: --, index: 2", "palette: 000000", "# id: de", "id:fr", " id: es"]), max_size=5)


@st.composite
def subset(draw, depth, base):
    files = []
    for i in range(draw(st.integers(0 if depth else 1, 2))):
        files.append({"name": "subs%d%s" % (i, draw(st.sampled_from([".idx", ".idx", ".IDX"]))), "idx": draw(LANG), "nl": draw(st.sampled_from(["\n", "\r\n"]))})
    files.append({"name": "subs.sub", "c": draw(gen.content(1, 800))})
    inner = [draw(subset(depth - 1, base + "-" + "in"[j] * (depth + 1))) for j in range(draw(st.integers(0, 2)))] if depth else []
    return {"base": base, "naming": draw(st.sampled_from(["old", "old", "part1", "part2", "single"])), "vols": draw(st.integers(1, 3)), "files": files, "inner": inner,
            "end": draw(st.sampled_from(["std", "full", "crc"])), "upper": draw(st.integers(0, 5)) == 0}


@st.composite
def case(draw):
    sfvs = []
    for k in range(draw(st.integers(1, 2))):
        sub = draw(st.sampled_from(["Subs", "subs", "Subs/CD1", "VobSubs", "Subtitles"]))
        sets = [draw(subset(2, "sub%s-%d" % ("ab"[k], j))) for j in range(draw(st.sampled_from([1, 1, 2])))]
        sfvs.append({"dir": sub, "name": draw(st.sampled_from(["sub%s-0" % "ab"[k], "x%s.subs" % "ab"[k]])), "sets": sets, "hurt": draw(st.sampled_from([None] * 7 + ["missing", "text"])),
                     "extra": draw(st.sampled_from([None, None, "x.nfo 00000000"])), "bare": draw(st.sampled_from([None] * 6 + [".rar", ".part1.rar", ".part01.rar", ".001"]))})
        if sfvs[-1]["bare"]:     # an SFV that doesn't list the archive
            x = sfvs[-1]
            x["sets"], x["hurt"] = x["sets"][:1], None
            x["name"] = x["sets"][0]["base"]
            x["sets"][0].update(upper=False, **{".rar": {"naming": "old"}, ".part1.rar": {"naming": "part1"}, ".part01.rar": {"naming": "part2"}, ".001": {"naming": "num", "vols": 1}}[x["bare"]])
    return {"sfvs": sfvs, "main": draw(A.sets(subs=[("",), ("CD1", "CD2")], hi=400, max_vols=3)), "mode": draw(st.sampled_from(["v", "v", "best", "pack", "single"])),
            "files": draw(st.lists(A.plain(A.KEEP), max_size=2)), "rel": draw(st.sampled_from(["The.Movie.SUBPACK.DVDRip.XviD-GRP", "The.Movie.SUBFiX.DVDRip.XviD-GRP"])),
            "proof": draw(st.sampled_from([None, None, "proof", "same"])), "dirfix": draw(st.integers(0, 3)) == 0, "twin": draw(st.integers(0, 3)) == 0}


class Node:
    pass


def build(s):
    """-> Node: vols, files (all unpacked), idx text, inner nodes"""
    n = Node()
    n.base, n.inner, n.diz = s["base"], [build(x) for x in s["inner"]], []
    fs, n.files = [], {}
    for x in n.inner:
        for v in x.vols:
            n.files[v.name] = bytes(v.raw)
    for f in s["files"]:
        n.files[f["name"]] = (("VobSub idx" + f["nl"] + "".join(y + f["nl"] for y in f["idx"])).encode() if "idx" in f else content.data(f["c"]))
        if "idx" in f:
            n.diz.append((f["name"], [(y + f["nl"]).encode() for y in f["idx"] if y.startswith("id: ")]))
    n.diz.sort()
    for k, d in n.files.items():
        fs.append({"name": k, "c": {"k": "lit", "n": len(d), "h": d.hex()}, "ver": 20, "attr": 32, "os": 2})
    total = sum(len(d) for d in n.files.values())
    cap = [1 << 40] if s["naming"] == "single" else [max(1, -(-total // s["vols"]))]
    n.vols, _ = rarw.build({"base": s["base"], "naming": s["naming"], "files": fs, "caps": cap, "end": s["end"], "upper": s["upper"]})
    return n


def languages(n):
    """The language blocks: one per idx file."""
    out = [b"# " + k.encode() + b"\n" + b"".join(ls) for k, ls in n.diz]
    return sorted(out + [y for x in n.inner for y in languages(x)])


def blocks(b):
    out = []
    for line in b.splitlines(True):
        if line.startswith(b"# "):
            out.append(line)
        elif out:
            out[-1] += line
        else:
            out.append(b"?" + line)
    return sorted(out)


def verify(b, n, diz, what):
    """b: SRR of the archive of n"""
    try:
        v = rarw.srr_view(b)
    except Exception as e:
        raise core.Violation("%s is not a well-formed SRR: %s" % (what, e))
    R.check_meta(b, [(x.name, x.meta) for x in n.vols], what)
    want = [srrname(x) for x in n.inner]
    got = [k for k, _ in v["stored"]]
    check(sorted(got) == sorted(want + ["languages.diz"] * (diz is not None)), "%s stores %r, expected %r and%s languages.diz", what, got, want, "" if diz is not None else " no")
    st_ = dict(v["stored"])
    if diz is not None:
        check(blocks(st_["languages.diz"]) == diz, "%s: languages.diz is %r, expected %r", what, st_["languages.diz"], diz)
    for x in n.inner:
        verify(st_[srrname(x)], x, None, what + "/" + srrname(x))


def srrname(n):
    return n.vols[0].name[:-4] + ".srr"


def lang_any(n):
    return bool(n.diz) or any(lang_any(x) for x in n.inner)


def rebuild(srr, n, base):
    """Rebuild from the inside out."""
    inp, out = os.path.join(base, "i"), os.path.join(base, "o")
    os.makedirs(inp), os.makedirs(out)
    v = rarw.srr_view(core.read(srr))
    st_ = dict(v["stored"])
    inside = {x.name for y in n.inner for x in y.vols}
    for y in n.inner:
        p = core.write(os.path.join(base, "s-" + y.base, "x.srr"), st_[srrname(y)])
        t = rebuild(p, y, os.path.dirname(p))
        for k, d in t.items():
            core.write(os.path.join(inp, k), d)
    for k, d in n.files.items():
        if k not in inside:
            core.write(os.path.join(inp, k), d)
    R.reconstruct(srr, inp, out, extract_files=False)
    t = core.tree(out)
    R.same_tree(t, {x.name: bytes(x.raw) for x in n.vols}, "rebuilt subtitle archive")
    return t


def run(c, ctx):
    d = ctx.dir()
    rel = c["rel"] if c["mode"] == "pack" else "The.Movie.2004.DVDRip.XviD-GRP"
    root, out, tmp = os.path.join(d, rel), os.path.join(d, "out"), os.path.join(d, "tmp")
    for x in (out, tmp):
        os.makedirs(x)
    r = A.new(root)
    subs = []
    used = set()
    for x in c["sfvs"]:
        sd = "" if c["mode"] == "pack" else x["dir"]
        lines, nodes, bad = [], [], False
        for s in x["sets"]:
            n = build(s)
            for v in n.vols:
                if not A.put(r, (sd + "/" if sd else "") + v.name, bytes(v.raw)):
                    raise Reject("names")
            lines += [(v.name, bytes(v.raw)) for v in n.vols]
            nodes.append(n)
        if x["hurt"]:
            q = os.path.join(root, sd, nodes[0].vols[0].name)
            os.unlink(q)
            if x["hurt"] == "text":
                core.write(q, b"This is not an archive at all.")
        if x["bare"]:
            if c["mode"] == "pack":
                raise Reject("a subpack without SFV lines has no archives")
            lines = []
        t = R.sfv_text(lines) + (x["extra"].encode() + b"\r\n" if x["extra"] else b"")
        n = (sd + "/" if sd else "") + x["name"] + ".sfv"
        if not A.put(r, n, t):
            raise Reject("names")
        r.stored[n] = t
        subs.append((n, nodes, x))
    depth = any(y.inner for _n, ns, _x in subs for y in ns)
    ctx.nontrivial(depth and any(lang_any(y) for _n, ns, _x in subs for y in ns))
    ctx.label(c["mode"], "nested" if depth else "flat", "sfvs:%d" % len(subs), *(["hurt"] if any(x["hurt"] for _n, _ns, x in subs) else []))
    single = c["mode"] == "single"
    if not single:
        if c["mode"] == "pack":
            for n, nodes, x in subs:
                r.sfvs.append(n)
                for y in nodes:
                    r.vols.append([(v.name, bytes(v.raw), v.meta) for v in y.vols])
        else:
            A.add_sets(r, c["main"], {})
            first = subs[0][0]
            if c["proof"]:       # already stored: no SRR of it
                base = os.path.basename(first)[:-4] if c["proof"] == "same" else "prf"
                s = {"base": base, "naming": "single", "files": [{"name": "p.jpg", "c": {"k": "rand", "n": 50, "s": 1}}], "caps": [1 << 40]}
                A.add_proofrar(r, {"dir": "Proof", "set": s, "img": True, "case": False})
            if c["dirfix"]:
                vols, _f, _p = R.write_set({"base": "dx", "naming": "single", "files": [{"name": "p.nfo", "c": {"k": "rand", "n": 50, "s": 1}}], "caps": [1 << 40]},
                                           os.path.join(root, "The.Movie.DiRFiX-GRP"))
                t = R.sfv_text([(v.name, bytes(v.raw)) for v in vols])
                A.put(r, "The.Movie.DiRFiX-GRP/dx.sfv", t)
                r.stored["The.Movie.DiRFiX-GRP/dx.sfv"] = t
            if c["twin"] and A.put(r, first[:-4] + ".nfo", b"abc"):
                r.stored[first[:-4] + ".nfo"] = b"abc"
        for f in c["files"]:
            if A.put(r, f["path"], content.data(f["c"])):
                r.stored[f["path"]] = content.data(f["c"])
    before = core.tree(root)
    made = {}        # name -> (node, diz or None)
    for n, nodes, x in subs:
        if single and n != subs[0][0]:
            continue
        ok = nodes if not x["hurt"] else nodes[1:]
        first = True
        for y in ok:
            k = (n[:-4] + ".srr") if len(nodes) == 1 else (os.path.dirname(n) + "/" if os.path.dirname(n) else "") + srrname(y)
            made[k] = [y, None, nodes]
        if ok:
            dz = sorted(z for y in ok for z in languages(y))
            made[[k for k in made if made[k][2] is nodes][0]][1] = dz if any(lang_any(y) for y in ok) else None
    if single:
        res = A.run(["--vobsubs", os.path.join(root, subs[0][0]), "-o", out, "-t", tmp], cwd=d)
        check(not res.exc and res.rc == 0, "the tool failed: %r", res)
        t = core.tree(out)
        made = {os.path.basename(k): v for k, v in made.items()}
        check(sorted(t) == sorted(made), "made %r, expected %r: %r", sorted(t), sorted(made), res)
        got = t
    else:
        res = A.run(["-c"] + (["--best"] if c["mode"] == "best" else ["-v"]) + ["-o", out, "-t", tmp, root], cwd=d)
        check(not res.exc, "the tool failed: %r", res)
        if c["mode"] == "pack" and any(x["hurt"] for _n, _ns, x in subs):
            check(res.rc == 1 and os.listdir(out) == [], "incomplete subpack: %r %r", res, os.listdir(out))
            check(os.listdir(tmp) == [], "left in the temporary directory: %r", os.listdir(tmp))
            return
        check(res.rc == 0, "exit code %d: %r", res.rc, res)
        v = A.check_volumes(r, core.read(os.path.join(out, rel + ".srr")))
        for k in made:
            r.stored[k] = None
        names, got = A.check_stored(r, v)
        for k in made:
            if k[:-4] + ".sfv" in names:
                check(names.index(k) + 1 == names.index(k[:-4] + ".sfv"), "%s is not above its SFV: %r", k, names)
        if c["mode"] != "pack":
            A.check_order(r, names)
    check(core.tree(root) == before, "the release changed")
    check(os.listdir(tmp) == [], "left in the temporary directory: %r", os.listdir(tmp))
    for i, (k, (y, diz, _)) in enumerate(sorted(made.items())):
        verify(got[k], y, diz, k)
        p = core.write(os.path.join(d, "reb%d" % i, "x.srr"), got[k])
        rebuild(p, y, os.path.dirname(p))


LEGS = [Leg("subs", case, run, quick=400, thorough=12000, shards=8)]
