"""R01: store-mode RAR sets rebuild byte-identically."""
import os, shutil
from hypothesis import strategies as st
from vh import core, gen, rarw, srr as S
from vh.core import Leg, check
from rescene import main as M

RULE = ("A case is one or two generated store-mode RAR sets (naming, volume "
        "capacities, file headers with optional large/salt/exttime/unicode/comment "
        "fields, extra blocks, recovery records, end-block variants, padding) plus how the SRR is "
        "made (first volume or SFV, paths or not). Non-trivial: at least two volumes, or an "
        "optional header/block feature, or a recovery record.")
ASSUMPTIONS = ["volumes listed in an SFV with other capitalisation keep the variant that has capitals (the listed one when both do), as documented",
               "RAR sets are produced by an independent writer (vh/rarw.py) following the RAR 2/3 technote",
               "packed files keep their archived names below the input folder"]


def interesting(s, nv):
    feats = []
    if nv > 1:
        feats.append("multi-volume")
    if s.get("rr"):
        feats.append("rr-" + s["rr"]["style"])
    if s.get("pad") and s["end"] not in (None, "p0w4"):
        feats.append("padding")
    for k in ("pre", "post", "maincmt"):
        if s.get(k):
            feats.append(k)
    for f in s["files"]:
        for k in ("large", "salt", "ext", "uni", "fcmt", "after", "dir"):
            if f.get(k):
                feats.append("file-" + k)
        if f.get("long") is False:
            feats.append("no-long-flag")
        if f["c"]["n"] > 0xFFFF:
            feats.append("file>64K")
        if f["c"]["n"] == 0:
            feats.append("empty-file")
    feats.append("naming-" + s["naming"])
    feats.append("end-%s" % s["end"])
    return feats


SFVCASE = st.sampled_from([None] * 5 + ["lower", "upper", "swap", "title"])


def listed(name, how):
    """The name as it is written in an SFV file of other capitalisation, and the one to keep: the one with capitals."""
    if not how or not name.isascii():
        return name, name
    n = {"lower": name.lower(), "upper": name.upper(), "swap": name.swapcase(), "title": name.title()}[how]
    return n, name if n == n.lower() else n


def case(big=None, max_vols=14, max_files=4, hi=3000, rr=True):
    @st.composite
    def c(draw):
        names = set()
        two = draw(st.integers(0, 3)) == 0
        sets = [draw(gen.rarset(big=big, names=names, max_vols=max_vols,
                                max_files=max_files, hi=hi, rr=rr))]
        if two:
            s2 = draw(gen.rarset(names=names, max_files=2, max_vols=4))
            paths, via, subs = draw(st.booleans()), draw(st.sampled_from(["rar", "sfv", "sfv1"])), draw(st.sampled_from([None, ["CD1", "CD2"], ["", "CD2"], ["a/CD1", "b/CD1"]]))
            if subs and paths and via != "sfv1":
                if draw(st.booleans()):         # the same volume names in both directories
                    s2["base"] = sets[0]["base"]
                    if draw(st.booleans()):
                        s2["naming"], s2["upper"], s2["caps"] = sets[0]["naming"], sets[0]["upper"], [1 << 40]
            elif s2["base"].lower() == sets[0]["base"].lower():
                s2["base"] += "2"
            if draw(st.integers(0, 3)) == 0:    # a file that is packed in both sets
                again = [f for f in sets[0]["files"] if not f.get("dir")]
                again = again[draw(st.integers(0, len(again) - 1))]
                s2["files"].insert(draw(st.integers(0, len(s2["files"]))), dict(again))
                s2["caps"] = [x + again["c"]["n"] for x in s2["caps"]]
            sets.append(s2)
            return {"sets": sets, "via": via, "paths": paths, "oso": draw(st.booleans()), "sub": draw(st.sampled_from(["", "CD1"])),
                    "sfvcase": draw(SFVCASE), "subs": None if via == "sfv1" else subs, "extract": draw(st.booleans()), "skipcrc": draw(st.integers(0, 5)) == 0}
        return {"sets": sets, "via": draw(st.sampled_from(["rar", "sfv", "sfv1"])), "sfvcase": draw(SFVCASE),
                "paths": draw(st.booleans()), "oso": draw(st.booleans()),
                "sub": draw(st.sampled_from(["", "", "CD1", "a b/c"])),
                "extract": draw(st.booleans()), "skipcrc": draw(st.integers(0, 5)) == 0}
    return c


def run(c, ctx):
    d = ctx.dir()
    rel = os.path.join(d, "rel")
    sub = os.path.join(rel, c["sub"])
    inp = os.path.join(d, "in")
    out = os.path.join(d, "out")
    os.makedirs(sub), os.makedirs(inp), os.makedirs(out)
    want, meta, infiles, stored = {}, [], [], {}
    allv = []
    for i, s in enumerate(c["sets"]):
        sdir = c["subs"][i] if c.get("subs") else c["sub"]
        sub = os.path.join(rel, sdir)
        vols, files, paths = S.write_set(s, sub)
        S.write_files(files, inp)
        pre = sdir + "/" if c["paths"] and sdir else ""
        how = c.get("sfvcase") if c["via"] != "rar" else None
        if how and any(v.name != listed(v.name, how)[0] for v in vols):
            ctx.label("sfv-" + how)
        for v in vols:
            want[pre + listed(v.name, how)[1]] = bytes(v.raw)
            meta.append((pre + listed(v.name, how)[1], v.meta))
        allv.append(vols)
        if c["via"] == "rar":
            infiles.append(paths[0])
        elif c["via"] == "sfv":
            sfv = os.path.join(sub, s["base"] + ".sfv")
            t = S.sfv_text([(listed(v.name, how)[0], bytes(v.raw)) for v in vols])
            core.write(sfv, t)
            stored[pre + s["base"] + ".sfv"] = t
            infiles.append(sfv)
        for l in interesting(s, len(vols)):
            ctx.label(l)
        if len(vols) > 1 or len(interesting(s, 1)) > 2:
            ctx.nontrivial()
    if c["via"] == "sfv1":
        t = S.sfv_text([(listed(v.name, how)[0], bytes(v.raw)) for vs in allv for v in vs])
        core.write(os.path.join(sub, "all.sfv"), t)
        stored[(c["sub"] + "/" if c["paths"] and c["sub"] else "") + "all.sfv"] = t
        infiles = [os.path.join(sub, "all.sfv")]
    before = core.tree(rel)
    srr = os.path.join(d, "x.srr")
    ev = S.events()
    r = S.create(srr, infiles, in_folder=rel, save_paths=c["paths"], oso_hash=c["oso"])
    check(r is True, "create_srr returned %r", r)
    check(core.tree(rel) == before, "creating the SRR changed the release")
    b = core.read(srr)
    if c["via"] == "sfv1" and len(c["sets"]) > 1:
        v = rarw.srr_view(b)   # relative order of two sets in one SFV is unspecified
        check(sorted((n, m) for n, m, _ in v["rars"]) == sorted((n, bytes(m)) for n, m in meta),
              "SRR volumes/metadata differ from the release")
    else:
        v = S.check_meta(b, meta)
    check(dict(v["stored"]) == stored, "stored files %r, expected %r", [n for n, _ in v["stored"]], list(stored))
    shutil.rmtree(rel)
    ev.clear()
    inb = core.tree(inp)
    r = S.reconstruct(srr, inp, out, extract_paths=True, extract_files=c["extract"],
                      skip_rar_crc=c["skipcrc"])
    check(r is None, "reconstruct returned %r", r)
    check(not ev.has(M.MsgCode.CRC), "CRC problem reported for correct input")
    w = dict(want)
    if c["extract"]:
        w.update(stored)
    S.same_tree(core.tree(out), w, "rebuild")
    check(core.tree(inp) == inb, "rebuilding changed the input files")
    check(core.read(srr) == b, "rebuilding changed the SRR")


LEGS = [
    Leg("sets", case(), run, quick=1600, thorough=40000, shards=4),
    Leg("big", case(big=gen.BIG, max_vols=6, hi=70000), run, quick=600, thorough=12000, shards=4),
    Leg("many-volumes", case(max_vols=130, max_files=2, rr=False), run, quick=160, thorough=6000, shards=2),
]


@st.composite
def cli_case(draw):
    names = set()
    s = draw(gen.rarset(names=names, max_vols=6, max_files=3))
    return {"set": s, "via": draw(st.sampled_from(["rar", "sfv"])),
            "paths": draw(st.booleans()), "sub": draw(st.sampled_from(["", "CD1"])),
            "abs": draw(st.booleans()), "v": draw(st.booleans()), "store": draw(st.booleans())}


def run_cli(c, ctx):
    from rescene import srr as cli
    d = ctx.dir()
    rel = os.path.join(d, "rel")
    sub = os.path.join(rel, c["sub"])
    inp, out = os.path.join(d, "in"), os.path.join(d, "out")
    for x in (sub, inp, out):
        os.makedirs(x, exist_ok=True)
    s = c["set"]
    if s["naming"] == "num" and c["via"] == "rar":
        c = dict(c, via="sfv")      # the command line takes .rar or .sfv
    vols, files, paths = S.write_set(s, sub)
    S.write_files(files, inp)
    pre = c["sub"] + "/" if c["paths"] and c["sub"] else ""
    want = {pre + v.name: bytes(v.raw) for v in vols}
    if c["via"] == "rar":
        src = paths[0]
        if src[-4:].lower() != ".rar":
            return
    else:
        src = os.path.join(sub, "x.sfv")
        t = S.sfv_text([(v.name, bytes(v.raw)) for v in vols])
        core.write(src, t)
        want[pre + "x.sfv"] = t
    if not c["abs"]:
        src = os.path.relpath(src, rel)
        if src.startswith("-"):         # would be an option
            src = "./" + src
    args = [src, "-y", "-o", os.path.join(d, "x.srr")]
    if c["paths"]:
        args.append("-p")
    if c["v"]:
        args.append("-v")
    if c["store"]:
        core.write(os.path.join(rel, "note.nfo"), b"hello")
        args += ["-s", "note.nfo"]
        want["note.nfo"] = b"hello"
    r = core.cli(cli.main, args, cwd=rel)
    check(r.rc == 0 and not r.exc, "create: %r", r)
    check(os.path.exists(os.path.join(d, "x.srr")), "no SRR written: %r", r)
    args = [os.path.join(d, "x.srr"), "-y", "-i", inp, "-o", out] + (["-p"] if c["paths"] else [])
    r = core.cli(cli.main, args, cwd=d)
    check(r.rc == 0 and not r.exc, "rebuild: %r", r)
    S.same_tree(core.tree(out), want, "rebuild through the command line")
    ctx.nontrivial(len(vols) > 1)
    ctx.label("cli-%d-volumes" % min(3, len(vols)))


LEGS.append(Leg("command-line", cli_case, run_cli, quick=240, thorough=6000, shards=2))
