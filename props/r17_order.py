"""R17: volumes are ordered and grouped as RAR itself does."""
import os, random, zlib
from hypothesis import strategies as st
from vh import core, content, gen, rarw, srr as S
from vh.core import Leg, check, Reject
from rescene import main as M
from rescene.utility import SfvEntry, filter_sfv_duplicates, next_archive, first_rars, is_rar, parse_sfv_data

RULE = ("sfv: 1-4 sets of any naming scheme and 1-250 volumes plus other files, as SFV lines in random order with repeated lines and letter-case jitter; the filtered list must hold every volume once, "
        "each set in RAR order, and be the same for another order of the lines. create: sets of real volumes; SRRs made from differently ordered SFV files, and from the first volume, list the volumes in RAR order. "
        "next: walking the successor rule from the first volume, through any directory name. first: first_rars finds exactly the first volumes in any order of names. "
        "Non-trivial: several volumes and a real permutation (sfv, create, first), at least 10 steps (next).")
ASSUMPTIONS = ["volume numbers keep their width (part1 to part9, part01 to part99, 001 to 999, r00 to z99)", "old style base names that end in .part<number> are used only where the code documents support for them",
               "the names of one directory are distinct without regard to letter case"]

BASE = st.one_of(st.sampled_from(["grp-rls", "a", "A.B.C", "x y", "rls.r00", "cd1", "movie.rar", "x.part1a", "1", "test3", "r00", "group-other", "a-b", "a.b", "th.frag.rar.cd1"]),
                 st.text("abcXYZ019-_. ", min_size=1, max_size=10).map(lambda t: t.strip(" .") or "v"))
SCHEMES = ["old", "old", "part1", "part2", "part3", "part4", "num", "num0", "single"]
OTHER = ["file.nfo", "readme.txt", "cover.jpg", "x.sfv", "a.mp3", "rar", "r00.txt", "a.zip", "x.part1.zip", "a.rara", "000.jpg"]


def names(base, nm, count, up=False):
    out = []
    for i in range(count):
        if nm == "old" or nm == "single":
            out.append(base + "." + rarw.old_ext(i, up))
        elif nm == "num":
            out.append("%s.%03d" % (base, i + 1))
        elif nm == "num0":
            out.append("%s.%03d" % (base, i))
        else:
            p = ".part%0*d.rar" % (int(nm[4:]), i + 1)
            out.append(base + (p.upper() if up else p))
    return out


LIM = {"old": 900, "part1": 9, "part2": 99, "part3": 999, "part4": 1200, "num": 999, "num0": 1000, "single": 1}


@st.composite
def sets(draw, big=250):
    out = []
    for i in range(draw(st.integers(1, 4))):
        nm = draw(st.sampled_from(SCHEMES))
        out.append({"base": draw(BASE), "nm": nm, "up": draw(st.integers(0, 5)) == 0,
                    "n": min(LIM[nm], draw(st.one_of(st.integers(1, 12), st.integers(1, big))))})
    return out


def jitter(r, t):
    return "".join(x.upper() if r.random() < .2 else x.lower() if r.random() < .2 else x for x in t)


def all_names(c):
    out, used = [], set()
    for s in c["sets"]:
        l = names(s["base"], s["nm"], s["n"], s["up"])
        if any(x.lower() in used for x in l):
            raise Reject()
        used |= {x.lower() for x in l}
        out.append(l)
    return out


@st.composite
def sfv_case(draw):
    return {"sets": draw(sets()), "other": draw(st.lists(st.sampled_from(OTHER), max_size=3, unique=True)), "seed": draw(st.integers(0, 9999)),
            "jit": draw(st.sampled_from(["none", "none", "dup", "all"])), "dup": draw(st.integers(0, 5))}


def sfv_run(c, ctx):
    l = all_names(c)
    flat = [n for x in l for n in x] + c["other"]
    if len({n.lower() for n in flat}) < len(flat):
        raise Reject()
    r = random.Random(c["seed"])
    crc = {n.lower(): "%08x" % zlib.crc32(n.lower().encode()) for n in flat}
    shown = {n: jitter(r, n) if c["jit"] == "all" else n for n in flat}
    lines = [(shown[n], crc[n.lower()]) for n in flat]
    for _ in range(c["dup"]):
        n, h = r.choice(lines)
        lines.append((jitter(r, n) if c["jit"] != "none" else n, r.choice([h, h.upper()])))

    def go():
        r.shuffle(lines)
        text = "".join("%s %s\r\n" % x for x in lines).encode("latin-1")
        return [(e.file_name.lower(), e.crc32.lower()) for e in filter_sfv_duplicates(parse_sfv_data(text)[0])]
    one, two = go(), go()
    check(one == two, "the order of the lines matters: %r and %r", one, two)
    check(sorted(one) == sorted((n.lower(), crc[n.lower()]) for n in flat), "filtered entries %r, expected %r", sorted(one), sorted(crc.items()))
    pos = {n: i for i, (n, _h) in enumerate(one)}
    for x in l:
        order = [pos[n.lower()] for n in x]
        check(order == sorted(order), "set %r is not in volume order: %r", x[0], [one[i][0] for i in sorted(order)])
    for n in flat:
        check(is_rar(n) == any(n in x for x in l), "is_rar(%r) is %r", n, is_rar(n))
    ctx.nontrivial(len(flat) > 2)


# ----------------------------------------------------------------- create
@st.composite
def create_case(draw):
    out = []
    for i in range(draw(st.sampled_from([1, 1, 2]))):
        out.append(draw(gen.rarset(base=draw(st.sampled_from(["grp", "Grp.Rls", "x"])) + str(i), names=None, max_vols=12, max_files=2, hi=600, rich=False, rr=False,
                                   namings=["old", "old", "part1", "part2", "part3", "num", "single"])))
    return {"sets": out, "seed": draw(st.integers(0, 9999)), "sfvs": draw(st.integers(1, 2)), "jit": draw(st.sampled_from(["none", "sfv", "disk"])), "paths": draw(st.booleans())}


def create_run(c, ctx):
    d = ctx.dir()
    rel = os.path.join(d, "rel")
    r = random.Random(c["seed"])
    vols, meta, groups = [], {}, []
    for s in c["sets"]:
        v, _f, paths = S.write_set(s, rel)
        vols.append(v)
        meta.update({x.name.lower(): bytes(x.meta) for x in v})
        if c["jit"] == "disk":
            for x, p in zip(v, paths):
                os.rename(p, os.path.join(rel, jitter(r, x.name)))
        groups.append(["%s %08x" % (jitter(r, x.name) if c["jit"] == "sfv" else x.name, zlib.crc32(bytes(x.raw))) for x in v])
    per = [sum(groups, [])] if c["sfvs"] == 1 else groups

    def go(k):
        infiles = []
        for i, g in enumerate(per):
            r.shuffle(g)
            infiles.append(core.write(os.path.join(rel, "s%d.sfv" % i), ("\n".join(g) + "\n").encode("latin-1")))
        srr = os.path.join(d, "%d.srr" % k)
        check(S.create(srr, infiles, in_folder=rel, save_paths=c["paths"]) is True, "creation failed")
        return rarw.srr_view(core.read(srr))["rars"]
    for k in range(2):
        got = go(k)
        check(sorted(n.lower() for n, _m, _f in got) == sorted(meta), "volumes %r, expected %r", [n for n, _m, _f in got], sorted(meta))
        pos = {n.lower(): i for i, (n, _m, _f) in enumerate(got)}
        for v in vols:
            o = [pos[x.name.lower()] for x in v]
            check(o == sorted(o), "volumes of one set out of order: %r", [n for n, _m, _f in got])
        for n, m, _f in got:
            check(m == meta[n.lower()], "metadata of %s differs: %s", n, core.first_diff(m, meta[n.lower()]))
    if c["jit"] != "disk":
        srr = os.path.join(d, "f.srr")
        check(S.create(srr, [os.path.join(rel, v[0].name) for v in vols], in_folder=rel) is True, "creation from first volumes failed")
        got = [n for n, _m, _f in rarw.srr_view(core.read(srr))["rars"]]
        check(got == [x.name for v in vols for x in v], "from the first volumes: %r", got)
        late = [x for v in vols for x in v[1:]]
        if late:
            x = r.choice(late)
            try:
                S.create(os.path.join(d, "late.srr"), [os.path.join(rel, x.name)], in_folder=rel)
            except ValueError:
                pass
            else:
                check(False, "started from the later volume %s: %r", x.name, [n for n, _m, _f in rarw.srr_view(core.read(os.path.join(d, "late.srr")))["rars"]])
    ctx.nontrivial(sum(len(v) for v in vols) > 2)
    ctx.label(c["jit"])


# ------------------------------------------------------------------- next
@st.composite
def next_case(draw):
    nm = draw(st.sampled_from([s for s in SCHEMES if s != "single"]))
    n = min(LIM[nm], draw(st.one_of(st.integers(1, 30), st.integers(1, 1200))))
    return {"base": draw(BASE), "nm": nm, "n": n, "up": draw(st.booleans()),
            "amb": nm == "old" and draw(st.integers(0, 3)) == 0, "dir": draw(st.sampled_from(["", "/x/y.rar/", "d.part1.rar/", "C:\\r99\\", "a.r00/"]))}


def next_run(c, ctx):
    base = c["base"] + (".part%02d" % (c["n"] % 100) if c["amb"] else "")
    l = names(base, c["nm"], c["n"], c["up"])
    old = c["nm"] == "old" and (c["amb"] or c["n"] % 2)
    n = c["dir"] + l[0]
    if c["nm"] == "old" and not c["amb"] and not old:
        import re
        if re.search(r"\.part\d*$", base, re.I):
            raise Reject()
    for i, want in enumerate(l[1:], 2):
        got = next_archive(n, bool(old))
        check(got == c["dir"] + want, "after %r comes %r, expected %r", n, got, c["dir"] + want)
        n = got
    ctx.nontrivial(c["n"] >= 10)
    ctx.label(c["nm"])


# ------------------------------------------------------------------ first
@st.composite
def first_case(draw):
    return {"sets": draw(sets(40)), "other": draw(st.lists(st.sampled_from(OTHER), max_size=3, unique=True)), "seed": draw(st.integers(0, 9999)),
            "dir": draw(st.sampled_from(["", "", "/a/b/", "x.rar/"]))}


def first_run(c, ctx):
    import re
    l = all_names(c)
    for s in c["sets"]:
        b = s["base"].lower()
        if s["nm"] in ("old", "single") and (re.search(r"(^|\.)?part\d+$", b) or re.search(r"\.part0*1$", b)):
            raise Reject()
        if s["nm"] == "num0" and s["n"] == 1 and any(t["base"].lower() == b and t is not s for t in c["sets"]):
            raise Reject()
    r = random.Random(c["seed"])
    flat = [c["dir"] + n for x in l for n in x] + [c["dir"] + n for n in c["other"]]
    want = {c["dir"] + x[0] for x in l}
    for _ in range(2):
        r.shuffle(flat)
        got = first_rars(iter(flat))
        check(sorted(got) == sorted(want), "first volumes of %r: %r, expected %r", flat if len(flat) < 30 else c["sets"], sorted(got), sorted(want))
        check(got == [n for n in flat if n in want], "first volumes are not in the order given: %r", got)
    # without the first volumes nothing may be taken for one
    rest = [n for n in flat if n not in want and not n.endswith(".001")]
    if len(rest) > 1 and not any(s["nm"] in ("old", "single") for s in c["sets"]) and not any(s["nm"].startswith("num") for s in c["sets"]):
        got = first_rars(rest)
        check(got == [], "%r taken for first volumes", got)
    ctx.nontrivial(len(l) > 1 or len(l[0]) > 2)


LEGS = [Leg("sfv", sfv_case, sfv_run, quick=1500, thorough=40000, shards=3),
        Leg("create", create_case, create_run, quick=500, thorough=15000, shards=2),
        Leg("next", next_case, next_run, quick=800, thorough=20000, shards=1),
        Leg("first", first_case, first_run, quick=1500, thorough=50000, shards=2)]
