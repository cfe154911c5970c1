"""R20: compressed RAR sets."""
import os
from hypothesis import strategies as st
from vh import content, core, fakerar, rarw, srr as S
from vh.core import Leg, check

RULE = ("A case is one or two generated sets of compressed files (with stored files, empty files and directories among them; solid or not; one or more "
        "volumes) made by one RAR version with one number of threads, and a folder of RAR programs with or without that version; the files may be "
        "renamed, missing or changed, the thread counts to try may be limited and another release with the same names may be rebuilt first in the same "
        "process. Non-trivial: at least two programs to choose from and one compressed file.")
ASSUMPTIONS = ["RAR itself is not available: the programs are stand-ins that take the same switches and write the same archive layout with a keyed code, "
               "so that version, method, dictionary, threads and the files before it (solid) decide the bytes",
               "two programs or settings never give different data of the same length",
               "the first part of a compressed file has at least eight bytes (less can't tell settings apart; then only false claims are looked for)",
               "the files of one set have different base names (RAR is told to leave out the paths)"]

VERSIONS = ["1998-03-10_rar204.exe", "2002-06-10_rar300.exe", "2005-10-09_rar351", "2006-03-29_rar360b1.exe", "2010-03-15_rar393.exe",
            "2011-01-30_rar401b1", "2012-06-09_rar420.exe", "2013-09-01_rar500.exe", "2016-01-10_rar531b1.exe", "2021-06-11_rar602.exe"]
OTHER = ["readme.txt", "rar.exe", "rar420-2012-06-09.exe"]
EXTS = ["avi", "nfo", "iso", "bin", "x", "dll"]


@st.composite
def cset(draw, base, names):
    v = draw(st.one_of(st.sampled_from(VERSIONS), st.sampled_from(["2010-03-15_rar393.exe", "2011-01-30_rar401b1", "2006-03-29_rar360b1.exe"])))
    ver = fakerar.version(v)
    lo, hi = limits(ver)
    s = {"v": v, "t": draw(st.one_of(st.integers(lo, 4), st.integers(lo, hi))) if fakerar.has_mt(ver) else None, "m": draw(st.integers(1, 5)), "d": draw(st.sampled_from("ABCDEFG")),
         "solid": draw(st.integers(0, 2)) == 0, "base": base, "naming": draw(st.sampled_from(["old", "old", "part1", "part2", "single"])),
         "vols": draw(st.integers(1, 6)), "end": draw(st.sampled_from(["std", "std", "crc", "full", None])), "files": []}
    for i in range(draw(st.sampled_from([1, 1, 2, 3, 4]))):
        n = draw(st.sampled_from(["movie", "a b", "data1", "x", "SETUP", "z-9"])) + "." + draw(st.sampled_from(EXTS))
        f = {"name": draw(st.sampled_from(["", "", "dir\\"])) + n,
             "c": {"n": draw(st.sampled_from([0, 1, 63, 64, 65, 1000, 4000, 9000, 66000, 150000] if i == 0 else [0, 1, 64, 700, 3000])), "s": draw(st.integers(0, 999)),
                   "k": draw(st.sampled_from(["rand", "zero", "rep", "text"]))},
             "time": draw(st.builds(rarw.dostime, st.integers(1996, 2022), st.integers(1, 12), st.integers(1, 28))),
             "store": draw(st.integers(0, 5)) == 0, "how": draw(st.sampled_from(["ok"] * 10 + ["hint", "gone", "bad"]))}
        if n.lower() in names:
            continue
        names.add(n.lower())
        s["files"].append(f)
    if draw(st.integers(0, 4)) == 0:
        s["files"].insert(draw(st.integers(0, len(s["files"]))), {"name": "emptydir", "dir": True, "c": {"n": 0}})
    if not any(f["c"]["n"] for f in s["files"]):
        s["files"].insert(0, {"name": base + ".dat", "c": {"n": 500, "s": 1, "k": "rand"}, "store": False, "how": "ok"})
    return s


@st.composite
def case(draw):
    names = set()
    sets = [draw(cset(b, names)) for b in (["rls"] if draw(st.integers(0, 3)) else ["rls", "cd2"])]
    have = draw(st.lists(st.sampled_from(VERSIONS), max_size=4, unique=True))
    if draw(st.integers(0, 5)):
        have += [s["v"] for s in sets if s["v"] not in have]
        have = list(dict.fromkeys(have))
    return {"sets": sets, "have": draw(st.permutations(have)) if have else [], "other": draw(st.lists(st.sampled_from(OTHER), max_size=2, unique=True)),
            "mt": draw(st.sampled_from([None, None, None, None, None, "set", "set", "min", "max"])), "mtn": draw(st.lists(st.integers(1, 8), min_size=1, max_size=5)),
            "cli": draw(st.sampled_from([True, True, True, False, "two", "two"])), "tmp": draw(st.booleans())}


def limits(ver):
    return (0, 16) if ver < (4, 20) else (1, 32)


def tried(c, ver):
    """the thread counts that may be tried"""
    if not fakerar.has_mt(ver):
        return {1}
    lo, hi = limits(ver)
    r = range(lo, hi + 1)
    n = c["mtn"][0]
    if c["mt"] == "set":
        r = [x for x in r if x in c["mtn"]]
    elif c["mt"] == "min":
        r = [x for x in r if x >= n]
    elif c["mt"] == "max":
        r = [x for x in r if x <= n]
    return {max(1, x) for x in r}


def stored(s, f):
    return bool(f.get("dir") or (f.get("store") and not s["solid"]) or not f["c"]["n"])


def pack(s, shift=0):
    """-> (volumes, datas)"""
    ver = fakerar.version(s["v"])
    desc = dict(s, files=[], mainflags=8 if s["solid"] else 0, nopartcrc=ver[0] == 2)
    datas = [b"" if f.get("dir") else content.data(dict(f["c"], s=f["c"].get("s", 0) + shift)) for f in s["files"]]
    packed = fakerar.pack_all(datas, ver, "-m%d" % s["m"], "-md" + s["d"], s["t"], s["solid"], [i for i, f in enumerate(s["files"]) if stored(s, f)])
    hist = False
    for f, d in zip(s["files"], datas):
        g = {k: v for k, v in f.items() if k in ("name", "dir", "c", "time")}
        g["ver"] = 20 if ver[0] == 2 else 29
        g["dict"] = "ABCDEFG".index(s["d"])
        g["method"] = 0x30 + (0 if stored(s, f) else s["m"])
        if s["solid"] and hist and d:
            g["xflags"] = 0x10
        hist = hist or bool(d)
        desc["files"].append(g)
    total = sum(map(len, packed))
    if s["naming"] != "single" and s["vols"] > 1:
        desc["caps"] = [max(1, -(-total // s["vols"]))]
    vols = rarw.build(desc, datas, packed)[0]
    weak = False
    for i, f in enumerate(s["files"]):
        first = [p for v in vols for p in v.pieces if p[0] == i][:1]
        if first and first[0][2] < min(8, len(packed[i])) and not stored(s, f):
            weak = True         # too little data in one volume to tell settings apart
    return vols, datas, weak


def release(c, d, shift=0):
    """lays out the SRR and the extracted files -> (want, hints, wrong)"""
    rel, inp = os.path.join(d, "rel"), os.path.join(d, "in")
    os.makedirs(inp)
    want, infiles, hints, wrong, weak = {}, [], [], False, False
    for s in c["sets"]:
        vols, datas, wk = pack(s, shift)
        weak = weak or wk
        for v in vols:
            core.write(os.path.join(rel, v.name), bytes(v.raw))
            want[v.name] = bytes(v.raw)
        infiles.append(os.path.join(rel, vols[0].name))
        for f, b in zip(s["files"], datas):
            if f.get("dir"):
                continue
            n = f["name"].replace("\\", "/")
            how = f.get("how") if not shift else "ok"
            if how == "gone":
                wrong = True
                continue
            if how == "bad":
                wrong = True
                b = b[:-1] + bytes([b[-1] ^ 1]) if b else b"x"
            if how == "hint":
                hints.append((f["name"], "ren%d.zzz" % len(hints)))
                n = hints[-1][1]
            core.write(os.path.join(inp, n), b)
    srr = os.path.join(d, "x.srr")
    r = S.create(srr, infiles, in_folder=rel, compressed=True)
    check(r is True, "create_srr returned %r", r)
    view = rarw.srr_view(core.read(srr))
    check([n for n, _m, _f in view["rars"]] == list(want), "SRR lists volumes %r", [n for n, _m, _f in view["rars"]])
    return want, hints, wrong, weak


def run(c, ctx):
    d = ctx.dir()
    out, out0, rars, tmp = (os.path.join(d, x) for x in ("out", "out0", "rars", "tmp"))
    for x in (out, out0, tmp):
        os.makedirs(x)
    fakerar.install(rars, c["have"])
    for n in c["other"]:
        core.write(os.path.join(rars, n), b"x")
    want, hints, wrong, weak = release(c, os.path.join(d, "b"))
    want0 = release(c, os.path.join(d, "a"), 1)[0] if c["cli"] == "two" else None
    keep = [os.path.join(d, x) for x in ("a", "b", "rars") if os.path.isdir(os.path.join(d, x))]
    before = [core.tree(x) for x in keep]
    vers = [fakerar.version(s["v"]) for s in c["sets"]]
    need = [s for s in c["sets"] if any(not stored(s, f) for f in s["files"])]
    can = bool(c["have"]) and all(s["v"] in c["have"] and max(1, s["t"] or 1) in tried(c, fakerar.version(s["v"])) for s in need)
    if weak:
        can = False
    mtopt = {None: [], "set": ["--mt-set", ",".join(map(str, c["mtn"]))], "min": ["--mt-min", str(c["mtn"][0])], "max": ["--mt-max", str(c["mtn"][0])]}[c["mt"]]

    def one(X, where, to, hh):
        inp, srr = os.path.join(where, "in"), os.path.join(where, "x.srr")
        if c["cli"] is True:
            argv = ["-y", "-r", srr, "-i", inp, "-o", to, "-z", rars] + (["-t", tmp] if c["tmp"] else []) + mtopt
            if hh:
                argv += ["-H", ";".join("%s:%s" % h for h in hh)]
            return X.main(argv)
        import rescene
        mt = rescene.RarMtSettings()
        if c["mt"]:
            setattr(mt, "mt_" + c["mt"], c["mtn"] if c["mt"] == "set" else c["mtn"][0])
        try:
            r = rescene.reconstruct(srr, inp, to, True, dict(hh), rar_executable_dir=rars, tmp_dir=tmp if c["tmp"] else None, rar_mt=mt)
        except (S.M.FileNotFound, S.M.RarNotFound, S.M.InvalidFileSize, S.M.EmptyRepository, ValueError) as e:
            print("FAILED", type(e).__name__, e)
            return 1
        return 1 if r is False else 0

    def go():
        import tempfile
        import rescene.srr as X
        tempfile.tempdir = tmp
        log = []
        fakerar.inline(rars, log)
        if c["cli"] is not True:
            S.M.subscribe(lambda e: print(e.message) if e.code == S.M.MsgCode.CRC else None)
        if c["cli"] == "two":
            print("FIRST", one(X, os.path.join(d, "a"), out0, []))
            print("=====")
        rc = one(X, os.path.join(d, "b"), out, hints)
        used = sorted({int(a[3:]) for call in log for a in call if a.startswith("-mt") and a[3:].isdigit()})
        print("THREADS", *used)
        return rc
    r = core.fork_run(go, timeout=80)
    check(not r.killed, "did not end")
    text = r.out.split("=====")[-1] + r.err
    crc = "CRC mismatch" in text
    got = core.tree(out)
    tail = (r.out[-600:], r.err[-400:], r.exc[:300])
    nz = sum(len(f["c"]) > 1 and not stored(s, f) for s in c["sets"] for f in s["files"])
    for line in r.out.splitlines():
        if line.startswith("THREADS"):
            bad = [t for t in map(int, line.split()[1:]) if c["mt"] and (t not in c["mtn"] if c["mt"] == "set" else t < c["mtn"][0] if c["mt"] == "min" else t > c["mtn"][0])]
            check(not bad, "RAR was started with %r threads, allowed: %s %r", bad, c["mt"], c["mtn"])
    kind = "%s%s" % ("solid " if any(s["solid"] for s in need) else "", "two" if c["cli"] == "two" else "one")
    if not r.exc:
        check(r.rc in (0, 1, 99), "exit code %r %r", r.rc, tail)
    check(not r.exc or r.exc.startswith("SystemExit"), "escaped: %r", tail)
    if can and not wrong:
        check(r.rc == 0 and not crc, "the right version is there: exit code %r, CRC warning %r, %r", r.rc, crc, tail)
    if r.rc == 0 and not crc:
        check(got == want, "claimed but wrong: %r %r", [n for n in set(want) | set(got) if want.get(n) != got.get(n)], tail)
    if c["cli"] == "two":
        first = "FIRST 0" in r.out.split("=====")[0]
        g0 = core.tree(out0)
        if can:
            check(first, "first rebuild failed %r", tail)
        if first and "CRC mismatch" not in r.out.split("=====")[0] + r.err:
            check(g0 == want0, "first rebuild claimed but wrong")
    check([core.tree(x) for x in keep] == before, "inputs changed")
    check(not os.listdir(tmp), "left in the temporary directory: %r", os.listdir(tmp))
    if weak:
        ctx.label("too little data to decide")
    if nz and len(c["have"]) > 1:
        lab = "rebuilt" if r.rc == 0 and not crc else "refused"
        ctx.nontrivial()
        ctx.label("%s %s" % (lab, kind))
        if c["mt"] and can and any(map(fakerar.has_mt, vers)):
            ctx.label("threads limited")
        if lab == "rebuilt" and any(s["v"] in ("2010-03-15_rar393.exe", "2011-01-30_rar401b1") and not s["solid"] and len(s["files"]) > 1 for s in need):
            ctx.label("neighbouring files matter")


LEGS = [Leg("rebuild", case, run, quick=2600, thorough=8000, shards=8)]
