"""R07: extraction is byte-exact and confined to the output directory."""
import os, re
from hypothesis import strategies as st
from vh import core, content, gen, rarw, srr as S
from vh.core import Leg, check, Reject
from rescene import main as M
from rescene import srr as CLI

RULE = ("extract: a case is an SRR with 0-6 stored files (duplicates, shared base names, nested paths), a selection (all, by name, by path, by "
        "predicate, by regular expression), flat or with paths, and pre-existing output files with or without consent. Non-trivial: at least one "
        "file selected and (a proper subset, an existing file, or flat output of nested names). "
        "hostile: a case is an SRR with at least one hostile stored or volume name; non-trivial: always (every case has one).")
ASSUMPTIONS = ["hostile names only point inside the check's own scratch directory (absolute names below it, at most four parent steps)",
               "the output directory itself contains no symbolic links"]
CONT = gen.content(0, 1500, big=[70000])
PLAIN = st.one_of(st.sampled_from(["a.nfo", "a.sfv", "Sample/a.srs", "Sample/b.srs", "Proof/a.nfo", "x/y/z/a.nfo", "sample/A.NFO", "b c.txt", "\u00fc/\u03b1.txt",
                                   "C:/x.txt", "nul.txt", "...", "..a", "a..", "~", "~root/x", "$HOME/x", "%TEMP%", "-rf", "back\\slash.txt", "d\\e\\f.txt"]), gen.STORED_NAME)


def norm(n):
    return n.replace("\\", "/")


def conflict(names):
    s = {norm(n) for n in names}
    return any("/".join(n.split("/")[:i]) in s for n in s for i in range(1, n.count("/") + 1))


@st.composite
def case(draw):
    files = draw(st.lists(st.tuples(PLAIN, CONT), max_size=6))
    mode = draw(st.sampled_from(["all", "all", "name", "path", "matcher", "cli-x", "cli-x", "cli-re", "cli-re"]))
    return {"files": files, "mode": mode, "flat": draw(st.booleans()), "pick": draw(st.integers(0, 9)),
            "exist": draw(st.lists(st.integers(0, 9), max_size=2)), "consent": draw(st.booleans()),
            "parent": draw(st.integers(0, 4)) == 0, "slash": draw(st.sampled_from(["", "", "/", "/."])),
            "re": draw(st.sampled_from([r".*\.nfo$", r".*(nfo|sfv)$", r"^sample/.*", r"a", r".*", r"zzz", r"[^/]*$", r"Proof/"])),
            "near": draw(st.sampled_from([None] * 4 + ["case", "dir", "cut", "tail", "up", "dot", "top"])), "rars": draw(st.booleans())}


def run(c, ctx):
    d = ctx.dir()
    out = os.path.join(d, "out")
    files = [(n, content.data(k)) for n, k in c["files"]]
    names = [n for n, _ in files]
    if conflict(names):
        raise Reject()
    flat = c["flat"]
    srr = os.path.join(d, "my.release.srr")
    b = rarw.srr_header("pyReScene test") + b"".join(rarw.srr_stored(n, x) for n, x in files)
    core.write(srr, b)
    mode = c["mode"]
    root = out
    if mode.startswith("cli") and c["parent"]:
        root = os.path.join(out, "my.release")

    def target(n):
        n = norm(n)
        return os.path.basename(n) if flat else n
    if mode in ("all", "cli-x"):
        sel = list(files)
    elif mode in ("name", "path"):
        if not files:
            raise Reject()
        want = norm(files[c["pick"] % len(files)][0])
        if mode == "name":
            want = os.path.basename(want)
        if c.get("near"):       # a name that only resembles the stored one
            want = {"case": want.swapcase(), "dir": "zz/" + want, "cut": want[1:], "tail": want[:-1], "up": want.partition("/")[2], "dot": "./" + want, "top": norm(files[c["pick"] % len(files)][0]).split("/")[0]}[c["near"]]
            if not want or want.endswith(("/", "/.", "/..")) or want in (".", "..") or want.startswith("/"):
                raise Reject()
        asked = want
        if "/" in want:
            want = os.path.normpath(want)
            if "/" not in want:     # the path is given: only the file in that folder
                sel = [f for f in files if norm(f[0]) == want]
        # a name without a path selects every file with that base name
        if "/" in want or asked == want:
            sel = [f for f in files if (os.path.basename(norm(f[0])) == want if "/" not in want else norm(f[0]) == want)]
    elif mode == "matcher":
        keep = {n for i, n in enumerate(names) if (c["pick"] >> (i % 3)) & 1}
        sel = [f for f in files if f[0] in keep]
    else:
        sel = [f for f in files if re.compile(c["re"], re.I).match(f[0])]
    want, exp = {}, []
    for i in c["exist"]:
        if files:
            t = target(files[i % len(files)][0])
            p = os.path.join(root, t)
            if not os.path.isdir(p):
                try:
                    core.write(p, b"existing content")
                except (FileExistsError, NotADirectoryError):
                    raise Reject()
                want[t] = b"existing content"
    pre = set(want)
    for n, x in sel:
        t = target(n)
        if t in want and not c["consent"]:
            exp.append((t, False))
        else:
            want[t] = x
            exp.append((t, True))
    if conflict(want):
        raise Reject()
    ctx.nontrivial(sel and (len(sel) < len(files) or pre or (flat and any("/" in norm(n) for n, _ in sel))))
    ctx.label(mode, "flat" if flat else "paths")
    before = set(os.listdir(d)) | {"out"}
    if mode.startswith("cli"):
        argv = [srr, "-y" if c["consent"] else "-n", "-o", out + c["slash"]]
        argv += ["-x"] if mode == "cli-x" else ["--extract-regex", c["re"]]
        argv += ["-p"] if not flat else []
        argv += ["-d"] if c["parent"] else []
        r = core.cli(CLI.main, argv, cwd=d)
        check(r.rc == (0 if all(s for _t, s in exp) else 1), "exit code %r, expected files %r: %r", r.rc, exp, r)
        good = [l[:-len(": extracted.")] for l in r.out.splitlines() if l.endswith(": extracted.")]
        bad = [l[:-len(": not extracted!")] for l in r.err.splitlines() if l.endswith(": not extracted!")]
        if not any("\n" in n or "\r" in n for n in names):
            check(good == [t for t, s in exp if s], "reported as extracted: %r, expected %r", good, exp)
            check(bad == [t for t, s in exp if not s], "reported as not extracted: %r, expected %r", bad, exp)
    else:
        old = M.can_overwrite
        if c["consent"]:
            M.can_overwrite = lambda p: True
        ev = S.events()
        try:
            with core.quiet():
                if mode == "all":
                    r = M.extract_files(srr, out, not flat)
                elif mode == "matcher":
                    r = M.extract_files(srr, out, not flat, matcher=lambda n: n in keep)
                else:
                    r = M.extract_files(srr, out, not flat, packed_name=asked)
                    if not c.get("exist"):
                        check(ev.has(M.MsgCode.NO_EXTRACTION) == (not sel), "%r: 'requested file not found' reported: %r", asked, bool(sel))
        finally:
            M.can_overwrite = old
        got = [(os.path.relpath(p, root), s) for p, s in r]
        check(got == exp, "extract_files returned %r, expected %r", got, exp)
    S.same_tree(core.tree(root) if os.path.isdir(root) else {}, want, "extraction (%s)" % mode)
    check(set(os.listdir(d)) | {"out"} == before, "files outside the output folder: %r", os.listdir(d))
    check(core.read(srr) == b, "extraction changed the SRR")


HOST = ["../{x}", "..\\{x}", "../../{x}", "a/../../{x}", "a\\..\\..\\{x}", "{abs}/{x}", "/{rel}/{x}", "{abs}/sub/{x}", "\\{rel}\\{x}", "./../{x}", "a/../{x}", "./{x}", ".",
        "..", "", "/", "a//{x}", "a/", "../../../{x}", "../../../../{x}", "..//{x}", "...//../../{x}", "x/./../../{x}", "{x}/..", "{x}/.", "a/b/../../../../{x}", "C:\\..\\..\\{x}",
        "\\\\?\\{abs}\\{x}", "nul\0{x}", "..\0/../{x}", " ../{x}", ".. /{x}", "file://{abs}/{x}", "{abs}"]


@st.composite
def hostile(draw):
    return {"good": draw(st.lists(st.tuples(st.sampled_from(["ok.nfo", "Sample/ok.srs", "k\\l.txt"]), CONT), max_size=3, unique_by=lambda t: t[0])),
            "bad": draw(st.sampled_from(HOST)), "x": draw(st.sampled_from(["evil.txt", "out2", "keep.txt"])),
            "pos": draw(st.integers(0, 3)), "c": draw(CONT), "how": draw(st.sampled_from(["api", "api", "cli", "regex", "rebuild", "rebuild", "rar", "rar", "rar-cli", "name"])),
            "flat": draw(st.booleans()), "consent": draw(st.booleans()), "set": draw(gen.rarset(max_vols=2, max_files=1, hi=100, rich=False, rr=False))}


def hrun(c, ctx):
    d = ctx.dir()
    deep = os.path.join(d, "p1", "p2", "p3", "p4")
    out = os.path.join(deep, "out")
    inp = os.path.join(d, "in")
    os.makedirs(out), os.makedirs(inp)
    absd = os.path.join(d, "abs")
    os.makedirs(os.path.join(absd, "sub"))
    core.write(os.path.join(deep, "keep.txt"), b"keep")
    core.write(os.path.join(absd, "keep.txt"), b"keep")
    bad = c["bad"].replace("{abs}", absd).replace("{rel}", absd.lstrip("/").replace("/", "\\" if "\\{rel}" in c["bad"] else "/")).replace("{x}", c["x"])
    good = [(n, content.data(k)) for n, k in c["good"]]
    evil = content.data(c["c"])
    rar = c["how"].startswith("rar")
    stored = list(good)
    if not rar:
        stored.insert(min(c["pos"], len(stored)), (bad, evil))
    b = rarw.srr_header("pyReScene test") + b"".join(rarw.srr_stored(n, x) for n, x in stored)
    vols, files = rarw.build(c["set"])
    if rar or c["how"] == "rebuild":
        for i, v in enumerate(vols):
            b += rarw.srr_rar(bad if rar and i == c["pos"] % len(vols) else v.name) + bytes(v.meta)
    S.write_files(files, inp)
    srr = os.path.join(d, "e.srr")
    core.write(srr, b)
    ctx.nontrivial()
    ctx.label(c["how"], c["bad"])
    snap = snapshot(d, out)
    old = M.can_overwrite
    if c["consent"]:
        M.can_overwrite = lambda p: True
    err, results = None, []
    cwd = os.getcwd()
    os.chdir(deep)
    try:
        with core.quiet():
            if c["how"] == "api":
                results = M.extract_files(srr, out, not c["flat"])
            elif c["how"] == "name":
                results = M.extract_files(srr, out, not c["flat"], packed_name=bad if "\0" not in bad and bad else "x")
            elif c["how"] in ("cli", "regex", "rar-cli"):
                argv = [srr, "-y" if c["consent"] else "-n", "-o", out] + ([] if c["flat"] else ["-p"])
                argv += {"cli": ["-x"], "regex": ["--extract-regex", ".*"], "rar-cli": ["-i", inp]}[c["how"]]
                r = core.cli(CLI.main, argv, cwd=deep)
                check(not r.exc, "raw crash: %r", r)
            else:
                M.reconstruct(srr, inp, out, extract_paths=not c["flat"])
    except (ValueError, EnvironmentError, M.FileNotFound) as e:
        err = e
    finally:
        os.chdir(cwd)
        M.can_overwrite = old
    now = snapshot(d, out)
    check(now == snap, "name %r (%s) changed files outside the output folder: %r", bad, c["how"],
          sorted(set(now.items()) ^ set(snap.items()))[:4])
    for p, ok in results:
        rp = os.path.realpath(p)
        check(rp.startswith(os.path.realpath(out) + os.sep), "reported extraction target %r is outside", p)
    check(core.read(srr) == b, "SRR changed")


def snapshot(d, out):
    s = {}
    for r, dirs, fs in os.walk(d):
        if r == out:
            dirs[:] = []
            continue
        s[r] = "dir"
        for f in fs:
            p = os.path.join(r, f)
            s[p] = core.read(p) if os.path.isfile(p) else "?"
    s.pop(out, None)
    return s


LEGS = [Leg("extract", case, run, quick=2000, thorough=60000, shards=4),
        Leg("hostile", hostile, hrun, quick=1600, thorough=40000, shards=4)]
