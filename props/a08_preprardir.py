"""A08: preprardir.py makes a folder of RAR programs out of RAR distributions."""
import io, os, stat, tarfile, time, calendar
from hypothesis import strategies as st
from vh import core, rarw
from vh.core import Leg, check
from vh.srr import bin_tool

RULE = ("a folder of generated RAR distributions (tar.gz for Linux, BSD and OS X; self-extracting archives for Windows and Linux; betas, very old and 64 bit ones; some damaged or without the program) and other files is given to "
        "preprardir.py with an unrar, without one, or with one that warns or fails; non-trivial when a program is expected and something must be left out or several kinds are mixed")
ASSUMPTIONS = ["unrar is a stand-in that finds the named file in a store-mode archive and ends with the exit code the archive asks for", "two distributions of one version and date are equally good"]

UNRAR = r'''#!/bin/sh
exec %s -S -E - "$@" <<'PY'
import os, struct, sys
cmd, arc, name, dest = sys.argv[1:5]
b = open(arc, "rb").read()
p = b.find(b"Rar!\x1a\x07\x00")
rc = 1 if b.endswith(b"EXIT1") else 3 if b.endswith(b"EXIT3") else 0
while cmd == "e" and 0 <= p and p + 7 <= len(b):
    t, fl, n = b[p + 2], struct.unpack_from("<H", b, p + 3)[0], struct.unpack_from("<H", b, p + 5)[0]
    add = struct.unpack_from("<L", b, p + 7)[0] if fl & 0x8000 else 0
    if t == 0x74:
        k = struct.unpack_from("<H", b, p + 26)[0]
        s = b[p + 32:p + 32 + k].decode("ascii").replace("\\", "/")
        if s == name:
            d = b[p + n:p + n + add]
            open(os.path.join(dest, os.path.basename(s)), "wb").write(d[:len(d) // 2] if rc == 3 else d)
            os._exit(rc)
    p += n + add
os._exit(10)
PY
'''

DATE = st.tuples(st.integers(1996, 2022), st.integers(1, 12), st.integers(1, 28), st.integers(0, 23))


@st.composite
def dist(draw):
    kind = draw(st.sampled_from(["tar", "tar", "exe", "exe", "sfx"]))
    big, small = draw(st.sampled_from([(1, 54), (2, 4), (2, 50), (2, 71), (3, 0), (3, 90), (3, 93), (4, 0), (4, 20), (5, 1), (5, 31), (6, 2), (7, 10)]))
    beta = draw(st.sampled_from(["", "", "b1", "b5"]))
    x64 = draw(st.integers(0, 3)) == 0
    if kind == "tar":
        v = draw(st.sampled_from(["%d.%d.%d" % (big, small // 10, small % 10)] + (["%d.%d" % (big, small // 10)] if small % 10 == 0 else [])))
        fn = "rar%s-%s%s%s.tar.gz" % (draw(st.sampled_from(["linux", "osx", "bsd"])), "x64-" if x64 else "", v, "." + beta if beta else "")
        inner = "rar/rar"
    elif kind == "exe":
        s = "%02d" % small
        if small % 10 == 0 and draw(st.booleans()):
            s = s[:1]
        fn = "%s%d%s%s%s" % ("winrar-x64-" if x64 else "wrar", big, s, beta, draw(st.sampled_from([".exe", ".exe", "de.exe"])))
        inner = draw(st.sampled_from(["Rar.exe", "Rar.exe", "Rar.Exe"]))
    else:
        fn = "rarln%d%02d%s.sfx" % (big, small, beta)
        inner = draw(st.sampled_from(["rar\\rar", "rar"]))
    return {"kind": kind, "fn": fn, "v": "%d%02d%s" % (big, small, beta), "big": big, "beta": beta, "inner": inner, "date": draw(DATE), "n": draw(st.integers(0, 300)), "stub": draw(st.sampled_from([2, 80, 300, 5000, 70000])),
            "state": draw(st.sampled_from(["good"] * 8 + ["norar", "text", "cut", "empty", "dir"])), "unrar": draw(st.sampled_from(["", "", "", "", "EXIT1", "EXIT3"])), "at": draw(st.integers(0, 2)), "cut": draw(st.integers(1, 9999))}


@st.composite
def case(draw):
    return {"d": draw(st.lists(dist(), min_size=1, max_size=5)), "junk": draw(st.lists(st.sampled_from(["readme.txt", "rar.exe.bak", "order.htm", "Keygen.nfo", "wrar420.txt", "420.exe"]), max_size=2, unique=True)),
            "b": draw(st.booleans()), "unrar": draw(st.integers(0, 5)) > 0, "out": draw(st.sampled_from(["new", "new", "old", "deep"])), "key": draw(st.sampled_from(["", "", "rarreg.key", ".rarreg.key", ".rarregkey", "winrar"])),
            "rel": draw(st.booleans()), "again": draw(st.integers(0, 3)) == 0}


def make(x, i):
    """-> (bytes of the distribution, the program in it or None)"""
    prog = (b"program %d of %s " % (i, x["fn"].encode())) * 3 + bytes(x["n"])
    y, mo, d, h = x["date"]
    others = [("WinRAR.exe", b"other"), ("rar.txt", b"manual"), ("license.txt", b"")]
    if x["state"] == "empty":
        return b"", None
    if x["state"] == "text":
        return b"this was no good download\r\n" * (x["n"] + 1), None
    if x["kind"] == "tar":
        o = io.BytesIO()
        with tarfile.open(fileobj=o, mode="w:gz") as t:
            def add(n, b, mode=0o644):
                m = tarfile.TarInfo(n)
                m.size, m.mode, m.mtime = len(b), mode, calendar.timegm((y, mo, d, h, 0, 0))
                t.addfile(m, io.BytesIO(b))
            for j, (n, b) in enumerate(others):
                if j == x["at"] and x["state"] != "norar":
                    add("rar/rar", prog, 0o755)
                add("rar/" + n, b)
        b = o.getvalue()
        return (b[:20], None) if x["state"] == "cut" else (b, None if x["state"] == "norar" else prog)
    fs = list(others)
    if x["state"] != "norar":
        fs.insert(x["at"], (x["inner"], prog))
    files = [{"name": n, "c": {"n": len(b), "k": "lit", "h": b.hex()}, "time": rarw.dostime(y, mo, d, h)} for n, b in fs]
    v = rarw.build({"base": "x", "naming": "single", "caps": [1 << 40], "end": "std", "files": files})[0][0]
    b = b"MZ" + b"\x90" * x["stub"] + bytes(v.raw)
    if x["state"] == "cut":
        return b[:2 + x["stub"]], None
    return b + x["unrar"].encode(), None if x["state"] == "norar" else prog


def run(c, ctx):
    base = ctx.dir()
    inp, out, home, fake = (os.path.join(base, x) for x in ("in", "out", "home", "bin"))
    for p in (inp, home, fake):
        os.makedirs(p)
    if c["out"] == "deep":
        out = os.path.join(out, "a b", "c")
    want, errors, seen, left, needs = {}, set(), set(), 0, False
    for i, x in enumerate(c["d"]):
        if x["fn"].lower() in seen:
            continue
        seen.add(x["fn"].lower())
        if x["state"] == "dir":
            os.makedirs(os.path.join(inp, x["fn"]))
            prog = None
        else:
            b, prog = make(x, i)
            core.write(os.path.join(inp, x["fn"]), b)
        if x["big"] < 2 or (x["beta"] and not c["b"]):
            left += 1
            continue
        if prog is None:
            errors.add(x["fn"])
            left += 1
            continue
        needs = needs or x["kind"] != "tar"
        if x["kind"] != "tar" and (not c["unrar"] or x["unrar"] == "EXIT3"):
            left += 1
            continue
        n = "%04d-%02d-%02d_rar%s%s" % (x["date"][:3] + (x["v"], ".exe" if x["kind"] == "exe" else ""))
        want.setdefault(n, []).append(prog)
    for n in c["junk"]:
        core.write(os.path.join(inp, n), b"junk")
    if c["unrar"]:
        p = core.write(os.path.join(fake, "unrar"), (UNRAR % "/usr/bin/python3").encode())
        os.chmod(p, 0o755)
    if c["key"]:
        if c["key"] == "winrar":
            core.write(os.path.join(fake, "RarReg.key"), b"licence")
        else:
            core.write(os.path.join(home, c["key"]), b"licence")
    old = {}
    if c["out"] == "old":
        old = {"mine.txt": b"mine"}
        if want and c["again"]:
            old[sorted(want)[0]] = b"older program"
        for n, d in old.items():
            core.write(os.path.join(out, n), d)
    before = core.tree(inp)

    def setup():
        os.environ.update(PATH=fake + ":/bin" if not os.path.exists("/bin/unrar") else fake, HOME=home, TZ="UTC")
        os.environ.pop("appdata", None)
        time.tzset()
    argv = ["in" if c["rel"] else inp, os.path.relpath(out, base) if c["rel"] else out] + (["-b"] if c["b"] else [])
    r = core.fork_run(lambda: bin_tool("preprardir", argv), cwd=base, before=setup, timeout=60)
    check(not r.killed, "did not end")
    check(not r.exc or r.exc.startswith("SystemExit"), "preprardir %r: %r", argv, r)
    got = core.tree(out) if os.path.isdir(out) else {}
    if not c["unrar"] and needs:
        check(r.rc == 1 and "UnRAR" in r.out, "no unrar, but: %r", r)
        for n, d in got.items():
            check(d == old.get(n) or d in want.get(n, []) or n in ("rarreg.key", ".rarreg.key", ".rarregkey"), "%s has other contents", n)
        ctx.label("no unrar")
        return
    check(r.rc in (0, None), "preprardir %r: %r", argv, r)
    keys = {"winrar": "RarReg.key"}.get(c["key"], c["key"])
    if c["key"] and (c["key"] != "winrar" or c["unrar"]):
        check(got.pop(keys, None) == b"licence", "the licence file was not copied: %s", r.out[-300:])
    expect = set(want) | set(old)
    check(set(got) == expect, "the folder has %r, without %r: %s", sorted(set(got) - expect), sorted(expect - set(got)), r.out[-700:])
    for n, d in got.items():
        check(d in want[n] if n in want else d == old[n], "%s has other contents", n)
    for n in want:
        if not n.endswith(".exe") and all(x["kind"] == "tar" for x in c["d"]):
            check(os.stat(os.path.join(out, n)).st_mode & stat.S_IXUSR, "%s cannot be executed", n)
    for e in errors:
        check("error: %s" % e in r.out, "%s is not reported: %s", e, r.out[-500:])
    check(core.tree(inp) == before, "the input folder changed")
    # what was made is what a rebuild uses
    from rescene import main as M
    rep = M.RarRepository(out)
    exes = {n for n in expect if n[:4].isdigit()}
    check({e.file_name for e in rep.rar_executables} == exes and rep.count() == len(exes), "a rebuild sees %r", [e.file_name for e in rep.rar_executables])
    for day in ("1990-01-01", "2008-01-01", "2030-01-01"):
        e = rep.get_rar_executables(day)
        check(sorted(x.file_name for x in e) == sorted(exes), "programs to try for %s: %r", day, [x.file_name for x in e])
        if any(n[:10] >= day for n in exes):
            check(e[0].date == min(n[:10] for n in exes if n[:10] >= day), "first to try for %s: %r", day, e[0].file_name)
    ctx.nontrivial(want and (left or len({x["kind"] for x in c["d"]}) > 1))
    ctx.label("made:%d" % len(want), *(["errors"] if errors else []), *sorted({x["kind"] for x in c["d"]}))


LEGS = [Leg("prepare", case, run, quick=800, thorough=20000, shards=8)]
