"""R13: verification verdicts match the files on disk."""
import os, re, zlib
from hypothesis import strategies as st
from vh import core, content, gen, rarw, srr as S
from vh.core import Leg, check
from rescene import srr as CLI

RULE = ("A case is an SRR of 0-2 RAR sets (sub-directories, empty files, directories, files whose CRC-32 is 0) and the folder to verify in which each packed file is left as is, changed in one bit, truncated, extended, emptied, deleted, renamed, moved, swapped with another one or replaced by a directory, plus unrelated files of the same size; "
        "verified on the command line with and without auto-location, against an independent verdict per file. Non-trivial: at least one file is not simply intact.")
ASSUMPTIONS = ["the tool verifies the extracted files, not the volumes (its own help text); empty files and directories are not verified",
               "with both corrupt and missing files either non-zero status is right (the line per file tells which)"]
ACTS = ["ok", "ok", "ok", "flip", "flip", "cut", "ext", "empty", "del", "ren", "renext", "move", "rencut", "renflip", "dir", "swap", "upper"]


@st.composite
def case(draw):
    names, sets = set(), []
    for i in range(draw(st.sampled_from([0, 1, 1, 1, 1, 1, 2, 2]))):
        s = draw(gen.rarset(base="grp%d" % i, names=names, max_vols=4, max_files=3, hi=1500, big=gen.BIG + [500000]))
        for f in s["files"]:
            if f["c"]["n"] >= 4 and draw(st.integers(0, 7)) == 0:
                f["c"]["k"] = "crc0"
        sets.append(s)
    return {"sets": sets, "acts": draw(st.lists(st.tuples(st.sampled_from(ACTS), st.integers(0, 1 << 20)), min_size=8, max_size=8)),
            "auto": draw(st.booleans()), "noise": draw(st.booleans()), "created": draw(st.booleans()), "rel": draw(st.booleans())}


def run(c, ctx):
    d = ctx.dir()
    folder, files = os.path.join(d, "files"), {}
    os.makedirs(folder)
    srr = os.path.join(d, "x.srr")
    b = rarw.srr_header("x") + rarw.srr_stored("rls.nfo", b"nfo") 
    paths = []
    for s in c["sets"]:
        vols, f, p = S.write_set(s, os.path.join(d, "rel"))
        paths.append(p[0])
        files.update(f)
        b += b"".join(rarw.srr_rar(v.name) + bytes(v.meta) for v in vols)
    if c["created"] and c["sets"]:
        check(S.create(srr, paths, in_folder=os.path.join(d, "rel")) is True, "creation failed")
    else:
        core.write(srr, b)
    names = sorted(files)
    have, dirs = {}, []
    for i, n in enumerate(names):
        a, x = c["acts"][i % len(c["acts"])]
        data = files[n]
        stem, ext = os.path.splitext(n)
        if a in ("flip", "renflip") and data:
            k = x % len(data)
            data = data[:k] + bytes([data[k] ^ (1 << x % 8)]) + data[k + 1:]
        elif a in ("cut", "rencut") and data:
            data = data[:x % len(data)]
        elif a == "ext":
            data += bytes([x % 256])
        elif a == "empty":
            data = b""
        elif a == "swap":
            data = files[names[(i + 1) % len(names)]]
        if a == "del":
            continue
        if a == "dir":
            dirs.append(n)
            continue
        if a.startswith("ren"):
            n = stem + "_renamed" + (ext if a != "renext" else ext + "x")
        elif a == "move":
            n = "moved here/" + os.path.basename(n)
        elif a == "upper":
            n = n.upper()
        have[n] = data
    if c["noise"]:
        for i, n in enumerate(names):
            have["noise/n%d%s" % (i, os.path.splitext(n)[1])] = bytes(len(files[n]))
    for n, data in have.items():
        if os.path.lexists(os.path.join(folder, n)):
            continue
        core.write(os.path.join(folder, n), data)
    for n in dirs:
        os.makedirs(os.path.join(folder, n), exist_ok=True)
    disk = core.tree(folder)
    want = {}
    for n, data in files.items():
        if not data:
            continue
        if n in disk:
            want[n] = "ok" if zlib.crc32(disk[n]) == zlib.crc32(data) else "corrupt"
        elif c["auto"] and any(os.path.splitext(o)[1] == os.path.splitext(n)[1] and len(x) == len(data) and zlib.crc32(x) == zlib.crc32(data) for o, x in disk.items()):
            want[n] = "ok"
        else:
            want[n] = "missing"
    argv = [os.path.relpath(srr, folder) if c["rel"] else srr, "-q"] + (["-r"] if c["auto"] else []) + ([] if c["rel"] else ["-i", folder])
    r = core.cli(CLI.main, argv, cwd=folder)
    out = re.sub("[\b|/\\\\-]*\b", "", r.out)      # the progress spinner
    kinds = set(want.values()) - {"ok"}
    check(not r.exc and r.rc != 99, "verifying failed: %r", r)
    if not files and not any(f.get("dir") for s in c["sets"] for f in s["files"]):
        exp = {10}
    else:
        exp = {{"corrupt": 1, "missing": 2}[k] for k in kinds} or {0}
    check(r.rc in exp, "exit status %r, expected %r for %r: %r", r.rc, sorted(exp), want, r)
    if exp == {0}:
        check("All files OK!" in r.out, "no confirmation: %r", r)
    elif exp != {10}:
        check("Corrupt and/or missing" in r.out, "no report: %r", r)
    for n, k in want.items():
        if k == "ok":
            ok = "File OK: %s." % n in out or any(l.startswith("File OK: ") and l.endswith(" matches %s." % n) for l in out.splitlines())
        elif k == "corrupt":
            ok = "File CORRUPT: %s!" % n in out
        else:
            ok = "File %s not found." % n in out or "%s not found." % os.path.join(folder, n) in out
        check(ok, "%s is %s, but: %r", n, k, r)
    check(core.tree(folder) == disk, "verifying changed files")
    ctx.nontrivial(kinds or any(n not in disk for n, k in want.items() if k == "ok"))
    ctx.label("".join(sorted(kinds)) or "ok")


LEGS = [Leg("verify", case, run, quick=2400, thorough=40000, shards=6)]
