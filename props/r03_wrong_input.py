"""R03: a rebuild from wrong input is always reported."""
import os, shutil, zlib
from hypothesis import strategies as st
from vh import core, gen, rarw, srr as S
from vh.core import Leg, check
from rescene import main as M
from rescene import srr as CLI

RULE = ("A case is a generated store-mode set plus 0-2 corruptions of packed files (byte flips at "
        "chosen offsets, truncation, extension, zeroed range, swapped ranges, deletion). Non-trivial: at "
        "least one corruption that really changes a file.")
ASSUMPTIONS = ["the corruption changes the CRC-32 of the file (checked per case)"]


@st.composite
def corruption(draw):
    return {"f": draw(st.integers(0, 9)),
            "op": draw(st.sampled_from(["flip", "flip", "flip", "trunc", "extend", "zero", "swap", "delete", "empty", "all", "crc0"])),
            "at": draw(st.integers(0, 1 << 20)), "n": draw(st.sampled_from([1, 1, 2, 7, 512, 5000])),
            "end": draw(st.integers(0, 3)) == 0}


def case(cli=False, big=None, hi=3000):
    @st.composite
    def c(draw):
        return {"set": draw(gen.rarset(max_vols=9, max_files=4, rich=draw(st.booleans()), big=big, hi=hi,
                                       namings=["old", "part1", "part2", "single"] if cli else None)),
                "cor": draw(st.lists(corruption(), min_size=0 if draw(st.integers(0, 5)) == 0 else 1, max_size=2)),
                "auto": draw(st.booleans()), "cli": cli}
    return c


def corrupt(b, k):
    op, n = k["op"], k["n"]
    at = k["at"] % max(1, len(b))
    if k["end"] and b:
        at = max(0, len(b) - 1 - k["at"] % 3)
    if op == "flip":
        if not b:
            return b"!"
        x = bytearray(b)
        for i in range(at, min(len(b), at + n)):
            x[i] ^= 1 + (k["at"] >> 3) % 255
        return bytes(x)
    if op == "trunc":
        return b[:max(0, len(b) - n)]
    if op == "extend":
        return b + bytes(n)
    if op == "zero":
        return b[:at] + bytes(min(n, len(b) - at)) + b[at + n:]
    if op == "swap":
        h = min(n, len(b) // 2)
        return b[len(b) - h:] + b[h:len(b) - h] + b[:h] if h else b
    if op == "empty":
        return b""
    if op == "crc0" and len(b) >= 4:     # the wrong file has 00000000 as its CRC-32
        return b[:-4] + (~zlib.crc32(b[:-4]) & 0xFFFFFFFF ^ 0x9226F562).to_bytes(4, "little")
    if op in ("all", "crc0"):
        return bytes(255 - x for x in b)
    return None


def run(c, ctx):
    d = ctx.dir()
    rel, inp, out = (os.path.join(d, x) for x in ("rel", "in", "out"))
    for x in (rel, inp, out):
        os.makedirs(x)
    vols, files, paths = S.write_set(c["set"], rel)
    want = {v.name: bytes(v.raw) for v in vols}
    srr = os.path.join(d, "x.srr")
    check(S.create(srr, [paths[0]]) is True, "creation failed")
    shutil.rmtree(rel)
    S.write_files(files, inp)
    bad = {}
    names = sorted(files)
    for k in c["cor"]:
        if not names:
            break
        n = names[k["f"] % len(names)]
        if n in bad:
            continue
        b = corrupt(files[n], k)
        if b == files[n]:
            continue
        bad[n] = b
        ctx.label(k["op"])
        if b is None:
            os.remove(os.path.join(inp, n))
        else:
            core.write(os.path.join(inp, n), b)
    ctx.nontrivial(bad)
    if not bad:
        ctx.label("correct-input")
    if any(b is None for b in bad.values()) and c["auto"]:
        # another file with the same extension and size may be tried: still wrong or identical
        c = dict(c, auto=False)
    if c["cli"]:
        args = [srr, "-y", "-i", inp, "-o", out] + (["-r"] if c["auto"] else [])
        r = core.cli(CLI.main, args, cwd=d)
        text = (r.out + r.err).lower()
        if bad:
            check(r.rc != 0 or "mismatch" in text or "corrupt" in text,
                  "corrupt %r went unreported on the command line: %r", sorted(bad), r)
        else:
            check(r.rc == 0 and "mismatch" not in text, "correct input was reported: %r", r)
            S.same_tree(core.tree(out), want, "rebuild")
        return
    ev = S.events()
    ev.clear()
    err = None
    try:
        r = S.reconstruct(srr, inp, out, auto_locate_renamed=c["auto"])
    except (M.FileNotFound, M.InvalidFileSize, EnvironmentError) as e:
        err = e
    reported = err is not None or ev.has(M.MsgCode.CRC) or r in (-1, False)
    if bad:
        check(reported, "wrong input %r was not reported", {n: (b if b is None else len(b)) for n, b in bad.items()})
        if err is None:
            # what does not depend on the bad files is still right
            pass
    else:
        check(not reported, "correct input was reported: %r", err)
        S.same_tree(core.tree(out), want, "rebuild")


LEGS = [Leg("api", case(), run, quick=1600, thorough=50000, shards=4),
        Leg("big", case(big=gen.BIG, hi=70000), run, quick=200, thorough=8000, shards=2),
        Leg("command-line", case(cli=True), run, quick=300, thorough=8000, shards=2)]
