"""A07: bitflip.py finds the one damaged bit, pair of bits or byte of a file from the CRC-32 it must have."""
import os, runpy, sys, zlib
from hypothesis import strategies as st
from vh import core, gen, content
from vh.core import Leg, check, Reject

RULE = "a file with one damaged bit, pair of adjacent bits, byte or two places, a kind of search, a range that holds the damage or not, and a window size; non-trivial when the damage is found or lies outside of the range or kind searched"
ASSUMPTIONS = ["the file has at most 1500 bytes (the time needed is linear in the size)"]


def script(argv):
    """The tool as a script: its options are part of what it promises."""
    p = os.path.join(core.REPO, "scripts", "bitflip.py")
    sys.argv = [p] + list(argv)
    runpy.run_path(p, run_name="__main__")


@st.composite
def case(draw):
    n = draw(st.one_of(st.integers(1, 40), st.integers(1, 400), st.integers(1, 1500)))
    return {"c": {"n": n, "s": draw(st.integers(0, 2000)), "k": draw(st.sampled_from(["rand", "rand", "zero", "text", "ff"]))}, "pos": draw(st.integers(0, 9999)), "edge": draw(st.sampled_from([None, None, None, 0, -1])),
            "damage": draw(st.sampled_from(["bit", "bit", "pair", "byte", "none", "two"])), "bit": draw(st.integers(0, 7)), "val": draw(st.integers(1, 255)), "mode": draw(st.sampled_from(["", "", "--byte", "--bitswitch"])),
            "skip": draw(st.one_of(st.none(), st.integers(1, 50), st.integers(1, 2000), st.sampled_from([1, 2, 1000]))), "range": draw(st.sampled_from([None, None, "in", "tight", "after", "before", "long", "any"])),
            "a": draw(st.integers(0, 300)), "b": draw(st.integers(0, 300)), "low": draw(st.booleans())}


def run(c, ctx):
    good = content.data(c["c"])
    n = len(good)
    pos = c["pos"] % n if c["edge"] is None else c["edge"] % n
    x = {"bit": 1 << c["bit"], "pair": 3 << c["bit"] % 7, "byte": c["val"], "none": 0, "two": c["val"]}[c["damage"]]
    bad = bytearray(good)
    bad[pos] ^= x
    if c["damage"] == "two":
        if n < 2:
            raise Reject("one byte")
        bad[(pos + 1 + c["a"] % (n - 1)) % n] ^= 1 << c["bit"]
        if bytes(bad) == good:
            raise Reject("no damage")
    d = ctx.dir()
    p = core.write(os.path.join(d, "file.r00"), bytes(bad))
    lo, hi = {None: (0, n), "in": (pos - c["a"], pos + 1 + c["b"]), "tight": (pos, pos + 1), "after": (pos + 1, pos + 2 + c["b"]), "before": (pos - 1 - c["a"], pos), "long": (pos // 2, n + 100), "any": (c["a"], c["a"] + 1 + c["b"])}[c["range"]]
    lo = max(0, lo)
    if lo >= n or lo >= hi:
        raise Reject("range")
    crc = ("%08x" if c["low"] else "%08X") % zlib.crc32(good)
    args = [p, crc] + ([str(lo), str(hi)] if c["range"] else [])
    args += (["-s", str(c["skip"])] if c["skip"] else []) + ([c["mode"]] if c["mode"] else [])
    r = core.cli(script, args, cwd=d)
    check(not r.exc and r.rc == 0, "bitflip %r: %r", args, r)
    got = core.tree(d)
    check(got.pop("file.r00") == bytes(bad), "the file itself changed")
    kinds = {"": [1 << i for i in range(8)], "--bitswitch": [3 << i for i in range(7)], "--byte": list(range(1, 256))}[c["mode"]]
    found = c["damage"] not in ("none", "two") and x in kinds and lo <= pos < hi
    ctx.nontrivial(c["damage"] != "none")
    ctx.label(c["damage"], c["mode"] or "flip", "found" if found else "not found", "range:%s" % c["range"])
    if c["damage"] == "none" and c["mode"] == "--byte":
        check(all(v == good for v in got.values()), "an undamaged file gave %r", sorted(got))
        return
    want = {"file.r00.%d.fixed" % pos: good} if found else {}
    check(got == want, "damage at %d (%s), searched %d-%d with %r: made %r, expected %r; %s", pos, c["damage"], lo, hi, c["mode"], sorted(got), sorted(want), r.out[-200:])


LEGS = [Leg("flip", case, run, quick=1600, thorough=60000, shards=8)]
