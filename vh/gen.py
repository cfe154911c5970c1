"""Hypothesis strategies for RAR sets and releases (all JSON-able)."""
from hypothesis import strategies as st
from vh.rarw import dostime

KINDS = ["rand", "rand", "rand", "zero", "rep", "ff", "text", "crc0"]


def content(lo=0, hi=3000, big=None):
    sizes = [st.integers(lo, min(hi, 64)), st.integers(lo, hi),
             st.sampled_from([x for x in (0, 1, 511, 512, 513, 1024, 2047, 2048) if lo <= x <= hi] or [lo])]
    if big:
        sizes.append(st.sampled_from(big))
    return st.fixed_dictionaries({
        "n": st.one_of(*sizes), "s": st.integers(0, 999), "k": st.sampled_from(KINDS)})


BIG = [0xFFFF, 0x10000, 0x10001, 0x20000, 0x1FFFF, 70000, 131072 + 513, 262145, 330000, 420000]
STEM = st.one_of(
    st.sampled_from(["movie", "grp-rls", "a", "The.Thing.2010", "x y", "CD1", "sample-a", "UPPER", "b[1]", "a'b", "n#1", "100%"]),
    st.text("abcdefgXYZ0123456789-_. ()[]&!+,;=@~", min_size=1, max_size=14).map(
        lambda t: t.strip(" .") or "n"))
EXT = st.sampled_from(["avi", "mkv", "nfo", "dat", "txt", "iso", "mp4", "bin", "r", "AVI", "sub", "tar.gz"])
UNI = st.text(st.characters(min_codepoint=0x20, max_codepoint=0xFFFD,
                            blacklist_categories=("Cs", "Cc", "Cn", "Co", "Zl", "Zp"),
                            blacklist_characters="/\\:*?\"<>|\u2028\u2029"),
              min_size=1, max_size=10).map(lambda t: t.strip(" .") or "\u00e9")
GREEK = st.text("\u03b1\u03b2\u03b3\u03b4abc \u00e9\u00fc", min_size=1, max_size=10).map(
    lambda t: t.strip() or "\u03b1")
DIRS = st.sampled_from(["", "", "", "", "dir\\", "Sub Dir\\deep\\", "CD1\\"])


@st.composite
def ext4(draw):
    out = []
    for i in range(4):
        if draw(st.booleans()):
            out.append({"t": draw(dtime), "sec": draw(st.integers(0, 1)),
                        "x": draw(st.binary(max_size=3)).hex()})
        else:
            out.append(None)
    return out


dtime = st.builds(dostime, st.integers(1980, 2107), st.integers(1, 12),
                  st.integers(1, 28), st.integers(0, 23), st.integers(0, 59),
                  st.integers(0, 59))


@st.composite
def extra(draw, kinds=("cmt", "av", "acl", "stm", "oldcmt", "oldav76", "oldsub77", "sign79")):
    k = draw(st.sampled_from(kinds))
    d = {"kind": k, "h": draw(st.binary(min_size=0 if k == "cmt" else 1, max_size=40)).hex()}
    if k in ("cmt", "av") and draw(st.integers(0, 3)) == 0:
        d["long"] = False
    return d


@st.composite
def packed(draw, names, big=None, rich=True, unicode_ok=True, dirs=True, hi=3000):
    f = {}
    f["c"] = draw(content(hi=hi, big=big))
    d = draw(DIRS) if dirs else ""
    style = draw(st.integers(0, 9))
    if unicode_ok and style >= 8:
        f["uni"] = True
        f["name"] = d + draw(UNI if style == 8 else GREEK) + "." + draw(EXT)
        f["pick"] = draw(st.lists(st.integers(0, 59), min_size=1, max_size=6))
        if draw(st.integers(0, 2)) == 0:
            f["stdlow"] = True
    else:
        f["name"] = d + draw(STEM) + "." + draw(EXT)
    while f["name"].lower() in names:
        i = f["name"].rfind(".")
        f["name"] = f["name"][:i] + "_%d" % len(names) + f["name"][i:]
    names.add(f["name"].lower())
    if rich:
        f["time"] = draw(dtime)
        f["os"] = draw(st.sampled_from([0, 1, 2, 2, 2, 3, 4, 5]))
        f["attr"] = draw(st.sampled_from([32, 0, 0x81A4, 0xFFFFFFFF, 16]))
        f["ver"] = draw(st.sampled_from([15, 20, 26, 29, 36]))
        f["dict"] = draw(st.integers(0, 6))
        bits = draw(st.integers(0, 255))
        if bits & 7 == 1:
            f["large"] = True
        if bits & 0x18 == 8:
            f["salt"] = draw(st.binary(min_size=8, max_size=8)).hex()
        if bits & 0x60 == 0x20:
            f["ext"] = draw(ext4())
        if bits & 0x83 == 0x82:
            f["long"] = False
        if bits & 0x1C == 0x14:
            f["fcmt"] = draw(st.binary(min_size=1, max_size=20)).hex()
        if bits & 0x44 == 0x44:
            f["after"] = draw(st.lists(extra(), max_size=2))
        if bits & 0x90 == 0x90:
            f["xflags"] = draw(st.sampled_from([0x10, 0x800, 0x2000, 0x4000]))
    return f


def naming():
    return st.sampled_from(["old", "old", "part1", "part2", "part3", "num", "single"])


@st.composite
def rarset(draw, base=None, max_files=4, big=None, rich=True, unicode_ok=True,
           dirs=True, rr=True, names=None, max_vols=14, empty_ok=True, hi=3000,
           namings=None, first_min=0):
    s = {}
    s["base"] = base if base is not None else draw(st.one_of(
        st.sampled_from(["rls", "grp-movie", "a", "x.y.z", "disc1", "RLS", "some.release"]),
        st.text("abcXYZ019-_. ", min_size=1, max_size=10).map(lambda t: t.strip(" .") or "v")))
    s["naming"] = draw(st.sampled_from(namings) if namings else naming())
    s["upper"] = draw(st.integers(0, 7)) == 0
    names = set() if names is None else names
    nf = draw(st.integers(1, max_files))
    s["files"] = [draw(packed(names, big, rich, unicode_ok, dirs, hi)) for _ in range(nf)]
    if first_min and s["files"][0]["c"]["n"] < first_min:
        s["files"][0]["c"]["n"] += first_min
    if dirs and draw(st.integers(0, 5)) == 0:
        nm = draw(st.sampled_from(["dir", "emptydir", "Sub Dir"]))
        s["files"].append({"name": nm, "dir": True, "c": {"n": 0}})
    total = sum(f["c"]["n"] for f in s["files"])
    if s["naming"] == "single" or total == 0:
        s["caps"] = [1 << 40]
        if total == 0 and s["naming"] == "num":
            s["naming"] = "single"
    else:
        lim = {"part1": 9, "part2": 99}.get(s["naming"], 999)
        want = draw(st.integers(1, min(lim, max_vols, max(1, total))))
        cap = max(1, -(-total // want))
        caps = [cap]
        if draw(st.booleans()):
            caps = [max(1, cap + draw(st.integers(0, 600))) for _ in range(3)] + [cap]
        s["caps"] = caps
    if rich:
        s["mainflags"] = draw(st.sampled_from([0, 0, 0, 4, 8, 0x20]))
        s["res1"] = draw(st.sampled_from([0, 0, 1, 0xFFFF]))
        s["res2"] = draw(st.sampled_from([0, 0, 7, 0xFFFFFFFF]))
        s["allfirst"] = draw(st.integers(0, 4)) == 0
        s["firstflag"] = draw(st.integers(0, 3)) > 0
        b = draw(st.integers(0, 63))
        if b & 7 == 1:
            s["maincmt"] = [draw(st.binary(min_size=1, max_size=20)).hex()]
        if b & 0x18 == 8:
            s["pre"] = draw(st.lists(extra(), max_size=2))
        if b & 0x21 == 0x20:
            s["post"] = draw(st.lists(extra(), max_size=2))
    s["end"] = draw(st.sampled_from([None, "std", "crc", "full", "num", "p0w4"]))
    if rr and draw(st.integers(0, 2)) == 0:
        s["rr"] = {"style": draw(st.sampled_from(["old", "new"])),
                   "n": draw(st.one_of(st.integers(1, 8), st.integers(1, 40)))}
        if draw(st.integers(0, 4)) == 0 and s["rr"]["style"] == "new":
            s["rr"]["long"] = False
    if s["end"] and draw(st.integers(0, 3)) == 0:
        s["pad"] = draw(content(1, 60))
        if big and draw(st.booleans()):
            s["pad"]["n"] *= 1201
    return s


def app_name():
    return st.one_of(st.sampled_from(["", "pyReScene 0.7", "ReScene .NET 1.2"]),
                     st.text(max_size=20).filter(lambda t: "\0" not in t))


STORED_NAME = st.one_of(
    st.sampled_from(["rls.nfo", "rls.sfv", "Sample/rls-sample.srs", "Proof/p.jpg", "a", "Subs/x.sfv", "x y.txt"]),
    st.lists(st.text("abcXYZ019-_ .()&\u00e9\u03b1[]", min_size=1, max_size=8).map(
        lambda t: t.strip(" .") or "f"), min_size=1, max_size=3).map("/".join))
