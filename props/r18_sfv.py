"""R18: SFV parsing recovers exactly the listed names and checksums."""
import io, os, random
from hypothesis import strategies as st
from vh import core
from vh.core import Leg, check, Reject
from rescene.utility import parse_sfv_data, parse_sfv_file, same_sfv, SfvEntry

RULE = ("parse: a case is an SFV text assembled from up to 12 lines (entries with any byte of the latin-1 range in their names, 1-8 digit checksums, blanks and tabs as separators, quotes; "
        "comments; blank lines; malformed lines) with one or mixed line endings; the parts are known, so the expected result is. Non-trivial: at least one entry and one line "
        "of another kind, or an unusual name. same: two SFV files are the same exactly when they list the same entries, whatever the order, letter case, comments and spacing. "
        "noise: any byte string parses without an error and every line is accounted for once.")
ASSUMPTIONS = ["names and comments are single-byte text (latin-1), as documented; tab characters only separate",
               "a malformed line is one without a blank, without a name, or whose last word is not 1-8 hexadecimal digits"]

BYTES = bytes(b for b in range(0x21, 0x100) if b not in b';"\x7f')
NAMECH = st.sampled_from([chr(b) for b in BYTES] + list("abcdefgh.rar012-_") * 8)
NAME = st.one_of(
    st.sampled_from(["grp-rls.rar", "grp-rls.r00", "a.part01.rar", "x.001", "Cover;front.jpg", "file with  two spaces.mp3", "Subs/a.rar", "CD1\\b.rar",
                     "\u00e0 la carte.avi", "\u00a0x.rar", "x\u0085", "DEADBEEF", "deadbeef 12345678", "a=b#c", "a\u00b2", "1234567", "caf\u00e9.nfo"]),
    st.tuples(NAMECH, st.text(st.one_of(NAMECH, st.just(" "), st.just(";"), st.just('"')), max_size=14), NAMECH).map("".join),
    NAMECH)
HEX = st.one_of(st.text("0123456789abcdefABCDEF", min_size=8, max_size=8), st.text("0123456789abcdefABCDEF", min_size=1, max_size=8))
SEP = st.one_of(st.just(" "), st.text(" \t", min_size=1, max_size=5))
TEXT = st.text(st.one_of(st.sampled_from(" \t;abcdef0123456789.-_|\""), st.characters(min_codepoint=0x20, max_codepoint=0xFF, blacklist_categories=("Cc",))), max_size=25)


def is_bad(t):
    """Neither blank, nor comment, nor name + blank + 1-8 hex digits."""
    t = t.strip("\t \n\r\x0b\x0c")
    if not t or t[0] == ";":
        return False
    t = t.replace("\t", " ")
    if " " not in t:
        return True
    last = t.rsplit(" ", 1)[1]
    return not (1 <= len(last) <= 8 and all(c in "0123456789abcdefABCDEF" for c in last))


BAD = st.one_of(
    st.sampled_from(["justname.rar", "name.rar 123456789", "name.rar 1234567G", "name 0x12345678", "name.rar12345678", "illegal.rar AABBCCDD ; comment", "-----",
                     "a.rar \u00a02345678", "a.rar 1234567\u00b2", " 12345678", "\t12345678", "12345678", '"" 12345678', "a.rar -1234567", "a.rar +1", "a.rar 1234_678", "a.rar\u00a012345678"]),
    TEXT.filter(is_bad))


@st.composite
def line(draw):
    k = draw(st.sampled_from(["e", "e", "e", "c", "b", "x"]))
    if k == "e":
        n = draw(NAME)
        return ["e", n, draw(HEX), draw(st.sampled_from(["", "", "", " ", "\t", "  "])), draw(SEP), draw(st.sampled_from(["", "", " ", "\t ", "   "])), draw(st.integers(0, 5)) == 0]
    if k == "c":
        return ["c", draw(st.sampled_from(["", "", " ", "\t", "   "])) + ";" + draw(TEXT)]
    if k == "b":
        return ["b", draw(st.text(" \t", max_size=4))]
    return ["x", draw(BAD)]


@st.composite
def case(draw):
    return {"lines": draw(st.lists(line(), max_size=12)), "eol": draw(st.sampled_from(["\r\n", "\n", "\r", "\r\r", "\r\r\n", "mix"])),
            "last": draw(st.booleans()), "seed": draw(st.integers(0, 99)), "via": draw(st.sampled_from(["data", "file", "path"]))}


def build(c):
    out, ents, coms, bads = "", [], [], []
    r = random.Random(c["seed"])
    for i, l in enumerate(c["lines"]):
        if l[0] == "e":
            _, n, h, lead, sep, tail, q = l
            text = lead + ('"%s"' % n if q else n) + sep + h + tail
            ents.append((n.strip('"'), h.rjust(8, "0")))
        else:
            text = l[1]
            if l[0] == "c":
                coms.append(text)
            elif l[0] == "x":
                bads.append(text.rstrip(" \t"))
        out += text
        if i + 1 < len(c["lines"]) or c["last"]:
            out += r.choice(["\r\n", "\n", "\r"]) if c["eol"] == "mix" else c["eol"]
    return out.encode("latin-1"), ents, coms, bads


def run(c, ctx):
    data, ents, coms, bads = build(c)
    if c["via"] == "data":
        r = parse_sfv_data(data)
    elif c["via"] == "file":
        f = io.BytesIO(data)
        f.seek(len(data) // 2)
        r = parse_sfv_file(f)
    else:
        r = parse_sfv_file(core.write(os.path.join(ctx.dir(), "x.sfv"), data))
    got = [(e.file_name, e.crc32) for e in r[0]]
    check(got == ents, "entries %r, expected %r from %r", got, ents, data)
    check(r[1] == coms, "comments %r, expected %r from %r", r[1], coms, data)
    check([x.strip() for x in r[2]] == [x.strip() for x in bads], "errors %r, expected %r from %r", r[2], bads, data)
    ctx.nontrivial(ents and (len(ents) < len(c["lines"]) or any(not n.isalnum() for n, _h in ents)))
    ctx.label(c["eol"] if c["eol"] == "mix" else c["eol"].encode().hex())


# ------------------------------------------------------------------ same
PLAIN = st.one_of(st.sampled_from(["a.rar", "a.r00", "a.r01", "b.rar", "B.r00", "a.part1.rar", "a.part2.rar", "x y.mp3", "a.001", "a.s00", "a.ram", "a.r00.txt"]),
                  st.text("abcXYZ0189-_ .", min_size=1, max_size=10).map(lambda t: t.strip(" .") or "f"))


@st.composite
def same_case(draw):
    ents = draw(st.lists(st.tuples(PLAIN, st.text("0123456789abcdef", min_size=8, max_size=8)), min_size=1, max_size=9, unique_by=lambda t: t[0].lower()))
    return {"ents": ents, "seed": draw(st.integers(0, 999)), "change": draw(st.sampled_from([None, None, "crc", "name", "drop", "add"])), "i": draw(st.integers(0, 99))}


def same_run(c, ctx):
    d = ctx.dir()
    r = random.Random(c["seed"])
    ents = [tuple(e) for e in c["ents"]]
    two = list(ents)
    i = c["i"] % len(two)
    n, h = two[i]
    if c["change"] == "crc":
        two[i] = (n, "%08x" % (int(h, 16) ^ (1 << c["i"] % 32)))
    elif c["change"] == "name":
        two[i] = (n + "x", h)
        if any(o[0].lower() == n.lower() + "x" for o in ents):
            raise Reject()
    elif c["change"] == "drop":
        del two[i]
    elif c["change"] == "add":
        two.append(("extra-file.zip", h))

    def text(es, k):
        es = list(es)
        r.shuffle(es)
        jig = lambda t: "".join(x.upper() if r.random() < .3 else x.lower() if r.random() < .2 else x for x in t)
        ls = ["; made by %d" % k] * r.randrange(3) + [jig(n) + r.choice([" ", "  ", "\t"]) + jig(h) for n, h in es]
        return (r.choice(["\r\n", "\n"]).join(ls) + "\n").encode()
    a = core.write(os.path.join(d, "a.sfv"), text(ents, 1))
    b = core.write(os.path.join(d, "b.sfv"), text(two, 2))
    got = same_sfv(a, b)
    check(got == (c["change"] is None), "same_sfv is %r for %r and %r", got, core.read(a), core.read(b))
    ctx.nontrivial(len(ents) > 1)


# ----------------------------------------------------------------- noise
@st.composite
def noise_case(draw):
    parts = draw(st.lists(st.one_of(st.binary(max_size=20), st.sampled_from([b"\r", b"\n", b" ", b"\t", b";", b"\x0b", b"\x85", b"\xa0", b"a.rar 12345678", b"\x1c", b"\x00", b'"', b"\xef\xbb\xbf"])), max_size=12))
    return {"h": b"".join(parts).hex()}


def noise_run(c, ctx):
    data = bytes.fromhex(c["h"])
    e, k, x = parse_sfv_data(data)
    lines = [l for l in data.replace(b"\r", b"\n").split(b"\n") if l.strip(b" \t\x0b\x0c")]
    check(len(e) + len(k) + len(x) == len(lines), "%d lines give %d entries, %d comments and %d errors: %r", len(lines), len(e), len(k), len(x), data)
    check(len(k) == sum(l.lstrip(b" \t\x0b\x0c").startswith(b";") for l in lines), "comments %r from %r", k, data)
    for f in e:
        check(f.file_name and len(f.crc32) == 8 and all(ch in "0123456789abcdefABCDEF" for ch in f.crc32), "entry %r from %r", f, data)
        check(any(f.crc32.lstrip("0").encode() in l and f.file_name.encode("latin-1") in l.replace(b"\t", b"    ") for l in lines), "entry %r not in %r", f, data)
    ctx.nontrivial(len(lines) > 1)


LEGS = [Leg("parse", case, run, quick=4000, thorough=150000, shards=4),
        Leg("same", same_case, same_run, quick=800, thorough=20000, shards=2),
        Leg("noise", noise_case, noise_run, quick=3000, thorough=100000, shards=2)]
