"""U01: yEnc articles decode to the original bytes with honest checks."""
import os, random, re, sys, zlib
from hypothesis import strategies as st
from vh import core
from vh.content import data as content
from vh import gen
from vh.core import Leg, check, Reject
sys.path.insert(0, os.path.join(core.REPO, "usenet"))
with core.quiet():
    import yenc

RULE = ("decode: a case is a payload, a legal yEnc framing made by this harness's own encoder (single part or one part of a multi-part post, line length 1-997, every optional header field, "
        "extra escapes, surrounding empty and text lines) and the decoded article must give exactly the bytes, offsets, sizes and name. Lines are passed as the NNTP layer delivers them (dots already un-stuffed). "
        "partial: the first n lines of an article decode to a prefix. junk: any list of lines is decoded or refused with a yEnc error. "
        "damage: one or more byte changes, dropped, doubled, swapped or inserted lines in the body or trailer: either the exact bytes come out or an error is raised. "
        "Non-trivial: payload above one line that needs escapes (decode); a changed body (damage).")
ASSUMPTIONS = ["the trailer carries the CRC of the part (pcrc32, or crc32 for single-part posts), as every poster writes it; 32-bit CRC collisions count as detection failures of the format, none arise by chance",
               "header lines (=ybegin, =ypart) are undamaged in the damage leg unless dropped as a whole"]

NAME = st.one_of(st.sampled_from(["file.rar", "a b.nfo", "-=DUMMY=- abc.par", "x part=3 y.rar", "k total=4.rar", "a=b", "name=x", "size=3 name=q.r00", "\u00e9t\u00e9.rar", "caf\u00e9 line=5.sfv", "\"quoted\".rar", ".hidden"]),
                 st.text(st.sampled_from(list("abcXYZ019 .-_=()[]&'+")), min_size=1, max_size=25)).map(str.strip).filter(bool)
PAY = st.one_of(gen.content(1, 6000), st.fixed_dictionaries({"n": st.integers(150, 3000), "s": st.integers(0, 999), "k": st.sampled_from(["rand", "rand", "rep", "text"])}), st.fixed_dictionaries({"n": st.integers(50, 1500), "s": st.integers(0, 999), "k": st.just("rand")}),
                st.tuples(st.sampled_from([0xe3, 0xe0, 0xd6, 0x13, 0xdf, 0xf6, 0x04, 0xd7, 0xf1]), st.integers(1, 400)).map(lambda t: {"kind": "lit", "hex": bytes([t[0]]).hex() * t[1]}),
                st.binary(min_size=1, max_size=300).map(lambda b: {"kind": "lit", "hex": b.hex()}))


@st.composite
def case(draw):
    return {"c": draw(PAY), "line": draw(st.one_of(st.sampled_from([128, 128, 256, 64]), st.integers(1, 60), st.integers(1, 997))), "name": draw(NAME), "multi": draw(st.booleans()), "total": draw(st.booleans()),
            "part": draw(st.integers(1, 300)), "parts": draw(st.integers(1, 300)), "before": draw(st.one_of(st.just(0), st.integers(0, 10 ** 7))), "after": draw(st.one_of(st.just(0), st.integers(0, 10 ** 7))),
            "esc": draw(st.sampled_from(["min", "min", "tab", "dot", "all", "any"])), "full": draw(st.booleans()), "lead": draw(st.integers(0, 3)), "trail": draw(st.sampled_from([0, 0, 1, 2, 3, 3, 8, 9])), "lower": draw(st.booleans()),
            "seed": draw(st.integers(0, 999))}


def lines(c, data):
    """Encodes with this harness's own encoder -> (list of lines, expected)."""
    r = random.Random(c["seed"])
    out, cur, n = [], bytearray(), 0
    for i, b in enumerate(data):
        e = (b + 42) & 255
        first, last = not cur, len(cur) >= c["line"] - 1
        if e in (0, 10, 13, 61) or (c["esc"] == "tab" and (e == 9 or (e == 32 and (first or last)))) or (c["esc"] == "dot" and e == 46 and first) or (c["esc"] == "all" and e in (9, 27, 32, 46)) or (
                c["esc"] == "any" and r.random() < .05 and (e + 64) & 255 not in (0, 10, 13, 121)):
            cur += bytes([61, (e + 64) & 255])
        else:
            cur.append(e)
        if len(cur) >= c["line"]:
            out.append(bytes(cur))
            cur = bytearray()
    if cur:
        out.append(bytes(cur))
    name = c["name"].encode("latin-1")
    crc = zlib.crc32(data) & 0xFFFFFFFF
    h = "%08x" if c["lower"] else "%08X"
    if c["multi"]:
        size = c["before"] + len(data) + c["after"]
        begin = b"=ybegin part=%d%s line=%d size=%d name=" % (c["part"], b" total=%d" % max(c["part"], c["parts"]) if c["total"] else b"", c["line"], size) + name
        body = [b"=ypart begin=%d end=%d" % (c["before"] + 1, c["before"] + len(data))] + out
        end = "=yend size=%d part=%d pcrc32=%s" % (len(data), c["part"], h % crc)
        if c["full"]:
            end += " crc32=%s" % (h % r.randrange(2 ** 32))
        want = {"part_number": c["part"], "part_begin": c["before"] + 1, "part_end": c["before"] + len(data), "part_size": len(data), "file_size": size}
    else:
        begin = b"=ybegin line=%d size=%d name=" % (c["line"], len(data)) + name
        body = out
        end = "=yend size=%d crc32=%s" % (len(data), h % crc)
        want = {"part_number": 1, "part_begin": 1, "part_end": len(data), "part_size": len(data), "file_size": len(data)}
    want.update(data=data, file_name=name)
    lead = [r.choice([b"", b"text before", b" "]) for _ in range(c["lead"])]
    trail = [r.choice([b"", b"", b"text after", b"-- ", b"a=b"]) for _ in range(c["trail"])]
    return lead, begin, body, end.encode(), trail, want


def article(c, data):
    lead, begin, body, end, trail, want = lines(c, data)
    return lead + [begin] + body + [end] + trail, want


def decode(ls, *a):
    with core.quiet():
        return yenc.decode(list(ls), *a)


def payload(c):
    d = bytes.fromhex(c["c"]["hex"]) if "hex" in c["c"] else content(c["c"])
    if not d:
        raise Reject()
    return d


def run(c, ctx):
    data = payload(c)
    ls, want = article(c, data)
    got = decode(ls)
    got["data"] = bytes(got["data"])
    for k in want:
        check(got[k] == want[k], "%s is %r, expected %r (line %d)\n%r", k, got[k] if k != "data" else core.first_diff(got[k], want[k]), want[k] if k != "data" else len(data), c["line"], ls[:6])
    ctx.nontrivial(len(data) > c["line"] and any(b"=" in l for l in ls[c["lead"] + 2:-1 - c["trail"]]))
    ctx.label("multi" if c["multi"] else "single")


# --------------------------------------------------------------- partial
@st.composite
def partial_case(draw):
    return dict(draw(case()), n=draw(st.integers(0, 10 ** 6)))


def partial_run(c, ctx):
    data = payload(c)
    c = dict(c, lead=0)
    lead, begin, body, end, trail, want = lines(c, data)
    n = 1 + (1 if c["multi"] else 0) + c["n"] % len(body)
    ls = ([begin] + body)[:n]
    got = decode(ls, True)
    d = bytes(got["data"])
    check(d == data[:len(d)], "%d lines decode to something else than the beginning of the payload: %s", n, core.first_diff(d, data))
    enc = b"".join(ls[2 if c["multi"] else 1:])
    check(len(d) == len(re.sub(b"(?s)=.", b"x", enc)), "%d bytes from %d encoded", len(d), len(enc))
    for k in want:
        if k != "data":
            check(got[k] == want[k], "%s is %r, expected %r", k, got[k], want[k])
    ctx.nontrivial(0 < len(d) < len(data))


# ---------------------------------------------------------------- damage
@st.composite
def damage_case(draw):
    return dict(draw(case()), dmg=draw(st.lists(st.tuples(st.sampled_from(["flip", "drop", "dup", "swap", "insert", "cutline", "cutall", "trailer", "noend", "nobegin", "nopart", "other"]), st.integers(0, 10 ** 6), st.integers(0, 255)), min_size=1, max_size=3)))


def damage_run(c, ctx):
    data = payload(c)
    lead, begin, body, end, trail, want = lines(c, data)
    k = 1 if c["multi"] else 0
    head, body = [begin] + body[:k], body[k:]
    body = list(body)
    for kind, a, b in c["dmg"]:
        if kind == "noend":
            end = b""
        elif kind == "nobegin":
            head = head[1:]
        elif kind == "nopart" and k:
            head = head[:1]
        elif kind == "trailer":
            end = end[:a % (len(end) + 1)] + (bytes([b]) if b not in (10, 13) else b"x") + end[a % (len(end) + 1) + 1:]
        elif kind == "cutall":
            body, end = body[:a % (len(body) + 1)], b""
        elif not body:
            continue
        elif kind == "flip":
            i = a % len(body)
            j = (a // len(body)) % max(1, len(body[i]))
            body[i] = body[i][:j] + bytes([b if b not in (0, 10, 13) else 65]) + body[i][j + 1:]
        elif kind == "drop":
            del body[a % len(body)]
        elif kind == "dup":
            body.insert(a % len(body), body[a % len(body)])
        elif kind == "swap":
            i, j = a % len(body), b % len(body)
            body[i], body[j] = body[j], body[i]
        elif kind == "insert":
            body.insert(a % (len(body) + 1), bytes([b if b not in (0, 10, 13) else 65]) * (1 + b % 9))
        elif kind == "cutline":
            i = a % len(body)
            body[i] = body[i][:b % (len(body[i]) + 1)]
        elif kind == "other":
            end = b"=yend size=%d pcrc32=%08x crc32=%08x" % (len(data), a + 1, a + 1)
    ls = lead + head + body + ([end] if end else []) + trail
    same = ls == article(c, data)[0]
    try:
        got = decode(ls)
    except Exception as e:
        check(not same, "an intact article is refused: %r", e)
        ctx.label(type(e).__name__)
        ctx.nontrivial()
        return
    d = bytes(got["data"])
    if got["file_name"] == b"UNKNOWN":
        # not recognised as yEnc: handed over raw, not as decoded data
        ctx.label("raw")
        check(not any(l.startswith(b"=ybegin ") for l in ls), "an article with a header is not recognised")
        return
    check(d == data, "damage %r is not reported: %s", c["dmg"], core.first_diff(d, data))
    # a whole article has the data its part says it has
    check(got["part_end"] - got["part_begin"] + 1 == len(d) == got["part_size"] or "nopart" in [x[0] for x in c["dmg"]], "part size %r for %d bytes", got["part_size"], len(d))
    ctx.label("harmless")


# ------------------------------------------------------------------ junk
@st.composite
def junk_case(draw):
    part = st.one_of(st.binary(max_size=30), st.sampled_from([b"=ybegin ", b"=ybegin part=1 line=128 size=5 name=x", b"=ypart begin=1 end=5", b"=yend size=5 crc32=0", b"=yend size=5", b"begin 644 x", b"end", b"`", b"", b".", b"..", b"=", b"=y",
                                                              b"=ybegin line=128 size=x name=y", b"=ybegin size=5", b"=ypart ", b"=ypart begin=a end=b"]))
    return {"ls": [x.replace(b"\n", b"").replace(b"\r", b"").hex() for x in draw(st.lists(part, max_size=14))], "seg": draw(st.booleans()), "ign": draw(st.booleans())}


def junk_run(c, ctx):
    ls = [bytes.fromhex(x) for x in c["ls"]]
    try:
        got = decode(ls, c["seg"], c["ign"])
    except (yenc.YencException, yenc.CrcError):
        ctx.label("refused")
        return
    check(isinstance(bytes(got["data"]), bytes) and isinstance(got["file_size"], int), "odd result %r", got)
    ctx.nontrivial()
    ctx.label("decoded")


LEGS = [Leg("decode", case, run, 6000, 100000),
        Leg("partial", partial_case, partial_run, 3000, 50000),
        Leg("damage", damage_case, damage_run, 6000, 100000),
        Leg("junk", junk_case, junk_run, 6000, 100000)]
