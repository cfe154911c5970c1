"""U02: NZB files are read back exactly as written."""
import io, os, random, sys, time
from xml.sax.saxutils import escape
from hypothesis import strategies as st
from vh import core
from vh.core import Leg, check, Reject
sys.path.insert(0, os.path.join(core.REPO, "usenet"))
for _p in ("/opt/venv/lib/python3.12/site-packages",):
    if os.path.isdir(_p) and _p not in sys.path:
        sys.path.append(_p)      # lxml, when it is installed for the repository
import pynzb, nzb_utils
from pynzb.expat_nzb import ExpatNZBParser
PARSERS = [("expat", ExpatNZBParser)]
if pynzb.ETreeNZBParser:
    PARSERS.append(("etree", pynzb.ETreeNZBParser))
if pynzb.LXMLNZBParser:
    PARSERS.append(("lxml", pynzb.LXMLNZBParser))

RULE = ("read: a case is a list of posted files with any printable text in poster, subject, groups and message ids, written by this harness's own NZB writer with random but "
        "equivalent spellings (entities, character references, CDATA, attribute order and quotes, encodings, comments, layout, segment order); all parser back ends and read_nzb "
        "must return exactly the written values. write: the same files written with nzb_utils are read back unchanged, under several time zones. "
        "repair: documents with raw ampersands, NUL bytes, &ouml;, a missing or a doubled closing tag read like the intact one. name: the quoted file name is found in a subject. "
        "Non-trivial: at least one file with two segments and some character that XML must escape.")
ASSUMPTIONS = ["NZB documents use the NZB name space; texts hold no control characters; dates are seconds since 1970",
               "the lxml back end is only compared when lxml can be imported"]

CH = st.one_of(st.sampled_from(list("abcXYZ019 .-_@/()[]{}") * 2 + list("&<>\"'") * 3 + ["\u00e9", "\u00f6", "\u20ac", "\u4e2d", "\U0001f600", "]]>", "&amp;", "&#65;", "&lt", "\u00a0", "\u2028"]),
               st.characters(min_codepoint=0x21, max_codepoint=0x2FFF, blacklist_categories=("Cc", "Cs", "Cf", "Cn", "Zl", "Zp", "Zs")))
LAT = st.one_of(st.sampled_from(list("abcXYZ019 .-_@/()&&<>\"'") + ["\u00e9", "\u00f6"]), st.characters(min_codepoint=0x21, max_codepoint=0x7E))


def text(ch, n=25):
    return st.lists(ch, max_size=n).map("".join)


def word(ch, n=25):
    return st.lists(ch, min_size=1, max_size=n).map("".join).map(str.strip).filter(bool)


@st.composite
def nzb_file(draw, ch):
    nums = draw(st.lists(st.integers(1, 400), max_size=5, unique=True))
    if draw(st.booleans()):
        nums.sort()
    return {"poster": draw(text(ch)), "date": draw(st.one_of(st.integers(0, 2 ** 31 - 1), st.integers(1319936400 - 7200, 1319936400 + 7200), st.integers(1269738000 - 3600, 1269738000 + 3600))),
            "subject": draw(text(ch, 40)), "groups": draw(st.lists(word(ch, 15), max_size=3)),
            "segs": [[n, draw(st.integers(0, 2 ** 33)), draw(word(ch, 30))] for n in nums]}


@st.composite
def case(draw):
    enc = draw(st.sampled_from(["utf-8", "utf-8", "utf-8", "iso-8859-1", "us-ascii", "utf-16"]))
    return {"files": draw(st.lists(nzb_file(LAT if enc == "iso-8859-1" else CH), max_size=4)), "enc": enc, "seed": draw(st.integers(0, 9999)), "via": draw(st.sampled_from(["path", "path", "open"]))}


def esc(s, r, attr, enc):
    out = []
    q = r.choice("\"'")
    lim = {"us-ascii": 128, "iso-8859-1": 256}.get(enc, 0x110000)
    for c in s:
        o = ord(c)
        if o >= lim or r.random() < .04:
            out.append(r.choice(["&#%d;" % o, "&#x%x;" % o, "&#x%X;" % o]))
        elif c in "&<" or c == ">" or (attr and c == q):
            out.append({"&": "&amp;", "<": "&lt;", ">": "&gt;", '"': "&quot;", "'": "&apos;"}[c])
        elif c in "\"'" and r.random() < .5:
            out.append({'"': "&quot;", "'": "&apos;"}[c])
        else:
            out.append(c)
    t = "".join(out)
    if attr:
        return q + t + q
    if s and r.random() < .1 and "]]>" not in s and all(ord(c) < lim for c in s):
        return "<![CDATA[%s]]>" % s
    return t


def build(c):
    r = random.Random(c["seed"])
    enc = c["enc"]
    ws = lambda: r.choice(["", "", "\n", "\r\n", "\n\t\t", "  "])
    com = lambda: r.choice(["", "", "", "<!-- <segment>x</segment> & -->"])

    def el(tag, attrs, body):
        attrs = list(attrs)
        r.shuffle(attrs)
        return "<%s%s%s>%s</%s%s>" % (tag, "".join(r.choice([" ", "  ", "\n "]) + k + r.choice(["=", "=", " = "]) + esc(str(v), r, True, enc) for k, v in attrs), r.choice(["", " "]), body, tag, r.choice(["", " "]))
    out = '<?xml version="1.0" encoding="%s"?>' % enc + ws()
    if r.random() < .7:
        out += '<!DOCTYPE nzb PUBLIC "-//newzBin//DTD NZB 1.%d//EN" "http://www.newzbin.com/DTD/nzb/nzb-1.%d.dtd">' % ((r.randrange(2),) * 2) + ws()
    out += com() + '<nzb xmlns="http://www.newzbin.com/DTD/2003/nzb">' + ws()
    if r.random() < .3:
        out += "<head><meta type=\"category\">TV &gt; HD</meta></head>" + ws()
    for f in c["files"]:
        g = "".join(ws() + com() + el("group", [], esc(x, r, False, enc)) for x in f["groups"]) + ws()
        s = "".join(ws() + com() + el("segment", [("bytes", b), ("number", n)], esc(m, r, False, enc)) for n, b, m in f["segs"]) + ws()
        out += com() + el("file", [("poster", f["poster"]), ("date", f["date"]), ("subject", f["subject"])], ws() + el("groups", [], g) + ws() + el("segments", [], s) + ws()) + ws()
    return (out + "</nzb>" + ws()).encode(enc)


def flat(files):
    return [{"poster": f.poster, "date": int(f.date.timestamp()), "subject": f.subject, "groups": list(f.groups),
             "segs": [[s.number, s.bytes, getattr(s, "message_id", None)] for s in f.segments]} for f in files]


def hard(c):
    return any(len(f["segs"]) > 1 for f in c["files"]) and any(x in core.jdump(c["files"]) for x in "&<>") and len(c["files"]) > 0


def compare(got, want, who, data):
    check(len(got) == len(want), "%s: %d files, written %d: %r", who, len(got), len(want), data[:3000])
    for g, w in zip(got, want):
        for k in w:
            check(g[k] == w[k], "%s: %s is %r, written %r in %r", who, k, g[k], w[k], data[:3000])


def run(c, ctx):
    data = build(c)
    for who, P in PARSERS:
        compare(flat(P().parse(data)), c["files"], who, data)
    p = core.write(os.path.join(ctx.dir(), "x.nzb"), data)
    with core.quiet():
        if c["via"] == "path":
            got = nzb_utils.read_nzb(p)
        else:
            with open(p, "rb") as f:
                got = PARSERS[0][1]().parse(f.read())
        names = nzb_utils.list_filenames(p)
    compare(flat(got), c["files"], "read_nzb", data)
    check([int(d.timestamp()) for _n, d in names] == [f["date"] for f in c["files"]], "list_filenames has dates %r", names)
    ctx.nontrivial(hard(c))
    ctx.label(c["enc"])


# ----------------------------------------------------------------- write
ZONES = ["UTC0", "CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0", "IST-5:30", "NZST-12NZDT,M9.5.0,M4.1.0/3"]


@st.composite
def write_case(draw):
    return {"files": draw(st.lists(nzb_file(CH), max_size=4)), "tz": draw(st.sampled_from(ZONES)), "pretty": draw(st.sampled_from([False, False, True])), "again": draw(st.booleans())}


def write_run(c, ctx):
    old = os.environ.get("TZ")
    os.environ["TZ"] = c["tz"]
    time.tzset()
    try:
        files = []
        for f in c["files"]:
            o = pynzb.base.NZBFile(f["poster"], f["date"], f["subject"])
            for g in f["groups"]:
                o.add_group(g)
            for n, b, m in f["segs"]:
                o.add_segment(pynzb.base.NZBSegment(b, n, m))
            files.append(o)
        for turn in range(2 if c["again"] else 1):
            doc = nzb_utils.empty_nzb_document()
            for o in files:
                nzb_utils.add_file(doc, o)
            data = nzb_utils.get_pretty_xml(doc) if c["pretty"] else nzb_utils.get_xml(doc)
            p = core.write(os.path.join(ctx.dir(), "x.nzb"), data)
            with core.quiet():
                files = nzb_utils.read_nzb(p)
            compare(flat(files), c["files"], "written NZB (%s)" % c["tz"], data)
            for who, P in PARSERS:
                compare(flat(P().parse(data)), c["files"], "%s of written NZB" % who, data)
    finally:
        if old is None:
            del os.environ["TZ"]
        else:
            os.environ["TZ"] = old
        time.tzset()
    ctx.nontrivial(hard(c))
    ctx.label(c["tz"])


# ---------------------------------------------------------------- repair
RCH = st.one_of(st.sampled_from(list("abcXYZ019 .-_@()") + ["&", " & ", "&&", "T&T", "&B;", "R&b ", "\u00f6"]), st.characters(min_codepoint=0x21, max_codepoint=0x7E, blacklist_characters="<>\"'&"))


@st.composite
def repair_case(draw):
    return {"files": draw(st.lists(nzb_file(RCH), min_size=1, max_size=4)), "raw": draw(st.booleans()), "nul": draw(st.integers(0, 3)), "end": draw(st.sampled_from(["ok", "missing", "double"])), "refs": draw(st.booleans()),
            "comment": draw(st.booleans()), "seed": draw(st.integers(0, 999)), "enc": draw(st.sampled_from(["utf-8", "iso-8859-1"]))}


def repair_run(c, ctx):
    import re
    r = random.Random(c["seed"])

    def e(s):
        if c["raw"]:
            return s.replace("\u00f6", r.choice(["\u00f6", "&ouml;"]))
        s = s.replace("&", r.choice(["&amp;", "&#38;", "&#x26;"]))
        return "".join(r.choice(["&#%d;", "&#x%x;"]) % ord(x) if c["refs"] and x not in "&;#" and not x.isdigit() and r.random() < .05 else x for x in s) if "&" not in s else s.replace("\u00f6", r.choice(["\u00f6", "&ouml;"]))
    for f in c["files"]:
        for s in [f["poster"], f["subject"]] + f["groups"] + [m for _n, _b, m in f["segs"]]:
            if re.search(r"&([a-z]+|#[0-9]+|#x[0-9a-f]+);", s):
                raise Reject()
    lines = ['<?xml version="1.0" encoding="%s" ?>' % c["enc"], '<nzb xmlns="http://www.newzbin.com/DTD/2003/nzb">']
    for f in c["files"]:
        lines += ['  <file poster="%s" date="%d" subject="%s">' % (e(f["poster"]), f["date"], e(f["subject"])), "    <groups>"]
        lines += ["      <group>%s</group>" % e(g) for g in f["groups"]] + ["    </groups>", "    <segments>"]
        lines += ['      <segment bytes="%d" number="%d">%s</segment>' % (b, n, e(m)) for n, b, m in f["segs"]] + ["    </segments>", "  </file>"]
    if c["comment"]:
        lines.append("<!-- Generated by newsmangler at 2009-05-31 20:42:43 UTC -->")
    if c["end"] != "missing":
        lines.append("</nzb>")
    if c["end"] == "double":
        lines.append("</nzb>")
    data = bytearray(("\n".join(lines) + "\n").encode(c["enc"]))
    for _ in range(c["nul"]):
        data[r.randrange(60, len(data)):0] = b""
        i = r.randrange(60, len(data))
        data[i:i] = b"\x00"
    data = bytes(data)
    p = core.write(os.path.join(ctx.dir(), "x.nzb"), data)
    with core.quiet():
        got = nzb_utils.read_nzb(p)
    compare(flat(got), c["files"], "repaired read_nzb", data)
    ctx.nontrivial(c["end"] != "ok" or c["nul"] or (c["raw"] and b"&" in data))
    ctx.label(c["end"], "nul" if c["nul"] else "clean")


# ------------------------------------------------------------------ name
@st.composite
def name_case(draw):
    a = st.text(st.sampled_from("abcXYZ019 .-_@()[]<>{}#'&"), max_size=20)
    n = draw(st.text(st.sampled_from("abcXYZ019 .-_()[]&'+"), min_size=1, max_size=20)) + draw(st.sampled_from([".rar", ".r00", ".sfv", ".nfo", ".part01.rar", ""]))
    return {"a": draw(a), "n": n, "b": draw(st.sampled_from([" yEnc (1/10)", " (01/61)", "", " 14.31 MB yEnc (1/79)", " yEnc", "-B4E 2H2H (79/79)"]))}


def name_run(c, ctx):
    got = nzb_utils.parse_name('%s"%s"%s' % (c["a"], c["n"], c["b"]))
    check(got == c["n"], "name %r from subject with %r", got, c["n"])
    ctx.nontrivial(c["a"])


LEGS = [Leg("read", case, run, 2500, 60000),
        Leg("write", write_case, write_run, 1500, 40000),
        Leg("repair", repair_case, repair_run, 800, 20000),
        Leg("name", name_case, name_run, 800, 20000)]


# ------------------------------------------------------------------- cut
@st.composite
def cut_case(draw):
    c = draw(case())
    c["enc"] = "utf-8"
    return dict(c, cut=draw(st.integers(0, 10 ** 6)))


def cut_run(c, ctx):
    data = build(c)
    cut = data[:c["cut"] % data.rindex(b"</nzb>")]
    for who, P in PARSERS:
        try:
            got = P().parse(cut)
        except Exception:
            continue
        check(False, "%s read %d files without an error from a document that ends after %d of %d bytes: %r", who, len(got), len(cut), len(data), cut[-300:])
    ctx.nontrivial(hard(c))


LEGS.insert(3, Leg("cut", cut_case, cut_run, 500, 15000))
