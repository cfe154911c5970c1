"""S14: the fingerprint in the SRS of a music file is the one of its music."""
import hashlib, json, os, re, sys, tempfile
from hypothesis import strategies as st
from vh import core, media, content, srs as S, srsfile as F
from vh.core import Leg, check, Reject

RULE = ("a case is non-trivial when the fingerprint program refuses the file itself, the name is not ASCII, or the program is missing; "
        "distinct files, tags, stages of refusal and ways to fail")
ASSUMPTIONS = ["the external fingerprint program is replaced by a stand-in whose answer is a digest of the bytes it was given and of the length it was asked for; "
               "which bytes it accepts is chosen by the case",
               "the last resort (music after garbage) is only judged when there is a frame start in the 256 bytes in front of the first encoder name"]

STUB = None
BODY = r'''
import hashlib, json, os, sys
d = os.path.dirname(os.path.abspath(sys.argv[0]))
if len(sys.argv) < 2:
    sys.exit(2)
pol = json.load(open(os.path.join(d, "policy.json")))
a, length, name = sys.argv[1:], "60", None
while a:
    if a[0] == "-length":
        length = a[1]
        a = a[2:]
    else:
        name = a.pop(0)
try:
    name.encode("ascii")
    data = open(name, "rb").read()
except Exception:
    data = None
h = None if data is None else hashlib.sha256(data).hexdigest()
ok = h in pol["ok"] and os.path.splitext(name)[1].lower() in (".mp3", ".flac")
with open(os.path.join(d, "log"), "a") as f:
    f.write(json.dumps([name, h, ok, length]) + "\n")
if not ok:
    k = pol["how"]
    if k == 0:
        print("ERROR: couldn't open the file")
    elif k == 1:
        print("ERROR: couldn't find stream information in the file")
        print("ERROR: unable to calculate fingerprint for file %s, skipping" % ascii(name))
    elif k == 2:
        print("FILE=x")
        print("DURATION=5")
    elif k == 3:
        print("FINGERPRINT=AQAA")
    elif k == 4:
        print("FILE=x\nDURATION=\nFINGERPRINT=")
    sys.exit(k % 3)
if pol["warn"]:
    sys.stderr.write("WARNING: Header missing\n")
    sys.stderr.flush()
w = hashlib.sha256((h + length).encode()).hexdigest()
print("FILE=x")
print("DURATION=%d" % int(w[:4], 16))
print("FINGERPRINT=%s" % (w * pol["rep"]))
'''


def setup():
    global STUB
    if STUB is None or not STUB.endswith("_%d" % os.getpid()):
        d = tempfile.mkdtemp(prefix="fps_", suffix="_%d" % os.getpid())
        p = os.path.join(d, "fpcalc")
        with open(p, "w") as f:
            f.write("#!%s -SEI\n%s" % (os.path.realpath(sys.executable), BODY))
        os.chmod(p, 0o755)
        for n, t, mode in (("none", None, 0), ("noexec", "x", 0o644), ("garbage", "\x7fnot a program\n", 0o755)):
            e = os.path.join(d, n)
            os.mkdir(e)
            if t:
                core.write(os.path.join(e, "fpcalc"), t.encode())
                os.chmod(os.path.join(e, "fpcalc"), mode)
        STUB = d
    return STUB


PIECE = st.one_of(
    st.fixed_dictionaries({"k": st.just("rand"), "n": st.one_of(st.integers(1, 60), st.integers(1, 400)), "s": st.integers(0, 99)}),
    st.fixed_dictionaries({"k": st.just("zero"), "n": st.one_of(st.integers(1, 60), st.integers(200, 300))}),
    st.fixed_dictionaries({"k": st.just("sync"), "b": st.sampled_from([0xFB, 0xFA, 0xE3, 0xF3, 0xE0, 0xFF])}),
    st.fixed_dictionaries({"k": st.just("name"), "v": st.sampled_from(["Xing", "LAME", "Info", "LAME3.97", "Xin", "LAM"])}),
    st.fixed_dictionaries({"k": st.just("false"), "b": st.sampled_from([0x00, 0x1F, 0xDF])}))


def piece(p):
    if p["k"] == "sync":
        return bytes([0xFF, p["b"]])
    if p["k"] == "false":
        return bytes([0xFF, p["b"]])
    if p["k"] == "name":
        return p["v"].encode()
    if p["k"] == "zero":
        return bytes(p["n"])
    return media.rnd(p["n"], p["s"])


@st.composite
def case(draw):
    fmt = draw(st.sampled_from(["mp3", "mp3", "mp3", "flac"]))
    c = {"fmt": fmt, "lay": draw(media.flac_layout() if fmt == "flac" else media.mp3_layout()),
         "pieces": draw(st.lists(PIECE, min_size=1, max_size=7)),
         "far": draw(st.one_of(st.just(0), st.just(0), st.integers(0x10000 - 400, 0x10000 + 400), st.integers(0x20000 - 400, 0x20000 + 400))),
         "ok": draw(st.sampled_from([0, 1, 1, 2, 2, 2, 3])), "how": draw(st.integers(0, 5)), "warn": draw(st.booleans()),
         "rep": draw(st.sampled_from([1, 2, 40, 200])),
         "start": draw(st.sampled_from(["sync", "riff", "none", "none"])),
         "stem": draw(st.sampled_from(["01-artist-song", "a b", "01-\u00e4rtist", "\u65e5\u672c", "x.y.z", "\u00fc"])),
         "dir": draw(st.sampled_from(["in", "in", "in", "\u00e9"])),
         "ext": draw(st.sampled_from([".mp3", ".mp3", ".MP3"])) if fmt == "mp3" else ".flac",
         "missing": draw(st.sampled_from([None] * 9 + ["none", "noexec", "garbage"])),
         "find": draw(st.integers(0, 3)) == 0, "old": draw(st.booleans()), "tail": draw(st.booleans())}
    return c


def parts(c):
    """(file, music between the tags)"""
    o, fmt = c["lay"], c["fmt"]
    body = b"".join(piece(p) for p in c["pieces"])
    if c["far"]:
        body = content.data({"k": "zero", "n": c["far"], "s": 0}) + body
    if c["tail"]:
        body += media.rnd(300, 7)
    if fmt == "flac":
        a = b"\xff\xf8" + body
        whole = media.flac_file(a, o)
        bare = media.flac_file(a, dict(o, id3=[], v1=None))
        return whole, bare
    if c["start"] == "sync":
        body = b"\xff\xfb" + body
    elif c["start"] == "riff":
        body = b"RIFF" + body
    elif not o.get("id3"):
        if o.get("v1") is None:
            raise Reject("not recognised as MP3")
    if len(body) < 20:
        raise Reject("too short")
    return media.mp3_file(body, o), body


def last_resort(music):
    f = [x for x in (music.find(b"Xing"), music.find(b"LAME")) if x >= 0]
    if not f:
        return None
    s = min(f)
    lo = max(0, s - 256)
    for i in range(s - 2, lo - 1, -1):
        if music[i] == 0xFF and music[i + 1] & 0xE0 == 0xE0:
            return music[i:]
    return b""


def run(c, ctx):
    whole, music = parts(c)
    if b"ID3" in music or b"SRS" in music[:3] or whole[:4] in (b"Rar!", b"RIFF") and c["start"] != "riff":
        raise Reject("other markers")
    third = last_resort(music)
    seq = [whole, music] + ([third] if third else [])
    ok = []
    if c["ok"] < 3:
        if c["ok"] >= len(seq):
            ok = [hashlib.sha256(b"other").hexdigest()]
        else:
            ok = [hashlib.sha256(x).hexdigest() for x in seq[c["ok"]:]]
    want = next((x for x in seq if hashlib.sha256(x).hexdigest() in ok), None)
    stub = setup()
    d = ctx.dir()
    name = c["stem"] + c["ext"]
    sp = core.write(os.path.join(d, c["dir"], name), whole)
    out, tmp = os.path.join(d, "out"), os.path.join(d, "tmp")
    os.mkdir(out)
    os.mkdir(tmp)
    p = os.path.join(out, c["stem"] + ".srs")
    if c["old"]:
        core.write(p, b"old content")
    before = core.tree(out)
    core.write(os.path.join(stub, "policy.json"), json.dumps({"ok": ok, "how": c["how"], "warn": c["warn"], "rep": c["rep"]}).encode())
    log = os.path.join(stub, "log")
    core.write(log, b"")
    mod = sys.modules["resample.fpcalc"]
    path, old, td = os.environ["PATH"], mod.fpcalc_executable, tempfile.tempdir
    S.setup_fpcalc()
    path0 = os.environ["PATH"]
    bindir = stub if not c["missing"] else os.path.join(stub, c["missing"])
    try:
        os.environ["PATH"] = bindir
        mod.fpcalc_executable = "" if c["missing"] or c["find"] else os.path.join(stub, "fpcalc")
        tempfile.tempdir = tmp
        rc, o, e = core.call_cli(S.RS.main, [sp, "-y", "-o", out], "srs")
    finally:
        os.environ["PATH"], mod.fpcalc_executable, tempfile.tempdir = path0, old, td
    txt = o + e
    asked = [json.loads(x) for x in core.read(log).decode().splitlines()]
    check(core.read(sp) == whole and os.listdir(os.path.dirname(sp)) == [name], "the music file or its folder changed")
    check(os.listdir(tmp) == [], "temporary files left: %r (exit code %r)", os.listdir(tmp), rc)
    ascii_name = all(ord(x) < 128 for x in sp)
    ctx.label(c["fmt"], "ok%d" % c["ok"], "ascii" if ascii_name else "nonascii")
    if c["missing"]:
        ctx.nontrivial(True)
        ctx.label("missing:" + c["missing"])
        check(rc == 3 and core.tree(out) == before, "fpcalc %s: exit code %r and output %r: %s", c["missing"], rc, sorted(core.tree(out)), txt[-300:])
        return
    ctx.nontrivial(c["ok"] > 0 or not ascii_name)
    for n, h, good, length in asked:
        check(length == "120", "the program was asked for %s seconds", length)
        check(h is not None, "the program was given the name %r", n)
        if ascii_name and h == hashlib.sha256(whole).hexdigest() and whole != music:
            check(n == sp, "the program was given %r instead of the file", n)
    if want is None:
        if third == b"" and any(g for _, _, g, _ in asked):
            raise Reject("no frame start near the encoder name")
        ctx.label("refused")
        check(rc == 2, "refused by the program: exit code %r: %s", rc, txt[-400:])
        check(core.tree(out) == before, "refused by the program: output is now %r", sorted(core.tree(out)))
        return
    ctx.label("stage%d" % seq.index(want))
    check(rc == 0, "creating the SRS failed with exit code %r: %r %s", rc, [a[1:] for a in asked], txt[-400:])
    check(sorted(core.tree(out)) == [os.path.basename(p)], "output is %r", sorted(core.tree(out)))
    w = hashlib.sha256((hashlib.sha256(want).hexdigest() + "120").encode()).hexdigest()
    fp, dur = w * c["rep"], int(w[:4], 16)
    raw = core.read(p)
    try:
        f, tr, fps = F.parse(F.OF[c["fmt"]], raw)
    except F.Bad as x:
        check(False, "the SRS is not well-formed: %s", x)
    check(len(fps) == 1 and fps[0] == (dur, fp.encode()), "recorded fingerprint %r, the program answered %r", fps, (dur, fp[:20]))
    rc, txt = S.srs(["-l", p])
    m = re.search(r"Duration: (\d+) seconds", txt)
    check(rc == 0 and m and int(m.group(1)) == dur, "srs -l shows duration %r, it is %d: %s", m and m.group(1), dur, txt[-300:])
    m = re.search(r"AcoustID fingerprint: (\S+)", txt)
    check(m and m.group(1) == fp, "srs -l shows another fingerprint: %r", m and m.group(1)[:40])


LEGS = [Leg("fingerprint", case, run, quick=1500, thorough=40000)]
