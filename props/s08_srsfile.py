"""S08: SRS metadata is truthful and survives serialisation."""
import os, random, struct, zlib
from hypothesis import strategies as st
from vh import core, media, content, srs as S, srsfile as F
from vh.core import Leg, check, Reject
import resample
from resample import main as RM

RULE = ("record: every generated sample with a stream is non-trivial; its SRS is read with an independent reader and compared with the facts of the generator. "
        "values: every set of field values is non-trivial; written by the code and read independently, and written independently and read by the code.")
ASSUMPTIONS = ["the record layout of existing SRS files (pyReSample 0.7) is the specification",
               "MKV may record more than 256 signature bytes when the start of a track is plain text"]


def run_record(c, ctx):
    m = media.build(c)
    if not m.present or "tracks" not in c and not any(m.tracks.values()):
        raise Reject("no stream")
    fmt, h = c["fmt"], c["how"]
    if fmt in ("mp3", "flac"):
        h["check"] = False
    if h["check"]:
        S.domain(c, m)
    if fmt == "stream":
        from props import s07_stream
        s07_stream.extra(c, m)
    if fmt == "avi" and h["check"]:
        from props import s01_avi
        s01_avi.extra(c, m)
    if fmt == "mkv" and h["check"]:
        from props import s02_mkv
        s02_mkv.extra(c, m)
    if fmt == "wmv" and h["check"]:
        from props import s04_wmv
        s04_wmv.extra(c, m)
    if fmt == "mp4" and (not any(m.tracks.values()) or h["check"] and not m.sample):
        raise Reject("no data")
    d, sp, mp = S.place(m, c, ctx)
    p = S.make(c, ctx, m, d, sp, mp)
    ctx.nontrivial(True)
    ctx.label(fmt, "check" if h["check"] else "nocheck", "big" if h["big"] else "small")
    raw = core.read(p)
    try:
        f, tr, fps = F.parse(F.OF[fmt], raw)
    except F.Bad as e:
        check(False, "the SRS is not well-formed: %s", e)
    check(f["flags"] == 3 and f["app"] == resample.APPNAME, "file record %r", f)
    check(f["name"] == os.path.basename(sp), "recorded name %r, sample is %r", f["name"], os.path.basename(sp))
    check(f["size"] == len(m.sample), "recorded size %r, sample has %d", f["size"], len(m.sample))
    check(f["crc"] == zlib.crc32(m.sample), "recorded CRC %08X, sample has %08X", f["crc"], zlib.crc32(m.sample))
    want = {no for no in m.present if not h["check"] or m.tracks[no]}
    check(set(tr) == want, "recorded streams %r, sample has %r", sorted(tr), sorted(want))
    for no, t in tr.items():
        data = m.tracks[no]
        check(t["len"] == len(data), "stream %r: recorded length %r, stream has %d", no, t["len"], len(data))
        check(t["sig"] == data[:len(t["sig"])], "stream %r: the signature is not its start", no)
        n = min(256, len(data))
        check(len(t["sig"]) == n or fmt == "mkv" and len(t["sig"]) > n, "stream %r: signature of %d bytes", no, len(t["sig"]))
        check(bool(t["flags"] & 4) == bool(h["big"]) and bool(t["flags"] & 8) == (no > 65535) and not t["flags"] & ~12, "stream %r: flags %r", no, t["flags"])
        if not h["check"]:
            check(t["off"] == 0, "stream %r: offset %r without a main file", no, t["off"])
        else:
            if fmt == "stream":
                check(t["off"] == m.start[1], "offset %r, the sample starts at %r", t["off"], m.start[1])
            elif fmt == "avi" or fmt == "mp4" and not any(0 in x["fr"] for x in c["tracks"]):
                k = t["off"]
                check(m.main[k:k + 1] == data[:1], "stream %r: offset %r does not point to its data", no, k)
            check(t["off"] < len(m.main), "stream %r: offset %r past the main file", no, t["off"])
    if fmt in ("flac", "mp3"):
        check(fps == [(123, S.FP)], "fingerprint %r", fps)
    else:
        check(not fps, "fingerprint %r", fps)
    # the code's own views of the same file
    core.quiet()
    s = resample.sample_class_factory(resample.file_type_info(p).file_type)
    sd, ts = s.load_srs(p)
    check((sd.name, sd.size, sd.crc32, sd.appname) == (f["name"], f["size"], f["crc"], f["app"]), "load_srs: %r", (sd.name, sd.size, sd.crc32))
    check({n: (t.track_number, t.data_length, t.match_offset, t.signature_bytes, t.flags) for n, t in ts.items()} ==
          {n: (n, t["len"], t["off"], t["sig"], t["flags"]) for n, t in tr.items()}, "load_srs: tracks %r", ts)
    rc, txt = S.srs(["-l", p])
    check(rc == 0, "-l ended with %r: %s", rc, txt[-300:])
    check(f["name"] in txt and "%08X" % f["crc"] in txt and str(f["size"]) in digits(txt), "-l does not show name, size and CRC: %s", txt[-500:])
    rows = [x for x in txt.splitlines() if x.startswith("Track ")]
    check(len(rows) == len(tr), "-l shows %d tracks of %d", len(rows), len(tr))


def digits(txt):
    return ["".join(x for x in l if x.isdigit()) for l in txt.splitlines() if l.startswith("Sample Size")]


def record_case():
    return st.sampled_from(sorted(media.CASE)).flatmap(S.case)


# -------------------------------------------------------------- values ----
U16, U32, U64 = [st.one_of(st.integers(0, 300), st.sampled_from([2 ** n - 1, 2 ** (n - 1), 2 ** (n - 1) - 1, 2 ** (n // 2), 2 ** (n // 2) - 1]), st.integers(0, 2 ** n - 1)) for n in (16, 32, 64)]
NAME = st.one_of(st.text(st.characters(blacklist_characters="/\\\0", blacklist_categories=("Cs",)), min_size=1, max_size=60),
                 st.sampled_from(["sample.avi", "S\u00e4mple.mkv", "\u65e5\u672c\u8a9e.mp4", "a" * 250, "\U0001F600.vob"]))


@st.composite
def values(draw):
    env = draw(st.sampled_from(F.ENV))
    no = U16 if draw(st.integers(0, 2)) else U32
    one = env in ("flac", "mp3", "stream")
    tracks = draw(st.lists(st.fixed_dictionaries({"no": st.just(1) if one else no, "big": st.booleans(), "len": U64, "off": U64,
                                                  "sig": st.one_of(st.integers(0, 300), st.sampled_from([256, 0, 1, 255, 10240, 127, 128, 16383 - 20, 65535])), "s": st.integers(0, 99)}),
                           min_size=1, max_size=1 if one else 4, unique_by=lambda t: t["no"]))
    return {"env": env, "name": draw(NAME), "app": draw(st.one_of(st.just("pyReSample 0.7"), st.text(st.characters(blacklist_categories=("Cs",)), max_size=30))),
            "size": draw(U64), "crc": draw(U32), "tracks": tracks, "fp": draw(st.one_of(st.none(), st.tuples(U32, st.integers(0, 4000)))), "s": draw(st.integers(0, 99)),
            "flags": draw(st.integers(0, 7))}


LOAD = {"riff": "AviReSample", "ebml": "MkvReSample", "mov": "Mp4ReSample", "asf": "WmvReSample", "flac": "FlacReSample", "mp3": "Mp3ReSample", "stream": "StreamSample"}


def envelope(env, recs, s):
    """A minimal SRS file around the records."""
    b = b"".join(recs)
    r = random.Random(s)
    if env == "riff":
        movi = b"movi" + b"" if s % 2 else b"movi"
        hdrl = b"LIST" + (4 + 12).to_bytes(4, "little") + b"hdrl" + b"avih" + (4).to_bytes(4, "little") + bytes(4)
        body = hdrl + b + b"LIST" + len(movi).to_bytes(4, "little") + movi
        return b"RIFF" + (len(body) + 4).to_bytes(4, "little") + b"AVI " + body
    if env == "ebml":
        tr = media.el("1654AE6B", media.el("AE", media.el("D7", b"\x01") + media.el("86", b"V_X")))
        seg = media.el("1F697576", b) + tr + media.el("1F43B675", media.el("E7", b"\x01"))
        return media.el("1A45DFA3", media.el("4286", b"\x01")) + b"\x18\x53\x80\x67" + media.vint(len(seg), 8) + seg
    if env == "mov":
        return media.atom(b"ftyp", b"isom" + bytes(4)) + b + media.atom(b"mdat", b"") + media.atom(b"moov", media.atom(b"mvhd", bytes(100)))
    if env == "asf":
        return media.obj(r.randbytes(16), r.randbytes(s)) + b + media.obj(r.randbytes(16), r.randbytes(30))
    if env == "flac":
        return (media.id3v2({"n": s, "s": s, "k": "zero"}) if s % 2 else b"") + b"fLaC" + b + b"\x80\0\0\x22" + bytes(34)
    if env == "mp3":
        return (media.id3v2({"n": s, "s": s, "k": "zero"}) if s % 2 else b"") + b + (media.id3v1(1) if s % 3 == 0 else b"")
    return b"STRM\x08\0\0\0" + b


def run_values(c, ctx):
    ctx.nontrivial(True)
    env = c["env"]
    ctx.label(env)
    core.quiet()
    d = ctx.dir()
    fr = {"flags": c["flags"], "app": c["app"], "name": c["name"], "size": c["size"], "crc": c["crc"]}
    if len(c["name"].encode()) > 65535:
        raise Reject()
    tracks = []
    for t in c["tracks"]:
        fl = 4 if t["big"] else 0
        n = t["len"] if t["big"] else t["len"] & 0xFFFFFFFF
        if t["no"] > 65535:
            fl |= 8
        tracks.append({"flags": fl, "no": t["no"], "len": n, "off": t["off"], "sig": random.Random(t["s"]).randbytes(t["sig"])})
    fp = None
    if c["fp"] and env in ("flac", "mp3"):
        fp = (c["fp"][0], bytes(b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdef"[x & 31] for x in random.Random(c["s"]).randbytes(c["fp"][1])))
    # 1. written independently, read by the code
    recs = [F.wrap(env, "F", F.make_file(fr))] + [F.wrap(env, "T", F.make_track(t)) for t in tracks]
    if fp:
        recs.append(F.wrap(env, "P", struct.pack("<LL", fp[0], len(fp[1])) + fp[1]))
    p = core.write(os.path.join(d, "x.srs"), envelope(env, recs, c["s"]))
    s = getattr(RM, LOAD[env])()
    sd, ts = s.load_srs(p)
    compare(sd, ts, fr, tracks, fp, "read")
    # 2. written by the code, read independently
    path = core.write(os.path.join(d, "any.bin"), b"x")
    o = RM.FileData(file_name=path)
    o.sample_name, o.size, o.crc32 = c["name"], c["size"], c["crc"]
    w = [getattr(o, "serialize_as_" + env)()]
    for t in tracks:
        x = RM.TrackData()
        x.track_number, x.data_length, x.match_offset, x.signature_bytes = t["no"], t["len"], t["off"], t["sig"]
        if t["flags"] & 4:
            x.flags |= RM.TrackData.BIG_FILE
        if fp:
            x.duration, x.fingerprint = str(fp[0]), fp[1]
        w.append(getattr(x, "serialize_as_" + env)())
    got = []
    for b in w:
        try:
            r, q = F.records(env, b, 0)
        except F.Bad as e:
            check(False, "bad record written: %s", e)
        check(q == len(b), "written record leaves %d bytes", len(b) - q)
        got += r
    check([k for k, _ in got] == ["F"] + (["T", "P"] if fp else ["T"] * len(tracks)), "written kinds %r", [k for k, _ in got])
    g = F.file_record(got[0][1])
    check((g["flags"], g["app"], g["name"], g["size"], g["crc"]) == (3, resample.APPNAME, c["name"], c["size"], c["crc"]), "written file record %r", g)
    for (k, b), t in zip([x for x in got if x[0] == "T"], tracks):
        check(F.track_record(b) == t, "written track record %r, expected %r", {k: v for k, v in F.track_record(b).items() if k != "sig"}, {k: v for k, v in t.items() if k != "sig"})
    if fp:
        check(got[-1][1] == struct.pack("<LL", fp[0], len(fp[1])) + fp[1], "written fingerprint record")
    # 3. and back
    p = core.write(os.path.join(d, "y.srs"), envelope(env, [F.pad(env, b) for b in w], c["s"]))
    sd, ts = getattr(RM, LOAD[env])().load_srs(p)
    compare(sd, ts, dict(fr, flags=3, app=resample.APPNAME), tracks, fp, "read back")


def compare(sd, ts, fr, tracks, fp, what):
    check((sd.flags, sd.appname, sd.name, sd.sample_name, sd.size, sd.crc32) == (fr["flags"], fr["app"], fr["name"], fr["name"], fr["size"], fr["crc"]),
          "%s: file record %r, expected %r", what, (sd.flags, sd.appname, sd.name, sd.size, sd.crc32), fr)
    check(list(ts) == [t["no"] for t in tracks], "%s: tracks %r", what, list(ts))
    for t in tracks:
        x = ts[t["no"]]
        check((x.flags, x.track_number, x.data_length, x.match_offset) == (t["flags"], t["no"], t["len"], t["off"]), "%s: track %r, expected %r", what, x, t["no"])
        check(x.signature_bytes == t["sig"], "%s: signature of track %r: %s", what, t["no"], core.first_diff(x.signature_bytes, t["sig"]))
    if fp:
        check((ts[1].duration, ts[1].fingerprint) == fp, "%s: fingerprint %r", what, (ts[1].duration, ts[1].fingerprint))


LEGS = [Leg("record", record_case, run_record, quick=4000, thorough=80000, shards=8),
        Leg("values", values, run_values, quick=4000, thorough=120000, shards=8)]
