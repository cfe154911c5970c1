"""R16: OSO/ISDb hashes equal the reference definition."""
import io, os, struct, zlib
from hypothesis import strategies as st
from vh import core, content, gen, rarw, srr as S
from vh.core import Leg, check, Reject
from rescene import osohash as O
from rescene import main as M
from rescene.rarstream import RarStream

RULE = ("plain: contents of 0 to 300 000 bytes (sizes around 64 KiB, 128 KiB, not multiples of 8; all-0xFF words to overflow), hashed by path, open file at any position, and memory stream. "
        "rar: the same files packed into up to 12 volumes with other files around them, hashed by name, by default and from the volume where they start. srr: releases of 1-3 sets, entered "
        "by SFV (also with another letter case) or first volume; the hashes recorded in the SRR and reported by the listing are compared. "
        "Non-trivial: at least 64 KiB (plain), spans volumes (rar), at least one hash expected (srr).")
ASSUMPTIONS = ["a file of exactly 64 KiB or more has a hash; smaller ones are refused (the reference is undefined there)",
               "when the volumes on disk mix letter cases the hash may be missing, but never wrong",
               "video files inside one release have distinct names"]
SIZES = [65535, 65536, 65537, 65543, 65544, 70001, 131071, 131072, 131073, 140004, 200003, 262144, 299999]
VIDEO = [".mp4", ".m4v", ".avi", ".mkv", ".wmv", ".vob", ".m2ts", ".ts", ".mpeg", ".mpg", ".m2v", ".m2p"]


def ref(b):
    """size + sum of the 64-bit little-endian words of the first and last 64 KiB"""
    h = len(b)
    for part in (b[:65536], b[-65536:]):
        h += sum(struct.unpack("<8192Q", part))
    return "%016x" % (h & 0xFFFFFFFFFFFFFFFF), len(b)


def big():
    return st.fixed_dictionaries({"n": st.one_of(st.sampled_from(SIZES), st.integers(65536, 300000)), "s": st.integers(0, 99),
                                  "k": st.sampled_from(["rand", "rand", "ff", "zero", "rep"])})


@st.composite
def plain_case(draw):
    return {"c": draw(st.one_of(big(), big(), gen.content(0, 65535))), "at": draw(st.sampled_from([0, 0, 1, 5000, 65536])),
            "how": draw(st.sampled_from(["path", "file", "bytes"])), "poke": draw(st.lists(st.integers(0, 299999), max_size=3))}


def plain_run(c, ctx):
    d = ctx.dir()
    data = content.data(c["c"])
    p = core.write(os.path.join(d, "movie.avi"), data)

    def h(p, data):
        if c["how"] == "path":
            return O.compute_hash(p)
        f = open(p, "rb") if c["how"] == "file" else io.BytesIO(data)
        with f:
            return O.compute_hash(f)
    if len(data) < 65536:
        try:
            r = h(p, data)
        except ValueError:
            return
        check(False, "%d bytes hashed as %r", len(data), r)
    got, want = h(p, data), ref(data)
    check(tuple(got) == want, "hash %r, expected %r", got, want)
    ctx.nontrivial(True)
    b = bytearray(data)
    for k in c["poke"]:
        b[k % len(b)] ^= 0x5A
    core.write(p, bytes(b))
    got, want = h(p, bytes(b)), ref(bytes(b))
    check(tuple(got) == want, "hash %r after a change, expected %r", got, want)
    check(core.read(p) == bytes(b), "hashing changed the file")


@st.composite
def rar_case(draw):
    s = draw(gen.rarset(max_vols=12, max_files=3, hi=2000))
    files = [f for f in s["files"] if not f.get("dir")]
    i = draw(st.integers(0, len(files) - 1))
    files[i]["c"] = draw(big())
    if s["naming"] != "single":
        total = sum(f["c"]["n"] for f in files)
        lim = {"part1": 9}.get(s["naming"], 12)
        n = draw(st.integers(1, lim))
        s["caps"] = [draw(st.integers(1, 90000))] * draw(st.integers(0, 1)) + [max(1, -(-total // n))]
        if s["caps"][0] < total // 11 and len(s["caps"]) > 1:
            s["caps"] = s["caps"][1:]
    return {"set": s, "i": i, "how": draw(st.sampled_from(["name", "default", "middle"]))}


def rar_run(c, ctx):
    d = ctx.dir()
    s = c["set"]
    vols, files, paths = S.write_set(s, d)
    if s["naming"] == "part1" and len(vols) > 9 or len(vols) > 90:
        raise Reject()
    i = c["i"] if c["how"] != "default" else 0
    f = s["files"][i]
    if f.get("dir"):
        raise Reject()
    where = [k for k, v in enumerate(vols) if any(x == i for x, _o, _k in v.pieces)]
    data = content.data(f["c"])

    def h():
        if c["how"] == "default":
            return O.osohash_from(paths[0])
        if c["how"] == "name":
            return O.osohash_from(paths[0], f["name"])
        return O.osohash_from(paths[where[0]], f["name"], True)
    try:
        got = h()
    except ValueError as e:
        check(len(data) < 65536, "%d bytes refused: %r", len(data), e)
        ctx.label("small")
    else:
        check(len(data) >= 65536, "%d bytes hashed", len(data))
        check(tuple(got) == ref(data), "hash %r through %d volumes, expected %r", got, len(where), ref(data))
    ctx.nontrivial(len(where) > 1 and len(data) >= 65536)


@st.composite
def srr_case(draw):
    sets = []
    n = draw(st.sampled_from([1, 1, 2, 3]))
    names = set()
    for i in range(n):
        s = draw(gen.rarset(base="grp-cd%d" % (i + 1), names=names, max_vols=8, max_files=3, hi=1500, unicode_ok=draw(st.booleans()), namings=["old", "old", "part2", "part3", "num", "single"]))
        s["upper"] = False
        for f in s["files"]:
            if not f.get("dir") and draw(st.integers(0, 2)) > 0:
                ext = draw(st.sampled_from(VIDEO))
                f["name"] = f["name"].rsplit(".", 1)[0] + draw(st.sampled_from([ext, ext, ext.upper()]))
                k = draw(st.integers(0, 3))
                f["c"] = draw(big()) if k < 2 else draw(gen.content(0, 2000)) if k == 2 else {"n": draw(st.sampled_from([65535, 65536])), "s": 1, "k": "rand"}
        total = sum(f["c"]["n"] for f in s["files"])
        if s["naming"] != "single":
            s["caps"] = [max(1, -(-total // draw(st.integers(1, 8))))]
        s["via"] = draw(st.sampled_from(["sfv", "sfv", "SFV", "rar"]))
        s["mix"] = draw(st.one_of(st.none(), st.none(), st.none(), st.integers(1, 7)))
        s["dir"] = draw(st.sampled_from(["", "CD%d" % (i + 1)]))
        sets.append(s)
    return {"sets": sets, "oso": draw(st.integers(0, 7)) > 0, "paths": draw(st.booleans()), "order": draw(st.booleans())}


def srr_run(c, ctx):
    d = ctx.dir()
    rel = os.path.join(d, "rel")
    os.makedirs(rel)
    infiles, want, seen, loose = [], [], set(), set()
    for n, s in enumerate(c["sets"]):
        sub = os.path.join(rel, s["dir"])
        vols, files, paths = S.write_set(s, sub)
        mixed = s["mix"] if s["mix"] and s["mix"] < len(vols) and s["via"] == "sfv" else None
        if mixed:       # one volume on disk has capitals
            os.rename(paths[mixed], os.path.join(sub, vols[mixed].name.upper()))
        if s["via"].lower() == "sfv":
            conv = (lambda x: x.upper()) if s["via"] == "SFV" else (lambda x: x)
            lines = ["%s %08x" % (conv(v.name), zlib.crc32(bytes(v.raw))) for v in vols]
            infiles.append(core.write(os.path.join(sub, "s%d.sfv" % n), ("\r\n".join(lines) + "\r\n").encode("latin-1")))
        else:
            infiles.append(paths[0])
        for f in s["files"]:
            if f.get("dir"):
                continue
            base = f["name"].replace("\\", "/").split("/")[-1]
            if f["name"].lower() in seen:
                raise Reject()
            seen.add(f["name"].lower())
            data = content.data(f["c"])
            if os.path.splitext(base)[1].lower() in VIDEO and len(data) >= 65536 and c["oso"]:
                if mixed:
                    loose.add(base)
                want.append((base,) + ref(data))
    srr = os.path.join(d, "x.srr")
    check(S.create(srr, infiles, in_folder=rel, save_paths=c["paths"], oso_hash=c["oso"]) is True, "creation failed")
    got = [(n, h, z) for n, z, h in rarw.srr_view(core.read(srr))["oso"]]
    norm = lambda l: sorted((n, h, z) for n, h, z in l)
    check(all(x in want for x in got), "wrong hash recorded: %r, expected %r", got, want)
    want = [x for x in want if x in got or x[0] not in loose]
    check(norm(got) == norm(want), "recorded hashes %r, expected %r", got, want)
    with core.quiet():
        i = M.info(srr)
    check(norm(i["oso_hashes"]) == norm(want), "reported hashes %r, expected %r", i["oso_hashes"], want)
    ctx.nontrivial(want)


LEGS = [Leg("plain", plain_case, plain_run, quick=700, thorough=20000, shards=2),
        Leg("rar", rar_case, rar_run, quick=700, thorough=20000, shards=3),
        Leg("srr", srr_case, srr_run, quick=400, thorough=15000, shards=3)]
