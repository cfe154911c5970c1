"""R12: reported contents describe the real release."""
import os, random, re, zlib
from hypothesis import strategies as st
from vh import core, content, gen, rarw, srr as S
from vh.core import Leg, check, Reject
from rescene import main as M
from rescene import srr as CLI

RULE = ("A case is a release of 1-3 generated store-mode sets (sub-directories, every naming scheme, recovery records, padding, header options), each entered through "
        "an SFV file (shuffled lines, comments, extra entries, broken lines, letter case) or through its first volume, plus stored files; the SRR is created "
        "by the tool and its listing (API and command line) is compared with the generated release. Non-trivial: a file spans volumes, or there are "
        "several sets, or a recovery record, or SFV extras.")
ASSUMPTIONS = ["volume base names and packed file names are unique within the release (see the known findings for the case that they are not)",
               "one volume of the release may be entered in the SFV with another letter case"]


@st.composite
def case(draw):
    names = set()
    n = draw(st.sampled_from([1, 1, 2, 3]))
    sets = []
    for i in range(n):
        big = [65536, 70000, 140001] if draw(st.integers(0, 6)) == 0 else None
        s = draw(gen.rarset(base=draw(st.sampled_from(["rls", "Grp.CD", "x y", "a-b_c"])) + ("" if n == 1 else str(i + 1)), names=names, max_vols=6, max_files=3, hi=2500, big=big,
                            rich=draw(st.integers(0, 2)) > 0))
        s["dir"] = draw(st.sampled_from(["", "", "CD%d" % (i + 1), "Subs"]))
        s["via"] = draw(st.sampled_from(["sfv", "sfv", "rar"]))
        s["sfv"] = {"seed": draw(st.integers(0, 99)), "eol": draw(st.sampled_from(["\r\n", "\n"])),
                    "case": draw(st.sampled_from(["lower", "lower", "upper"])),
                    "comments": draw(st.lists(st.sampled_from(["; generated by x", ";", "; caf\u00e9 1234abcd", "  ; indented"]), max_size=2)),
                    "extra": draw(st.lists(st.sampled_from(["readme.txt", "some file.nfo", "other.mp3"]), max_size=2, unique=True)),
                    "bad": draw(st.lists(st.sampled_from(["nocrc", "file.rar 1234567G", "two words"]), max_size=1))}
        sets.append(s)
    return {"sets": sets, "paths": draw(st.booleans()), "oso": draw(st.booleans()), "cli": draw(st.integers(0, 3)) == 0,
            "stored": draw(st.lists(st.tuples(gen.STORED_NAME, gen.content(0, 5000)), max_size=3, unique_by=lambda t: t[0].lower()))}


def run(c, ctx):
    d = ctx.dir()
    rel = os.path.join(d, "rel")
    vols_all, infiles, arch, rec, sfvfiles = [], [], [], 0, []
    used = set()
    comments, entries, oso = [], [], []
    crcs = {}
    for i, s in enumerate(c["sets"]):
        sub = os.path.join(rel, s["dir"])
        vols, files, paths = S.write_set(s, sub)
        pre = s["dir"] + "/" if c["paths"] and s["dir"] else ""
        for v in vols:
            if v.name.lower() in used:
                raise Reject()
            used.add(v.name.lower())
        seq = vols
        if s["via"] == "sfv":
            lines = []
            f = s["sfv"]
            for v in vols:
                crc = "%08x" % zlib.crc32(bytes(v.raw))
                crcs[v.name.lower()] = crc.upper()
                lines.append("%s %s" % (v.name, crc.upper() if f["case"] == "upper" else crc))
            for x in f["extra"]:
                lines.append("%s 0000ABCD" % x)
                entries.append((x, "0000ABCD"))
            random.Random(f["seed"]).shuffle(lines)
            if i % 2 == 0 and len(vols) > 1:
                lines.append(lines[0])      # a duplicate line counts once
                if lines[0].split(" ")[0] in f["extra"] or " 0000ABCD" in lines[0]:
                    lines.pop()
            entries_order = [l for l in lines if l.endswith(" 0000ABCD")]
            entries[len(entries) - len(f["extra"]):] = [(l[:-9], "0000ABCD") for l in entries_order]
            text = f["eol"].join(f["comments"] + f["bad"] + lines) + f["eol"]
            comments += f["comments"] + f["bad"]
            p = core.write(os.path.join(sub, "set%d.sfv" % i), text.encode("latin-1"))
            infiles.append(p)
            sfvfiles.append((pre + "set%d.sfv" % i, text.encode("latin-1")))
            ctx.nontrivial(f["extra"] or f["bad"])
        else:
            infiles.append(paths[0])
        for v in seq:
            vols_all.append((pre + v.name, len(bytes(v.raw)), v.name.lower()))
        spans = {}
        for v in vols:
            for idx, off, k in v.pieces:
                spans.setdefault(idx, []).append(v)
        for idx, f in enumerate(s["files"]):
            if f.get("dir"):
                if (f["name"], 0, "00000000") not in arch:
                    arch.append((f["name"], 0, "00000000"))
                continue
            data = content.data(f["c"])
            arch.append((f["name"], len(data), "%08X" % zlib.crc32(data)))
            ctx.nontrivial(len(spans.get(idx, [])) > 1)
            ext = os.path.splitext(f["name"])[1].lower()
            if c["oso"] and len(data) >= 65536 and ext in (".avi", ".mkv", ".mp4", ".wmv"):
                oso.append((f["name"].replace("\\", "/").split("/")[-1], len(data)))
        for v in vols:
            for t, h, data, keep in v.blocks:
                if not keep:
                    if t == 0x78 or t == 0x7A:
                        rec += len(data)
        ctx.nontrivial(len(c["sets"]) > 1 or s.get("rr"))
    stored = []
    snames = set(n.lower() for n, _ in sfvfiles) | {n.lower() for n, _ in vols_for(c)}
    for n, k in c["stored"]:
        base = n if c["paths"] else n.split("/")[-1]
        if base.lower() in snames or base.lower().endswith((".sfv", ".rar")) or os.path.lexists(os.path.join(rel, n)) or any(ch in n for ch in '*?[]"<>|:'):
            continue
        snames.add(base.lower())
        try:
            p = core.write(os.path.join(rel, n), content.data(k))
        except (NotADirectoryError, IsADirectoryError, FileExistsError):
            continue
        stored.append((p, base, k["n"]))
    srr = os.path.join(d, "x.srr")
    if c["cli"]:
        argv = infiles + ["-o", srr, "-i", rel, "-y"] + (["-p"] if c["paths"] else []) + ([] if c["oso"] else ["--no-isdb"])
        if infiles[0].lower()[-4:] not in (".sfv", ".rar") or any(p.lower()[-4:] not in (".sfv", ".rar") for p in infiles):
            raise Reject()
        for p, _b, _n in stored:
            argv += ["-s", p]
        r = core.cli(CLI.main, argv, cwd=d)
        check(r.rc == 0 and not r.exc, "creation failed: %r", r)
    else:
        check(S.create(srr, infiles, in_folder=rel, store_files=[p for p, _b, _n in stored], save_paths=c["paths"], oso_hash=c["oso"]) is True, "creation failed")
    before = core.read(srr)
    with core.quiet():
        i = M.info(srr)
    check(core.read(srr) == before, "listing changed the SRR")
    check(i["appname"] == __import__("rescene").APPNAME, "application name %r", i["appname"])
    got = sorted((f.file_name, f.file_size) for f in i["stored_files"].values())
    want = sorted([(b, n) for _p, b, n in stored] + [(n, len(b)) for n, b in sfvfiles])
    check(got == want, "stored files listed as %r, expected %r", got, want)
    got = [(f.file_name, f.file_size, getattr(f, "crc32", None)) for f in i["rar_files"].values()]
    want = [(n, k, crcs.get(b)) for n, k, b in vols_all]
    check(got == want, "volumes listed as %r, expected %r", got, want)
    got = [(f.file_name, f.file_size, f.crc32) for f in i["archived_files"].values()]
    check(got == arch, "archived files listed as %r, expected %r", got, arch)
    check((i["recovery"].file_size if i["recovery"] else 0) == rec, "recovery size %r, expected %d", i["recovery"], rec)
    check(i["compression"] is False, "compression reported")
    check([(e.file_name, e.crc32) for e in i["sfv_entries"]] == entries, "other SFV entries %r, expected %r", i["sfv_entries"], entries)
    check(sorted(i["sfv_comments"]) == sorted(comments), "SFV comments %r, expected %r", i["sfv_comments"], comments)
    check([(n, s) for n, _h, s in i["oso_hashes"]] == oso, "ISDb hashes of %r, expected %r", i["oso_hashes"], oso)
    r = core.cli(CLI.main, [srr, "-l"], cwd=d)
    check(r.rc == 0 and not r.exc, "-l failed: %r", r)
    lines = r.out.splitlines()

    def section(name):
        if name not in lines:
            return []
        k = lines.index(name) + 1
        out = []
        while k < len(lines) and lines[k]:
            out.append(lines[k][1:])
            k += 1
        return out
    exp = ["%s %s %d" % (n, crcs[b], k) if b in crcs else "%s %d" % (n, k) for n, k, b in vols_all]
    check(section("RAR files:") == exp, "-l shows volumes %r, expected %r", section("RAR files:"), exp)
    exp = ["%s %s %d" % (n, x, k) for n, k, x in arch]
    check(section("Archived files:") == exp, "-l shows archived files %r, expected %r", section("Archived files:"), exp)
    got = sorted((l.split(None, 1)[1], int(re.sub(r"\D", "", l.split(None, 1)[0]))) for l in section("Stored files:"))
    exp = sorted([(b, n) for _p, b, n in stored] + [(n, len(b)) for n, b in sfvfiles])
    check(got == exp, "-l shows stored files %r, expected %r", got, exp)
    r = core.cli(CLI.main, [srr, "-e"], cwd=d)
    check(r.rc == 0 and not r.exc and not r.err, "-e failed: %r", r)
    nblocks = len(rarw.parse_srr(before))
    check(r.out.count("Block: ") == nblocks, "-e shows %d blocks, expected %d", r.out.count("Block: "), nblocks)
    check(r.out.rstrip().endswith(M.content_hash(srr)), "-e does not end with the content hash")
    p = os.path.join(rel, c["sets"][0]["dir"], rarw.build(c["sets"][0])[0][0].name)
    if p.lower().endswith(".rar"):
        with core.quiet() as (o, _e):
            M.print_details(p)
        check(o.getvalue().count("Block: ") >= 3, "details of a volume")
    ctx.label("sets%d" % len(c["sets"]))


def vols_for(c):
    return [(v.name, v) for s in c["sets"] for v in rarw.build(s)[0]]


@st.composite
def meta_case(draw):
    """SRRs as other tools write them: no SFV, large or unflagged blocks, unknown total sizes."""
    parts = draw(st.lists(st.integers(0, (1 << 33)), min_size=1, max_size=4))
    return {"parts": parts, "mode": draw(st.sampled_from(["normal", "normal", "last", "never"])), "large": draw(st.booleans()), "long": draw(st.booleans()),
            "rr": draw(st.one_of(st.none(), st.tuples(st.sampled_from(["new", "new-unflagged", "old"]), st.integers(1, 200), st.integers(1, 5000)))),
            "method": draw(st.sampled_from([0x30, 0x30, 0x30, 0x33, 0x35])), "f": draw(gen.packed(set(), hi=3, dirs=True)), "end": draw(st.booleans()), "crc": draw(st.integers(0, 0xFFFFFFFF)),
            "second": draw(st.one_of(st.none(), st.tuples(st.sampled_from([0x30, 0x33]), st.integers(0, 5000))))}


def meta_run(c, ctx):
    d = ctx.dir()
    f = dict(c["f"], method=c["method"])
    total = sum(c["parts"])
    f["large"] = c["large"] or total >= 0xFFFFFFFF
    f["long"] = c["long"]
    b = rarw.srr_header("other tool")
    vols = []
    n = len(c["parts"])
    mode = c["mode"]
    if mode != "normal" and (c["method"] != 0x30 or total == 0):
        mode = "normal"
    if mode == "never" and (f["large"] or c["method"] != 0x30):
        mode = "normal"
    rec = 0
    for i, k in enumerate(c["parts"]):
        un = total
        if mode == "last" and i < n - 1:
            f["large"] = True
            un = (1 << 64) - 1
        elif mode == "never":
            un = 0xFFFFFFFF
        fl = (1 if i else 0) | (2 if i < n - 1 else 0)
        fh = rarw.file_header(f, k, un, c["crc"] ^ (n - 1 - i), fl)
        hd = rarw.MARKER + rarw.block(0x73, 1, bytes(6))[0] + fh
        size = len(hd) + k
        if c.get("second") and i == n - 1:
            g = rarw.file_header({"name": "second file.bin", "method": c["second"][0], "ver": 29}, c["second"][1], c["second"][1], 0xABCDEF01, 0)
            hd += g
            size += len(g) + c["second"][1]
        if c["rr"]:
            st_, sec, ds = c["rr"]
            rl = 512 * sec + 2 * ds
            if st_ == "old":
                h = rarw.block(0x78, 0x8000, rarw.struct.pack("<IBHI", rl, 20, sec, ds) + b"Protect!")[0]
            else:
                h = rarw.file_header({"name": "RR", "ver": 29, "attr": 0, "long": st_ == "new"}, rl, rl, 1, 0x4000, 0x7A, b"Protect+" + rarw.struct.pack("<IQ", sec, ds))
            hd += h
            size += len(h) + rl
            rec += rl
        if c["end"]:
            e = rarw.block(0x7B, 0x4000, b"")[0]
            hd += e
            size += len(e)
        nm = "x.rar" if i == 0 else "x.r%02d" % (i - 1)
        b += rarw.srr_rar(nm) + hd
        vols.append((nm, size))
    p = core.write(os.path.join(d, "x.srr"), b)
    with core.quiet():
        i = M.info(p)
    check([(v.file_name, v.file_size) for v in i["rar_files"].values()] == vols, "volumes listed as %r, expected %r",
          [(v.file_name, v.file_size) for v in i["rar_files"].values()], vols)
    a = list(i["archived_files"].values())
    other = [x for x in a if x.file_name == "second file.bin"]
    a = [x for x in a if x not in other]
    check([(x.file_size, x.crc32) for x in other] == ([(c["second"][1], "ABCDEF01")] if c.get("second") else []), "second file listed as %r", [(x.file_size, x.crc32) for x in other])
    check(len(a) == 1 and (a[0].file_name, a[0].file_size, a[0].crc32) == (f["name"], total, "%08X" % c["crc"]),
          "archived file listed as %r, expected %r", [(x.file_name, x.file_size, x.crc32) for x in a], (f["name"], total, "%08X" % c["crc"]))
    check(bool(i["compression"]) == (c["method"] != 0x30 or bool(c.get("second") and c["second"][0] != 0x30)), "compression reported as %r", i["compression"])
    check((i["recovery"].file_size if i["recovery"] else 0) == rec, "recovery size %r, expected %d", i["recovery"] and i["recovery"].file_size, rec)
    ctx.nontrivial(n > 1 or c["rr"])
    ctx.label(mode)


def twice(d, same):
    """An SRR of CD1 and CD2 holding the same volume name or the same packed file name."""
    b = rarw.srr_header("x")
    for i, data in enumerate((b"first", b"second disc")):
        vols, _f = rarw.build({"base": "grp" if same == "volume" else "grp%d" % i, "naming": "single", "caps": [1 << 40], "end": "std",
                               "files": [{"name": "f%d.avi" % i if same == "volume" else "f.avi", "c": {"n": 5 * (i + 1), "s": i, "k": "rand"}}]})
        b += rarw.srr_rar("CD%d/%s" % (i + 1, vols[0].name)) + bytes(vols[0].meta)
    p = core.write(os.path.join(d, same + ".srr"), b)
    with core.quiet():
        return M.info(p)


def known(base):
    for k in core.known_findings("R12"):
        i = twice(base, k["same"])
        if len(i["rar_files" if k["same"] == "volume" else "archived_files"]) < 2:
            yield k["what"]


LEGS = [Leg("release", case, run, quick=600, thorough=9000, shards=6),
        Leg("meta", meta_case, meta_run, quick=1600, thorough=20000, shards=2)]
