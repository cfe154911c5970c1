"""R09: malformed SRR and RAR input is rejected cleanly."""
import os, re, struct, tempfile
from hypothesis import strategies as st
from vh import core, content, gen, mut, rarw, srr as S
from vh.core import Leg, check, Reject
from rescene import main as M, rar as R
from rescene import srr as CLI

RULE = ("mutate: a case is a generated SRR or RAR volume with 1-4 structure-aware mutations (bit flips, interesting values at header fields, "
        "cuts, insertions, duplicated or swapped ranges), put through every reading and editing operation; grammar: a random sequence of blocks with "
        "arbitrary types, flags, lengths and bodies; prefix: every truncation of an SRR or volume; cli: a mutated file given to a "
        "command line action. Non-trivial: the bytes differ from a well-formed file (mutate, cli) or hold at least one block that is parsed (grammar).")
ASSUMPTIONS = ["files written while rebuilding are limited to 64 MiB by a resource limit (a claimed size may legitimately be padded with zeros)",
               "prompt means: within the 90 s case limit, normally milliseconds",
               "rebuilding entries that claim RAR compression is not driven: it needs RAR executables"]
OK = (OSError, ValueError, R.ArchiveNotFoundError, M.NotSrrFile, M.FileNotFound, M.InvalidFileSize, M.DupeFileName, M.RarNotFound, M.EmptyRepository)


def guarded(ctx, d, name, fn):
    """Run one operation; documented errors are fine."""
    with core.guard(d) as esc:
        try:
            with core.quiet():
                r = fn()
            ctx.label(name + ":ok")
        except OK as e:
            r = None
            ctx.label(name + ":" + type(e).__name__)
    check(not esc, "%s touched %r outside the scratch directory", name, esc[:2])
    return r


def compressed(p):
    """Rebuilding compressed files runs RAR executables, which are not here."""
    try:
        return any(isinstance(b, R.RarPackedFileBlock) and b.is_compressed() for b in R.RarReader(p).read_all())
    except OK:
        return False


def ops(b, files, vols, ctx, d):
    core.limits()
    src = os.path.join(d, "in")
    S.write_files(files, src)
    p = core.write(os.path.join(d, "m.srr"), b)
    r = os.path.join(d, "r", "m.rar")
    core.write(r, b)
    guarded(ctx, d, "info", lambda: M.info(p))
    guarded(ctx, d, "hash", lambda: M.content_hash(p))
    guarded(ctx, d, "details", lambda: M.print_details(p))
    guarded(ctx, d, "list", lambda: R.RarReader(p).list_files())
    guarded(ctx, d, "extract", lambda: M.extract_files(p, os.path.join(d, "x")))
    if not compressed(p):
        guarded(ctx, d, "rebuild", lambda: M.reconstruct(p, src, os.path.join(d, "o"), auto_locate_renamed=True, tmp_dir=d))
        guarded(ctx, d, "rebuild-fake", lambda: M.reconstruct(p, src, os.path.join(d, "o2"), extract_paths=False, empty=True, tmp_dir=d))
    guarded(ctx, d, "create", lambda: M.create_srr(os.path.join(d, "n.srr"), [r], in_folder=d, compressed=True))
    add = core.write(os.path.join(d, "add.nfo"), b"new file")
    guarded(ctx, d, "add", lambda: M.add_stored_files(p, [add]))
    guarded(ctx, d, "rename", lambda: M.rename_stored_file(p, "add.nfo", "new.nfo"))
    guarded(ctx, d, "remove", lambda: M.remove_stored_files(p, ["new.nfo"]))
    core.write(p, b)
    guarded(ctx, d, "merge", lambda: M.merge_srrs([p, p], os.path.join(d, "mm.srr")))


def anchors_srr(b):
    try:
        pos, out = 0, []
        for t, h, data, _k in rarw.parse_srr(b):
            out.append(pos)
            pos += len(h) + len(data)
        return out
    except Exception:
        return [0]


def base_bytes(c):
    """(bytes, anchors, files, vols) of the well-formed file the case starts from"""
    vols, files = rarw.build(c["set"])
    if c["kind"] == "rar":
        v = vols[c["pick"] % len(vols)]
        pos, an = 0, []
        for _t, h, data, _k in v.blocks:
            an.append(pos)
            pos += len(h) + len(data)
        return bytes(v.raw), an, files, vols
    b = rarw.srr_header("pyReScene test")
    an = [0]
    sfv = S.sfv_text([(v.name, bytes(v.raw)) for v in vols])
    for n, data in [("rls.sfv", sfv)] + [(n, content.data(k)) for n, k in c["stored"]]:
        an.append(len(b))
        b += rarw.srr_stored(n, data)
    for v in vols:
        an.append(len(b))
        b += rarw.srr_rar(v.name)
        pos = len(b)
        for _t, h, data, keep in v.blocks:
            an.append(pos)
            pos += len(h) + (len(data) if keep else 0)
        b += bytes(v.meta)
    if c["oso"]:
        an.append(len(b))
        b += rarw.srr_oso("movie.avi", 123, "0123456789abcdef")
    return b, an, files, vols


@st.composite
def base_case(draw):
    return {"set": draw(gen.rarset(max_vols=3, max_files=2, hi=500)), "kind": draw(st.sampled_from(["srr", "srr", "rar"])), "pick": draw(st.integers(0, 2)),
            "stored": draw(st.lists(st.tuples(gen.STORED_NAME, gen.content(0, 200)), max_size=2)), "oso": draw(st.booleans())}


@st.composite
def mutate_case(draw):
    c = draw(base_case())
    c["mut"] = draw(mut.mutations())
    return c


def mutate_run(c, ctx):
    d = ctx.dir()
    b, an, files, vols = base_bytes(c)
    m = mut.apply(b, c["mut"], an)
    ctx.nontrivial(m != b)
    ctx.label(c["kind"])
    ops(m, files, vols, ctx, d)


TYPES = [0x69, 0x6A, 0x6B, 0x6C, 0x71, 0x72, 0x73, 0x74, 0x75, 0x76, 0x77, 0x78, 0x79, 0x7A, 0x7B, 0x00, 0x6D, 0x80]


@st.composite
def grammar_case(draw):
    blk = st.tuples(st.sampled_from(TYPES), st.one_of(st.sampled_from([0, 0x8000, 1, 0x100, 0x8100, 0x200, 0x400, 0x1000, 0x1600, 0x9300, 0x90e0]), st.integers(0, 0xFFFF)),
                    st.one_of(st.none(), st.none(), st.none(), st.integers(0, 80), st.integers(0, 0xFFFF)),
                    st.one_of(st.none(), st.integers(0, 40), st.sampled_from([0xFFFFFFFF, 1 << 31, 0x10000])),
                    st.one_of(st.sampled_from(["", "00", "5252", "525250726f746563742b", "41" * 40, "00" * 60]), st.binary(max_size=70).map(bytes.hex)))
    return {"first": draw(st.sampled_from(["srr", "srr", "rar", "none", "rar5", "sfx"])), "blocks": draw(st.lists(blk, max_size=7)), "tail": draw(st.binary(max_size=30)).hex()}


def grammar_run(c, ctx):
    d = ctx.dir()
    b = {"srr": rarw.srr_header("x"), "rar": rarw.MARKER, "none": b"", "rar5": b"Rar!\x1a\x07\x01\x00", "sfx": b"MZ" + bytes(50) + rarw.MARKER}[c["first"]]
    for t, fl, size, add, body in c["blocks"]:
        body = bytes.fromhex(body)
        if add is not None:
            body = struct.pack("<I", add) + body
        if t == 0x74 and len(body) > 20 and size is None:
            # plausible name length, so that the parser gets further
            nl = max(0, min(len(body) - 25, 40))
            body = body[:19] + struct.pack("<H", nl) + body[21:]
        b += struct.pack("<HBHH", 0x6969, t, fl, 7 + len(body) if size is None else size) + body
    b += bytes.fromhex(c["tail"])
    p = core.write(os.path.join(d, "probe.srr"), b)
    try:
        r = R.RarReader(p, enable_sfx=True)
        n = sum(1 for _ in zip(r, range(50)))
        ctx.nontrivial(n > 1)
    except OK:
        ctx.nontrivial(len(c["blocks"]) > 1)
    ops(b, {"movie.avi": b"abc"}, [], ctx, d)


def prefix_run(c, ctx):
    d = ctx.dir()
    core.limits()
    b, an, files, vols = base_bytes(c)
    step = max(1, len(b) // 250)
    cuts = sorted(set(range(0, len(b), step)) | {a + k for a in an for k in range(0, 45)} | set(range(min(60, len(b)))))
    for n in cuts:
        if n >= len(b):
            break
        p = core.write(os.path.join(d, "t.srr"), b[:n])
        guarded(ctx, d, "info", lambda: M.info(p))
        guarded(ctx, d, "details", lambda: M.print_details(p))
        got = guarded(ctx, d, "extract", lambda: M.extract_files(p, os.path.join(d, "x%d" % n)))
        if n % 5 == 0:
            guarded(ctx, d, "rebuild", lambda: M.reconstruct(p, d, os.path.join(d, "o%d" % n), empty=True, tmp_dir=d))
    ctx.nontrivial(len(cuts) > 50)


@st.composite
def cli_case(draw):
    c = draw(mutate_case())
    c["act"] = draw(st.sampled_from(["-l", "-e", "-x", "-q", "-qr", "rebuild", "rebuild-f", "re", "add", "create", "create-c", "sfv", "vol"]))
    return c


def cli_run(c, ctx):
    d = ctx.dir()
    b, an, files, vols = base_bytes(c)
    m = mut.apply(b, c["mut"], an)
    ctx.nontrivial(m != b)
    S.write_files(files, d)
    act = c["act"]
    ctx.label(act)
    out = os.path.join(d, "out")
    os.makedirs(out)
    name = "m.srr"
    if act in ("create", "create-c", "sfv"):
        name = vols[0].name if vols[0].name.lower().endswith(".rar") else "m.rar"
        for v in vols[1:]:
            core.write(os.path.join(d, v.name), bytes(v.raw))
    core.write(os.path.join(d, name), m)
    argv = {"-l": ["-l"], "-e": ["-e"], "-x": ["-x", "-p", "-o", out, "-y"], "-q": ["-q"], "-qr": ["-q", "-r"], "rebuild": ["-o", out, "-p", "-y"],
            "rebuild-f": ["-o", out, "-f", "-r", "-n"], "re": ["--extract-regex", ".*", "-o", out, "-y"], "add": ["-s", files and sorted(files)[0] or "x", "-y"],
            "create": ["-o", out, "-y"], "create-c": ["-c", "-o", out, "-y", "-p"], "sfv": ["-o", out, "-y"], "vol": ["-m", ".rar", "-o", out, "-y"]}[act]
    target = name
    if act in ("rebuild", "rebuild-f", "vol") and compressed(os.path.join(d, name)):
        raise Reject()
    if act == "sfv":
        target = "m.sfv"
        core.write(os.path.join(d, target), S.sfv_text([(v.name, bytes(v.raw)) for v in vols]) + m[:200])

    box = {}

    def before():
        core.limits()
        tempfile.tempdir = d
        g = core.guard(d)
        box["g"] = g
        g.__enter__()
    r = core.cli(CLI.main, [target] + argv, cwd=d, before=before, timeout=80)
    check(not r.exc, "%r ended with %s", [target] + argv, r.exc)
    check(r.rc >= 0 and r.rc in (0, 1, 2, 10, 99), "%r ended with status %r (%s)", [target] + argv, r.rc, r.err[-300:])
    check(r.rc in (0, 10) or (r.err + r.out).strip(), "%r failed without a message", argv)
    check("blocked by the harness" not in r.err + r.out, "%r touched files outside the scratch directory: %s", argv, r.err[-300:])
    if "Traceback" in r.err:
        last = [l for l in r.err.splitlines() if re.match(r"^[A-Za-z_.]+(Error|Exception|error|Found|Size|Name|File|Repository|Sfv)\b", l)]
        bad = ("struct.error", "IndexError", "AttributeError", "TypeError", "KeyError", "AssertionError", "UnboundLocalError", "NameError", "MemoryError", "RecursionError")
        check(not last or not last[-1].startswith(bad), "%r crashed: %s", argv, r.err[-1600:])
    ctx.label("rc%d" % r.rc)


LEGS = [Leg("mutate", mutate_case, mutate_run, quick=1600, thorough=60000, shards=3),
        Leg("grammar", grammar_case, grammar_run, quick=1200, thorough=40000, shards=2),
        Leg("prefix", base_case, prefix_run, quick=16, thorough=400, shards=1),
        Leg("cli", cli_case, cli_run, quick=500, thorough=15000, shards=2)]
