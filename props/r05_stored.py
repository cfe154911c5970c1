"""R05: stored-file edits behave like an ordered name -> bytes map."""
import os, shutil
from hypothesis import strategies as st
from vh import core, content, gen, rarw, srr as S
from vh.core import Leg, check, Reject
from rescene import main as M
from rescene import srr as CLI

RULE = ("A case is an SRR (stored-only, synthetic, or created from a generated RAR set; with or without application name, "
        "SFV, OSO hash, and stored files behind RAR blocks) plus a history of 1-8 operations: add (1-3 files, relative, by absolute "
        "path, outside the base folder, missing; with or without paths), remove (list or one name, unknown names), rename "
        "(unknown, invalid, empty, existing target), list, extract, and command-line add. Non-trivial: at least "
        "two operations change the map or one is refused.")
ASSUMPTIONS = ["names are legal SRR names (no Windows-illegal characters) unless the operation is expected to be refused",
               "adding when one name of a list is a duplicate refuses the whole list"]

NAMES = ["rls.nfo", "rls.sfv", "s.nfo", "Sample/rls-sample.srs", "Proof/p.jpg", "a b/\u00fc.txt", "x[1].txt", "[x]/y.txt",
         "UPPER.NFO", "upper.nfo", "\u03b1\u03b2.txt", "deep/er/est/f.bin", "nfo", "Proof/p2.jpg", "..dots.txt", "..d/f.txt",
         "tab\tname.txt", "per%cent{0}.txt", "-dash.txt", "zero"]
NAME = st.one_of(st.sampled_from(NAMES), st.sampled_from(NAMES), st.sampled_from(NAMES), gen.STORED_NAME)
CONT = gen.content(0, 2000, big=[0xFFFF, 0x10000, 0x10001, 70000])


def conflict(names):
    s = set(names)
    for n in s:
        parts = n.split("/")
        for i in range(1, len(parts)):
            if "/".join(parts[:i]) in s:
                return True
    return False


def op():
    add = st.fixed_dictionaries({
        "op": st.just("add"), "paths": st.booleans(), "base": st.sampled_from(["given", "given", "default"]),
        "single": st.booleans(), "cli": st.integers(0, 9).map(lambda i: i == 0),
        "items": st.lists(st.fixed_dictionaries({
            "n": NAME, "c": CONT, "how": st.sampled_from(["rel", "rel", "rel", "abs", "out", "missing", "odd"])}),
            min_size=1, max_size=3)})
    rem = st.fixed_dictionaries({"op": st.just("remove"), "single": st.integers(0, 3).map(lambda i: i == 0),
                                 "pick": st.lists(st.integers(0, 12), min_size=1, max_size=3),
                                 "unknown": st.lists(NAME, max_size=1), "near": st.sampled_from([None] * 5 + ["case", "base", "pre", "slash", "dot", "double"])})
    ren = st.fixed_dictionaries({"op": st.just("rename"), "pick": st.integers(0, 12),
                                 "new": st.one_of(NAME, NAME, NAME, st.sampled_from(
                                     ["", "a:b", "x\\y", "q?", "w*", "a|b", "<", ">", "\"", "L" * 65523, "L" * 65522, "\u00e9" * 32762])),
                                 "unknown": st.integers(0, 7).map(lambda i: i == 0), "near": st.sampled_from([None] * 6 + ["case", "base", "oldcase"])})
    return st.one_of(add, add, rem, ren, ren)


@st.composite
def case(draw):
    kind = draw(st.sampled_from(["stored", "made", "made", "synth", "synth"]))
    c = {"kind": kind, "ops": draw(st.lists(op(), min_size=1, max_size=8)),
         "start": draw(st.lists(st.tuples(NAME, CONT), max_size=4, unique_by=lambda t: t[0])),
         "extract": draw(st.integers(0, 7))}
    if draw(st.integers(0, 4)) == 0:        # names that differ in letter case only
        c["start"] = [t for t in c["start"] if t[0] not in ("UPPER.NFO", "upper.nfo")][:2] + [(n, draw(CONT)) for n in draw(st.permutations(["UPPER.NFO", "upper.nfo"]))]
    if kind == "made":
        c["start"] = [t for t in c["start"] if not t[0].startswith("..")]
    if kind != "stored":
        c["set"] = draw(gen.rarset(max_vols=4, max_files=2, hi=800, big=None if kind == "synth" else [70000], rich=draw(st.booleans())))
    if kind == "synth":
        c["app"] = draw(st.one_of(st.none(), gen.app_name()))
        c["oso"] = draw(st.booleans())
        c["late"] = draw(st.lists(st.tuples(st.just("late.nfo"), CONT), max_size=1))
    return c


def run(c, ctx):
    d = ctx.dir()
    srr = os.path.join(d, "s", "x.srr")
    os.makedirs(os.path.dirname(srr))
    start = [(n, content.data(k)) for n, k in c["start"]]
    late = []
    rel = os.path.join(d, "rel")
    vols, files = [], {}
    if c["kind"] == "stored":
        core.write(srr, rarw.srr_header("pyReScene test") + b"".join(rarw.srr_stored(n, b) for n, b in start))
    elif c["kind"] == "synth":
        vols, files = rarw.build(c["set"])
        b = rarw.srr_header(c["app"]) + b"".join(rarw.srr_stored(n, x) for n, x in start)
        for v in vols:
            b += rarw.srr_rar(v.name) + bytes(v.meta)
        if c["oso"]:
            b += rarw.srr_oso(start[0][0] if start and len(start[0][0]) % 2 else "film.avi", 123456, "0123456789abcdef")
        late = [(n, content.data(k)) for n, k in c["late"]]
        b += b"".join(rarw.srr_stored(n, x) for n, x in late)
        core.write(srr, b)
    else:
        vols, files, paths = S.write_set(c["set"], rel)
        if start:
            S.write_files(dict(start), os.path.join(d, "first"))
        check(S.create(srr, [paths[0]], in_folder=os.path.join(d, "first"), store_files=[n for n, _ in start],
                       save_paths=False) is True, "creation failed")
        shutil.rmtree(rel)
        start = [(os.path.basename(n), b) for n, b in start]
        if len(set(n for n, _ in start)) != len(start):
            raise Reject()
    model = list(start)              # files in front of the RAR blocks
    first = rarw.srr_view(core.read(srr))
    check(first["stored"] == model + late, "initial SRR lists %r", [n for n, _ in first["stored"]])
    with core.quiet():
        h0 = M.content_hash(srr) if vols else None
    changes = 0

    def names():
        return [n for n, _ in model + late]

    def verify(what):
        v = rarw.srr_view(core.read(srr))
        check([n for n, _ in v["stored"]] == names(), "after %s: stored %r, expected %r", what,
              [n for n, _ in v["stored"]], names())
        for (n, b), (_n, e) in zip(v["stored"], model + late):
            check(b == e, "after %s: bytes of %r differ: %s", what, n, core.first_diff(b, e))
        for k in ("app", "rars", "oso"):
            check(v[k] == first[k], "after %s: %s changed", what, k)
        with core.quiet():
            i = M.info(srr)
        check([(f.file_name, f.file_size) for f in i["stored_files"].values()] ==
              [(n, len(b)) for n, b in model + late], "after %s: listing differs from contents", what)
        if os.path.isdir(os.path.join(d, "s")):
            junk = [f for f in os.listdir(os.path.join(d, "s")) if f != "x.srr" and f.startswith(("srr_", "remove_", "file_rename", "tmp"))]
            check(not junk, "after %s: stray files %r", what, junk)

    for k, o in enumerate(c["ops"]):
        what = "op %d %s" % (k, o["op"])
        before = core.read(srr)
        if o["op"] == "add":
            base = os.path.join(d, "src%d" % k) if o["base"] == "given" else os.path.join(d, "s")
            os.makedirs(base, exist_ok=True)
            args, new = [], []
            for j, it in enumerate(o["items"]):
                n = it["n"]
                if any(n == "x.srr" or n.startswith("x.srr/") for _ in [0]):
                    raise Reject()
                data = content.data(it["c"])
                stored = n if o["paths"] else n.split("/")[-1]
                p = os.path.join(base, n)
                if it["how"] == "out":
                    p = os.path.join(d, "outside%d_%d" % (k, j), n)
                    stored = n.split("/")[-1]
                if it["how"] != "missing":
                    try:
                        core.write(p, data)
                    except (NotADirectoryError, IsADirectoryError, FileExistsError):
                        raise Reject()
                new.append((stored, p))
                # names starting with .. are taken relative to the current folder
                if it["how"] in ("abs", "out") or n.startswith(".."):
                    args.append(p)
                elif it["how"] == "odd":
                    args.append("./" + n.replace("/", "//"))
                else:
                    args.append(n)
            # a file listed twice, or two files ending in the same name, is a duplicate
            new = [(s, p) for s, p in new if os.path.isfile(p)]
            newnames = [s for s, _ in new]
            raw = [os.path.normpath(a) for a in args]
            if any(os.path.normpath(n) in raw for n in names()) or len(set(newnames)) != len(newnames) \
                    or set(newnames) & set(names()):
                expect_dupe = True
            else:
                expect_dupe = False
            new = [(s, core.read(p)) for s, p in new]
            ev = S.events()
            if o["cli"]:
                argv = [srr, "-y"] + [x for a in args for x in ("-s", a)] + (["-p"] if o["paths"] else [])
                here = k % 2 == 0 and os.path.isdir(base)       # the current folder is the base when none is given
                argv += [] if here else ["-i", base]
                r = core.cli(CLI.main, argv, cwd=base if here else d)
                refused = r.rc != 0
                ctx.label("cli-add")
                check(refused == expect_dupe, "%s: exit %r, duplicate expected: %r (%r)", what, r.rc, expect_dupe, r)
            else:
                if o["single"] and len(args) == 1:
                    args = args[0]
                try:
                    with core.quiet():
                        M.add_stored_files(srr, args, in_folder=base if o["base"] == "given" else "", save_paths=o["paths"])
                    refused = False
                except M.DupeFileName:
                    refused = True
                check(refused == expect_dupe, "%s of %r to %r: refused=%r, expected %r", what, args, names(), refused, expect_dupe)
                if not refused and len(new) < len(o["items"]):
                    check(ev.has(M.MsgCode.FILE_NOT_FOUND), "missing file to add was not reported")
            if refused:
                check(core.read(srr) == before, "refused add changed the SRR")
                ctx.label("dupe-refused")
                ctx.nontrivial()
            else:
                if vols:
                    model += new
                else:
                    model += new
                changes += bool(new)
                ctx.label("add")
        elif o["op"] == "remove":
            have = names()
            pick = [have[i % len(have)] for i in o["pick"]] if have else []
            if have and o.get("near"):
                # names that only resemble a stored one
                pick = [{"case": p.swapcase(), "base": p.rsplit("/", 1)[-1], "pre": p[:-1], "slash": p.replace("/", "\\"), "dot": "./" + p, "double": p.replace("/", "//")}[o["near"]] for p in pick]
            pick += o["unknown"]
            if not pick:
                pick = ["not there"]
            arg = pick
            if o["single"]:
                pick = pick[:1]
                arg = pick[0]
            with core.quiet():
                M.remove_stored_files(srr, arg)
            n0 = len(model) + len(late)
            model = [(n, b) for n, b in model if n not in pick]
            late = [(n, b) for n, b in late if n not in pick]
            if len(model) + len(late) == n0:
                check(core.read(srr) == before, "removing unknown names changed the SRR")
            else:
                changes += 1
                ctx.label("remove")
        else:
            have = names()
            old = have[o["pick"] % len(have)] if have and not o["unknown"] else "no such file"
            new = o["new"]
            if old in have and o.get("near"):
                if o["near"] == "oldcase" and old.swapcase() not in have:
                    old = old.swapcase()
                elif o["near"] == "case":
                    new = old.swapcase()
                elif o["near"] == "base":
                    new = old.rsplit("/", 1)[-1]
            if os.path.normpath(new or ".") != new:
                raise Reject()
            if old in have and new == old:
                exp = None
            elif old not in have:
                exp = M.FileNotFound
            elif new in have:
                exp = M.DupeFileName
            elif not new or any(ch in new for ch in '\\:*?"<>|') or len(new.encode()) > 65522:
                exp = AttributeError
            else:
                exp = None
            try:
                with core.quiet():
                    M.rename_stored_file(srr, old, new)
                got = None
            except (M.FileNotFound, M.DupeFileName, AttributeError) as e:
                got = type(e)
            check(got == exp, "%s %r -> %.60r: %r, expected %r", what, old, new, got, exp)
            if exp:
                check(core.read(srr) == before, "refused rename changed the SRR")
                ctx.label("rename-refused")
                ctx.nontrivial()
            else:
                model = [(new if n == old else n, b) for n, b in model]
                late = [(new if n == old else n, b) for n, b in late]
                changes += 1
                ctx.label("rename")
        if len(core.read(srr)) < 20:
            raise Reject()      # documented minimum size of a readable file
        verify(what)
    ctx.nontrivial(changes >= 2)
    ctx.label(c["kind"])
    if h0 is not None:
        with core.quiet():
            check(M.content_hash(srr) == h0, "content hash changed by edits")
    allf = dict(model + late)
    if conflict(allf) or any(len(p.encode()) > 200 for n in allf for p in n.split("/")):
        return
    out = os.path.join(d, "out")
    with core.quiet():
        r = M.extract_files(srr, out)
    S.same_tree(core.tree(out) if os.path.isdir(out) else {}, allf, "extraction")
    check([s for _p, s in r] == [True] * len(allf), "extraction reported %r", r)
    if names():
        n = names()[c["extract"] % len(names())]
        out1 = os.path.join(d, "out1")
        with core.quiet():
            M.extract_files(srr, out1, packed_name=n)
        got = core.tree(out1)
        check(n in got and got[n] == allf[n], "extracting %r by name gave %r", n, sorted(got))
    # the release can still be rebuilt, and the stored files come along
    if vols:
        vn = {v.name for v in vols}
        if vn & set(allf) or conflict(list(allf) + list(vn)):
            return
        inp, out2 = os.path.join(d, "in"), os.path.join(d, "out2")
        os.makedirs(inp), os.makedirs(out2)
        S.write_files(files, inp)
        S.reconstruct(srr, inp, out2)
        want = dict(allf)
        want.update({v.name: bytes(v.raw) for v in vols})
        S.same_tree(core.tree(out2), want, "rebuild after edits")


LEGS = [Leg("history", case, run, quick=2000, thorough=60000, shards=8)]
