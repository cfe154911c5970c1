"""R02: rebuild selects the requested volumes and finds the right files."""
import os, shutil, zlib
from hypothesis import strategies as st
from vh import core, gen, rarw, srr as S
from vh.core import Leg, check, Reject
from rescene import main as M
from rescene import srr as CLI

RULE = ("A case is a release of 1-3 generated store-mode sets with a request: everything, one volume (by full name "
        "or by extension), or a name prefix with '*'; path option; per packed file whether it is in place, renamed with a "
        "hint, or renamed/moved for auto-location; and output files that already exist with or without consent. "
        "Non-trivial: a proper subset is requested, or a file is renamed, or an output exists.")
ASSUMPTIONS = ["auto-location is only judged when exactly one candidate has the right extension and size (otherwise the documented guess is ambiguous)",
               "a volume request matches every stored volume name ending in the given text"]


@st.composite
def case(draw):
    names = set()
    n = draw(st.sampled_from([1, 1, 2, 3]))
    sets = []
    bases = draw(st.lists(st.sampled_from(["rls", "rls2", "rls.cd1", "rls.cd2", "other", "RLSX"]),
                          min_size=n, max_size=n, unique=True))
    for b in bases:
        s = draw(gen.rarset(base=b, names=names, max_vols=7, max_files=3,
                            rich=draw(st.booleans()), hi=2500,
                            namings=["old", "old", "part1", "part2", "single", "num"]))
        s["dir"] = draw(st.sampled_from(["", "", "CD1", "CD2", "x/y"]))
        if sets and draw(st.integers(0, 2)) == 0:      # two sets with the same file in them
            i = draw(st.integers(0, 2))
            s["files"] = [dict(f) for f in sets[-1]["files"]] if i == 0 else [dict(sets[-1]["files"][0])] + s["files"] if i == 1 else s["files"] + [dict(sets[-1]["files"][-1])]
            if s["naming"] == "single" or not any(f["c"]["n"] for f in s["files"]):
                s["caps"], s["naming"] = [1 << 40], "single"
        sets.append(s)
    if draw(st.integers(0, 5)) == 0:        # much to skip before the requested volume
        s = sets[draw(st.integers(0, len(sets) - 1))]
        f = s["files"][0]
        if not f.get("dir") and not any(g is not f and g["name"] == f["name"] for t in sets for g in t["files"]):
            add = draw(st.sampled_from([0x10000, 0x10001, 70000, 200000, 330000]))
            f["c"] = dict(f["c"], n=f["c"]["n"] + add)
            s["caps"] = [x + draw(st.sampled_from([add // 4 + 1, add // 2, add])) for x in s["caps"]]
    for s in sets:
        total = sum(f["c"]["n"] for f in s["files"])
        s["caps"] = [max(x, -(-total // 8)) for x in s["caps"]]
    return {"sets": sets, "paths": draw(st.booleans()),
            "out_paths": draw(st.integers(0, 3)) > 0,
            "want": draw(st.sampled_from(["all", "one", "one", "ext", "prefix", "prefix"])),
            "pick": draw(st.integers(0, 999)),
            "cut": draw(st.integers(0, 30)),
            "files": draw(st.lists(st.sampled_from(["ok", "ok", "hint", "auto", "autodir"]), min_size=1, max_size=4)),
            "exist": draw(st.sampled_from(["no", "no", "no", "keep", "over"])),
            "epick": draw(st.integers(0, 99)), "cli": draw(st.integers(0, 3)) == 0, "nfo": draw(st.booleans()), "skip": draw(st.booleans())}


def run(c, ctx):
    d = ctx.dir()
    rel, inp, out = (os.path.join(d, x) for x in ("rel", "in", "out"))
    os.makedirs(inp), os.makedirs(out)
    vols_all, infiles, allfiles, order = [], [], {}, []
    seen = set()
    for s in c["sets"]:
        sub = os.path.join(rel, s["dir"])
        vols, files, paths = S.write_set(s, sub)
        pre = s["dir"] + "/" if c["paths"] and s["dir"] else ""
        for v in vols:
            key = (pre + v.name)
            if key.lower() in seen or v.name.lower() in seen:
                raise Reject()
            seen.update((key.lower(), v.name.lower()))
            vols_all.append((pre + v.name, bytes(v.raw)))
        infiles.append(paths[0])
        allfiles.update(files)
        order += [f for f in s["files"] if not f.get("dir")]
    srr = os.path.join(d, "x.srr")
    ev = S.events()
    cli = c.get("cli")
    nfo = [core.write(os.path.join(rel, "the.nfo"), b"some text")] if cli and c["nfo"] else []
    check(S.create(srr, infiles, in_folder=rel, store_files=nfo, save_paths=c["paths"]) is True, "creation failed")
    shutil.rmtree(rel)
    # place the packed files
    sizes = {}
    for n, b in allfiles.items():
        sizes.setdefault((os.path.splitext(n)[1].lower(), len(b)), []).append(n)
    hints, auto = {}, False
    for i, f in enumerate(order):
        n = f["name"].replace("\\", "/")
        b = allfiles[n]
        mode = c["files"][i % len(c["files"])]
        ext = os.path.splitext(n)[1]
        if mode.startswith("auto") and len(sizes[(ext.lower(), len(b))]) > 1:
            mode = "ok"
        if mode == "auto" and any(ch in ext for ch in "[]*?"):
            mode = "ok"
        if mode == "hint":
            new = "renamed%d.hnt" % i
            if i % 2:
                new = "moved/" + new
            if cli and set(f["name"] + new) & set(":;"):
                raise Reject()
            hints[f["name"]] = new
            core.write(os.path.join(inp, new), b)
        elif mode == "auto":
            auto = True
            core.write(os.path.join(inp, "zz%d%s" % (i, ext)), b)
        elif mode == "autodir":
            auto = True
            core.write(os.path.join(inp, "deep/er%d/zz%d%s" % (i, i, ext)), b)
        else:
            core.write(os.path.join(inp, n), b)
        ctx.label("file-" + mode)
        ctx.nontrivial(mode != "ok")
    names = [n for n, _ in vols_all]
    if c["want"] == "all":
        part, sel = "", names
    elif c["want"] == "one":
        part = names[c["pick"] % len(names)]
        sel = [n for n in names if n.endswith(part)]
    elif c["want"] == "ext":
        nm = names[c["pick"] % len(names)]
        part = nm[nm.rfind("."):]
        sel = [n for n in names if n.endswith(part)]
    else:
        nm = names[c["pick"] % len(names)]
        part = nm[:1 + c["cut"] % len(nm)]
        sel = [n for n in names if n.startswith(part)]
        part += "*"
    ctx.label("want-" + c["want"])
    ctx.nontrivial(len(sel) < len(names))
    want = {}
    for n, b in vols_all:
        if n in sel:
            o = n if c["out_paths"] else os.path.basename(n)
            want[o] = b
    if len(want) != len(sel):
        raise Reject()
    old = M.can_overwrite
    blocked = None
    if c["exist"] != "no" and sel:
        t = sel[c["epick"] % len(sel)]
        t = t if c["out_paths"] else os.path.basename(t)
        core.write(os.path.join(out, t), b"already here")
        if c["exist"] == "over":
            M.can_overwrite = lambda p: True
        else:
            blocked = t
        ctx.nontrivial()
        ctx.label("exists-" + c["exist"])
    ev.clear()
    if cli:
        if nfo and not part:        # stored files are only written when everything is asked for
            want["the.nfo"] = b"some text"
        argv = [srr, "-i", inp, "-o", out, "-n" if blocked is not None else "-y"] + (["-p"] if c["out_paths"] else []) + (["-r"] if auto else []) + (["-u"] if c["skip"] else [])
        argv += (["-m", part] if part else []) + (["-H", ";".join("%s:%s" % h for h in hints.items())] if hints else [])
        M.can_overwrite = old
        r = core.cli(CLI.main, argv, cwd=d)
        check(not r.exc and r.rc in (0, 1), "rebuilding through the command line: %r", r)
        got = core.tree(out)
        if blocked is None:
            check(r.rc == 0, "rebuilding through the command line: %r", r)
            S.same_tree(got, want, "rebuild of %r through the command line" % (part or "everything"))
            check("mismatch" not in (r.out + r.err).lower(), "CRC problem reported for correct input: %r", r)
        else:
            check(got.get(blocked) == b"already here", "existing %s was replaced without consent", blocked)
            check("already exists" in r.out + r.err, "the refusal was not reported: %r", r)
        ctx.label("cli")
        return
    # a release that only asks for several volumes that are not in sequence
    # (same extension in different sets) is still a plain selection
    try:
        r = S.reconstruct(srr, inp, out, extract_paths=c["out_paths"], hints=hints,
                          auto_locate_renamed=auto, srr_part=part)
    finally:
        M.can_overwrite = old
    got = core.tree(out)
    if blocked is not None:
        check(r == -1, "existing archive without consent: returned %r", r)
        check(got.get(blocked) == b"already here", "existing %s was replaced without consent", blocked)
        for n, b in got.items():
            check(n in want, "unexpected output %s", n)
        return
    check(r is None, "reconstruct returned %r", r)
    S.same_tree(got, want, "rebuild of %r" % (part or "everything"))
    check(not ev.has(M.MsgCode.CRC), "CRC problem reported for correct input (%s)", c["want"])


def fixed_one():
    return []


LEGS = [Leg("select", case, run, quick=2600, thorough=40000, shards=8)]
