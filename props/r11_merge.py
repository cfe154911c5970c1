"""R11: merging SRRs keeps every stored file and every volume."""
import os, sys
from hypothesis import strategies as st
from vh import core, content, gen, rarw, srr as S
from vh.core import Leg, check, Reject
from rescene import main as M

RULE = ("A case is a list of 1-5 SRR files (stored files only, RAR volumes only, mixed, ISDb hashes, with stored files after the volumes; created by the tool or written as other tools do), "
        "merged through the API (list, generator, with or without a new application name, also onto one of the inputs) or the command line tool; the result is parsed independently and compared with the inputs in order, then every volume is rebuilt. "
        "Non-trivial: two or more inputs that all contribute.")
ASSUMPTIONS = ["stored files of the same name in several inputs are all kept (nothing is dropped), in input order",
               "volumes that follow each other have different names (a repeated name continues the same output file)"]


@st.composite
def case(draw):
    srrs, names = [], set()
    for i in range(draw(st.integers(1, 5))):
        kind = draw(st.sampled_from(["stored", "rar", "mixed", "mixed", "created", "empty"]))
        x = {"kind": kind, "app": draw(st.one_of(st.none(), gen.app_name())), "late": draw(st.integers(0, 3)) == 0, "oso": draw(st.booleans())}
        x["stored"] = [] if kind in ("rar", "empty") else draw(st.lists(st.tuples(gen.STORED_NAME, gen.content(0, 2000, big=[66000])), min_size=1, max_size=3, unique_by=lambda t: t[0].lower()))
        if kind in ("rar", "mixed", "created"):
            x["set"] = draw(gen.rarset(base="grp%d" % i, names=names, max_vols=5, max_files=2, hi=900))
        srrs.append(x)
    return {"srrs": srrs, "name": draw(st.one_of(st.none(), st.none(), st.just(""), st.just("merged by me"))), "how": draw(st.sampled_from(["list", "tuple", "gen", "cli", "onto", "again"])), "i": draw(st.integers(0, 9))}


def run(c, ctx):
    d = ctx.dir()
    inp, paths, views = os.path.join(d, "in"), [], []
    os.makedirs(inp)
    want = {}
    for i, x in enumerate(c["srrs"]):
        p = os.path.join(d, "%d" % i, "s%d.srr" % i)
        stored = [(n, content.data(k)) for n, k in x["stored"]]
        vols = []
        if x.get("set"):
            vols, files = rarw.build(x["set"])
            S.write_files(files, inp)
            for v in vols:
                want[v.name] = bytes(v.raw)
        if x["kind"] == "created":
            rel = os.path.join(d, "rel%d" % i)
            S.write_set(x["set"], rel)
            for n, b in stored:
                try:
                    core.write(os.path.join(rel, "f", n), b)
                except OSError:
                    raise Reject()
            os.makedirs(os.path.dirname(p))
            check(S.create(p, [os.path.join(rel, vols[0].name)], in_folder=rel, store_files=[os.path.join(rel, "f", n) for n, _ in stored], save_paths=True) is True, "creation failed")
        else:
            sb = b"".join(rarw.srr_stored(n, b) for n, b in stored)
            rb = b"".join(rarw.srr_rar(v.name) + bytes(v.meta) for v in vols)
            ob = rarw.srr_oso("m%d.avi" % i, 70000 + i, "%016x" % (i + 1)) if x["oso"] else b""
            head = rarw.srr_header(x["app"])
            b = head + (rb + ob + sb if x["late"] else sb + rb + ob)
            if len(b) < 20:      # smaller files are refused by the reader
                b += rarw.srr_stored("filler.txt", b"")
            core.write(p, b)
        paths.append(p)
        views.append(rarw.srr_view(core.read(p)))
    before = [core.read(p) for p in paths]
    out = os.path.join(d, "out.srr")
    app = c["name"]
    with core.quiet():
        if c["how"] == "cli":
            app = None
            from vh.srr import bin_tool
            r = core.cli(lambda a: bin_tool("srr_merge", a), paths + ["-o", out], cwd=d)
            check(r.rc == 0 and not r.exc, "srr_merge failed: %r", r)
        elif c["how"] == "onto":
            out = paths[c["i"] % len(paths)]
            M.merge_srrs(paths, out, app)
        elif c["how"] == "gen":
            M.merge_srrs((p for p in paths), out, app)
        elif c["how"] == "again":
            M.merge_srrs(paths[:1], os.path.join(d, "part.srr"), app)
            M.merge_srrs([os.path.join(d, "part.srr")] + paths[1:], out, app)
        else:
            M.merge_srrs(paths if c["how"] == "list" else tuple(paths), out, application_name=app)
    for p, b in zip(paths, before):
        if p != out:
            check(core.read(p) == b, "an input changed: %s", os.path.basename(p))
    raw = core.read(out)
    try:
        v = rarw.srr_view(raw)
    except Exception as e:
        check(False, "the merged SRR is not well-formed: %s", e)
    check(v["order"][0] == "h" and v["order"].count("h") == 1, "header blocks: %r", v["order"])
    names = [w["app"] for w in views if w["app"]]
    check((v["app"] or "") == (app or (names[0] if names else "")), "application name %r, expected %r", v["app"], app or names)
    es = [s for w in views for s in w["stored"]]
    check([n for n, _ in v["stored"]] == [n for n, _ in es], "stored files %r, expected %r", [n for n, _ in v["stored"]], [n for n, _ in es])
    for (n, b), (_n, e) in zip(v["stored"], es):
        check(b == e, "bytes of stored file %r differ: %s", n, core.first_diff(b, e))
    er = [r for w in views for r in w["rars"]]
    check([r[0] for r in v["rars"]] == [r[0] for r in er], "volumes %r, expected %r", [r[0] for r in v["rars"]], [r[0] for r in er])
    for g, e in zip(v["rars"], er):
        check(g == e, "volume %s differs: %s, flags %x and %x", g[0], core.first_diff(g[1], e[1]), g[2], e[2])
    check(v["oso"] == [o for w in views for o in w["oso"]], "hash blocks %r", v["oso"])
    o2 = os.path.join(d, "rebuilt")
    os.makedirs(o2)
    ev = S.events()
    S.reconstruct(out, inp, o2, extract_files=False)
    check(not ev.has(M.MsgCode.CRC), "CRC problem reported while rebuilding from the merged SRR")
    S.same_tree(core.tree(o2), want, "rebuild from the merged SRR")
    ctx.nontrivial(len(views) > 1 and all(w["stored"] or w["rars"] for w in views))
    ctx.label(c["how"])


LEGS = [Leg("merge", case, run, quick=1200, thorough=40000, shards=6)]
