"""R10: the content hash depends on RAR metadata and nothing else."""
import hashlib, os, random
from hypothesis import strategies as st
from vh import core, content, gen, rarw, srr as S
from vh.core import Leg, check, Reject
from rescene import main as M

RULE = ("same: a case is 1-3 generated sets (distinct volume names) written as two SRR files that differ in stored files, application name, stored paths, letter case of the volume names, the order of the volumes, "
        "ISDb hashes and the place of stored files, the second edited with the tool's own add/rename/remove/merge; equal hashes are required, equal to the hash of the metadata in name order. "
        "diff: the same with exactly one relevant change (a metadata bit before the last header's end, a block or volume removed, added or renamed to another place in the order); the hashes must differ. "
        "Non-trivial: several volumes (same), always (diff).")
ASSUMPTIONS = ["volume base names are unique without regard to letter case (otherwise see the known finding)",
               "as in rescene.php, what follows the last header of a volume (its data, padding bytes) is not part of the hash"]


@st.composite
def base(draw):
    sets, names = [], set()
    for i in range(draw(st.sampled_from([1, 1, 2, 3]))):
        s = draw(gen.rarset(base=draw(st.sampled_from(["grp", "Movie.CD", "a", "Z x"])) + str(i), names=names, max_vols=7, max_files=draw(st.sampled_from([2, 2, 2, 14])), hi=600))
        s["dir"] = draw(st.sampled_from(["", "CD%d" % i, "Subs/x"]))
        sets.append(s)
    return sets


SIDE = st.fixed_dictionaries({"app": st.one_of(st.none(), gen.app_name()), "paths": st.booleans(), "case": st.sampled_from(["as is", "upper", "lower"]),
                              "shuffle": st.integers(0, 50), "oso": st.booleans(), "late": st.booleans(),
                              "stored": st.lists(st.tuples(gen.STORED_NAME, gen.content(0, 300)), max_size=3, unique_by=lambda t: t[0].lower())})


@st.composite
def same_case(draw):
    return {"sets": draw(base()), "a": draw(SIDE), "b": draw(SIDE), "edit": draw(st.lists(st.sampled_from(["add", "rename", "remove", "merge"]), max_size=3)),
            "algo": draw(st.sampled_from(["sha1", "sha1", "md5", "sha256"]))}


def volumes(c):
    out = []
    for s in c["sets"]:
        vols, _f = rarw.build(s)
        out += [(s["dir"], v.name, [(h, data if keep else b"") for _t, h, data, keep in v.blocks], bytes(v.meta)) for v in vols]
    if len({n.lower() for _d, n, _b, _m in out}) < len(out):
        raise Reject()
    return out


def write(path, vols, side):
    vols = list(vols)
    random.Random(side["shuffle"]).shuffle(vols) if side["shuffle"] else None
    st_ = b"".join(rarw.srr_stored(n, content.data(k)) for n, k in side["stored"])
    b = rarw.srr_header(side["app"]) + (b"" if side["late"] else st_)
    for d, n, _b, m in vols:
        n = n.upper() if side["case"] == "upper" else n.lower() if side["case"] == "lower" else n
        b += rarw.srr_rar((d + "/" if d and side["paths"] else "") + n) + m
    if side["oso"]:
        b += rarw.srr_oso("film.avi", 123456, "00000000%08x" % side["shuffle"])
    core.write(path, b + (st_ if side["late"] else b""))


def model(vols, algo):
    h = hashlib.new(algo)
    for _d, n, blocks, m in sorted(vols, key=lambda v: v[1].lower()):
        h.update(m[:len(m) - len(blocks[-1][1])] if blocks else b"")
    return h.hexdigest()


def hashes(p, algo):
    before = core.read(p)
    with core.quiet():
        h = M.content_hash(p) if algo == "sha1" else M.content_hash(p, algo)
    check(core.read(p) == before, "hashing changed the SRR")
    return h


def same_run(c, ctx):
    d = ctx.dir()
    vols = volumes(c)
    a, b = os.path.join(d, "a.srr"), os.path.join(d, "b.srr")
    write(a, vols, c["a"])
    write(b, vols, c["b"])
    algo = c["algo"]
    ha, hb, want = hashes(a, algo), hashes(b, algo), model(vols, algo)
    check(ha == hb, "hashes differ for the same volumes: %s and %s", ha, hb)
    check(ha == want, "hash %s, the metadata in name order has %s", ha, want)
    for i, e in enumerate(c["edit"]):
        with core.quiet():
            if e == "add":
                core.write(os.path.join(d, "new%d.txt" % i), b"data" * i)
                M.add_stored_files(b, ["new%d.txt" % i], d)
            elif e == "rename":
                names = [n for n, _ in rarw.srr_view(core.read(b))["stored"]]
                if names:
                    M.rename_stored_file(b, names[0], "renamed%d.txt" % i)
            elif e == "remove":
                M.remove_stored_files(b, [n for n, _ in rarw.srr_view(core.read(b))["stored"]][:1])
            else:
                core.write(os.path.join(d, "other.srr"), rarw.srr_header("x") + rarw.srr_stored("o%d.nfo" % i, b"other"))
                M.merge_srrs([os.path.join(d, "other.srr"), b], os.path.join(d, "m%d.srr" % i))
                b = os.path.join(d, "m%d.srr" % i)
        h = hashes(b, algo)
        check(h == want, "hash changed by %s: %s, was %s", e, h, want)
    ctx.nontrivial(len(vols) > 1)


@st.composite
def diff_case(draw):
    return {"sets": draw(base()), "a": draw(SIDE), "b": draw(SIDE), "kind": draw(st.sampled_from(["bit", "bit", "bit", "remove", "add", "drop-block", "swap"])),
            "i": draw(st.integers(0, 99)), "j": draw(st.integers(0, 9999)), "bit": draw(st.integers(0, 7))}


def diff_run(c, ctx):
    d = ctx.dir()
    vols = volumes(c)
    two = [list(v) for v in vols]
    i = c["i"] % len(vols)
    dd, n, blocks, m = vols[i]
    k = c["kind"]
    if k == "bit":
        # a bit of a value: not a size, type, flag or CRC field
        hdrs, pos, cand = list(blocks), 0, []
        for h, data in hdrs:
            if len(h) < 7:
                break
            if h[2] == 0x74 and len(h) >= 32:
                cand += list(range(pos + 15, pos + 24))    # OS, CRC, time
            elif h[2] == 0x73:
                cand += list(range(pos + 7, pos + 13))
            elif h[2] == 0x7B and len(h) > 7:
                cand += list(range(pos + 7, pos + len(h))) * 3
            pos += len(h) + len(data)
        if not cand:
            raise Reject()
        q = cand[c["j"] % len(cand)]
        nm = bytearray(m)
        nm[q] ^= 1 << c["bit"]
        two[i][3] = bytes(nm)
    elif k == "remove":
        if len(vols) < 2 or len(m) == 0:
            raise Reject()
        del two[i]
    elif k == "add":
        two.append(["", "zzz-%s.rar" % c["j"], blocks, m])
    elif k == "drop-block":
        j = c["j"] % len(blocks)
        if len(blocks) < 2 or any(len(h) < 7 for h, _x in blocks) or blocks[j][0][2] == 0x72:
            raise Reject()
        two[i][3] = b"".join(h + x for q, (h, x) in enumerate(blocks) if q != j)
    else:
        if len(vols) < 2:
            raise Reject()
        j = (i + 1 + c["j"] % (len(vols) - 1)) % len(vols)
        if vols[j][3] == m:
            raise Reject()
        two[i][3], two[j][3] = vols[j][3], m
    a, b = os.path.join(d, "a.srr"), os.path.join(d, "b.srr")
    write(a, vols, c["a"])
    write(b, two, c["b"])
    try:
        ha, hb = hashes(a, "sha1"), hashes(b, "sha1")
    except (ValueError, EnvironmentError):
        raise Reject()
    check(ha != hb, "the hash does not notice: %s (volume %s)", k, n)
    ctx.nontrivial(True)
    ctx.label(k)


def known(base):
    for k in core.known_findings("R10"):
        p = os.path.join(base, "dup.srr")

        def mk(x):
            v, _ = rarw.build({"base": "grp", "naming": "single", "caps": [1 << 40], "end": "std", "files": [{"name": "f.avi", "c": {"n": x, "s": 1, "k": "rand"}}]})
            return rarw.srr_rar("CD%d/grp.rar" % x) + bytes(v[0].meta)
        core.write(p, rarw.srr_header("x") + mk(1) + mk(2))
        with core.quiet():
            two = M.content_hash(p)
        core.write(p, rarw.srr_header("x") + mk(2))
        with core.quiet():
            if M.content_hash(p) == two:
                yield k["what"]


LEGS = [Leg("same", same_case, same_run, quick=900, thorough=30000, shards=4),
        Leg("diff", diff_case, diff_run, quick=1200, thorough=40000, shards=4)]
