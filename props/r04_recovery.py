"""R04: recovery records are dropped and regenerated exactly."""
import os, shutil
from hypothesis import strategies as st
from vh import core, gen, rarw, srr as S
from vh.core import Leg, check
from rescene import main as M

RULE = ("A case is a generated volume set whose volumes all carry a recovery record (old protect block or new-style "
        "sub block; 1..120 recovery sectors; protected sizes below, at and above multiples of 512). The oracle is an "
        "independent sector/parity model. Non-trivial: the recovery data has at least two sectors or several protected sectors.")
ASSUMPTIONS = ["the recovery record protects every byte of the volume that precedes it, as RAR writes it"]


@st.composite
def case(draw):
    s = draw(gen.rarset(max_vols=5, max_files=3, rich=draw(st.booleans()), rr=False,
                        hi=draw(st.sampled_from([200, 2500, 9000])), big=gen.BIG if draw(st.integers(0, 6)) == 0 else None))
    s["rr"] = {"style": draw(st.sampled_from(["old", "new"])),
               "n": draw(st.one_of(st.integers(1, 10), st.integers(1, 120), st.sampled_from([8, 16, 64]))),
               "os": draw(st.sampled_from([0, 2, 3])), "ver": draw(st.sampled_from([15, 20, 29]))}
    # steer the protected size over the 512 byte boundaries
    if draw(st.booleans()):
        one = dict(s, caps=[1 << 40], rr=None, end=None, pad=None)
        n = len(bytes(rarw.build(one)[0][0].raw))
        fs = [f for f in s["files"] if not f.get("dir")]
        f = fs[draw(st.integers(0, len(fs) - 1))]
        delta = (-n) % 512 + draw(st.integers(-1, 1)) % 512
        f["c"] = dict(f["c"], n=f["c"]["n"] + delta)
        s["caps"] = [x + delta for x in s["caps"]]
    if draw(st.integers(0, 3)) == 0:
        s["postrr"] = draw(st.lists(gen.extra(kinds=("cmt", "av", "acl")), max_size=1))
    return {"set": s, "keep": draw(st.integers(0, 4)) == 0, "gone": draw(st.lists(st.booleans(), max_size=5)), "fl": draw(st.sampled_from([0, 0, 2])), "part": draw(st.integers(-3, 6)),
            "edit": draw(st.sampled_from(["", "", "add", "remove", "rename", "merge"]))}


def run(c, ctx):
    d = ctx.dir()
    rel, inp, out = (os.path.join(d, x) for x in ("rel", "in", "out"))
    for x in (rel, inp, out):
        os.makedirs(x)
    s = c["set"]
    vols, files, paths = S.write_set(s, rel)
    S.write_files(files, inp)
    srr = os.path.join(d, "x.srr")
    if c["keep"]:
        # very old applications kept the recovery data inside the SRR
        b = rarw.srr_header("ReScene .NET Beta")
        b += rarw.srr_stored("a.nfo", b"old nfo")
        for i, v in enumerate(vols):
            if i < len(c["gone"]) and c["gone"][i]:     # a volume of a later application
                b += rarw.srr_rar(v.name, 1 | c["fl"]) + bytes(v.meta)
                ctx.label("mixed")
                continue
            b += rarw.srr_rar(v.name, c.get("fl", 0))      # 2: the name has a path
            for t, h, dat, keep in v.blocks:
                if t == 0x6C and not h:
                    b += rarw.struct.pack("<HBHHI", 0x6C6C, 0x6C, 0x8000, 11, len(dat)) + dat
                else:
                    b += h + (dat if t != 0x74 else b"")
        core.write(srr, b)
        ctx.label("recovery-data-kept")
    else:
        check(S.create(srr, [paths[0]]) is True, "creation failed")
        S.check_meta(core.read(srr), [(v.name, v.meta) for v in vols])
        with core.quiet():
            M.add_stored_files(srr, [core.write(os.path.join(d, "a.nfo"), b"old nfo")])
        inf = M.info(srr)
    core.write(os.path.join(d, "b.nfo"), b"new")
    with core.quiet():
        if c["edit"] == "add":
            M.add_stored_files(srr, [os.path.join(d, "b.nfo")])
        elif c["edit"] == "remove":
            M.remove_stored_files(srr, ["a.nfo"])
        elif c["edit"] == "rename":
            M.rename_stored_file(srr, "a.nfo", "dir/c.nfo")
        elif c["edit"] == "merge":
            M.merge_srrs([srr], os.path.join(d, "m.srr"))
            srr = os.path.join(d, "m.srr")
    shutil.rmtree(rel)
    part = ""
    want = {v.name: bytes(v.raw) for v in vols}
    if c["part"] >= 0:
        part = vols[c["part"] % len(vols)].name
        want = {n: b for n, b in want.items() if n.endswith(part)}
    ev = S.events()
    r = S.reconstruct(srr, inp, out, srr_part=part, extract_files=False)
    check(r is None, "reconstruct returned %r", r)
    check(not ev.has(M.MsgCode.CRC), "CRC problem reported for correct input")
    S.same_tree(core.tree(out), want, "rebuild")
    ctx.nontrivial(s["rr"]["n"] > 1 or any(len(v.raw) > 1024 for v in vols))
    ctx.label("style-" + s["rr"]["style"], "vols-%d" % min(4, len(vols)),
              "part" if part else "all", "edit-" + c["edit"])


LEGS = [Leg("recovery", case, run, quick=1600, thorough=40000, shards=8)]
