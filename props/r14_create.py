"""R14: refused or failed SRR creation leaves existing files intact."""
import errno, os, resource, signal, sys
from hypothesis import strategies as st
from vh import core, content, gen, rarw, srr as S
from vh.core import Leg, check
from rescene import main as M
from rescene import srr as CLI

RULE = ("refuse: a release that is unsuitable in one way (compressed, not the first volume, a volume, SFV or SFV content missing, a truncated, empty, garbage or RAR5 volume) or suitable, created through the API (with or without temporary name), the command line or as single volume, "
        "with or without an SRR already at the target, with the user agreeing, refusing or the default answer. faults: creation over an existing SRR on the command line with process death or an I/O error at the k-th file-system call, or a write size limit. "
        "Non-trivial: an SRR existed and the input is unsuitable or the user refuses; the fault really hit.")
ASSUMPTIONS = ["an API call without temporary name for which the user agreed to overwrite may remove the old SRR when it fails (documented); it never leaves a partial one",
               "a missing volume is only known when an SFV names it", "a volume truncated inside stored data may be accepted (the volume CRC is not checked at creation) but then gives a well-formed SRR"]
KINDS = ["good", "good", "good", "good", "good", "compressed", "notfirst", "missvol", "misssfv", "emptysfv", "badsfv", "cutheader", "cut", "zero", "garbage", "rar5", "badsize", "nofile", "missstore"]
OLD = rarw.srr_header("old") + rarw.srr_stored("old.nfo", b"precious")


@st.composite
def case(draw):
    return {"set": draw(gen.rarset(base="grp", max_vols=5, max_files=2, hi=900, namings=["old", "old", "part2", "single"])), "kind": draw(st.sampled_from(KINDS)), "x": draw(st.integers(0, 9999)),
            "via": draw(st.sampled_from(["api", "apitmp", "cli", "cli", "single", "singletmp"])), "sfv": draw(st.booleans()), "exists": draw(st.integers(0, 3)) > 0,
            "consent": draw(st.sampled_from(["yes", "no", "ask", "ask"])), "allow": draw(st.booleans()), "oname": draw(st.sampled_from(["x.srr", "X.SRR", "grp.srr", "", ""])),
            "base": draw(st.sampled_from(["", "", "d", "d/", "d.", "cwd"])), "answer": draw(st.sampled_from(["n\n", "N\n", "what\nN\n", "\nn\n", "y\n", "Y\n", "yes\nY\n", "\n\ny\n"]))}


def release(c, d):
    """Writes the release; returns (infiles, certain failure?, volumes)."""
    rel = os.path.join(d, "rel")
    kind = c["kind"]
    s = c["set"]
    vols, files = rarw.build(s)
    if kind == "compressed":
        i = c["x"] % len(s["files"])
        s = dict(s, files=[dict(f, method=0x33) if k == i else f for k, f in enumerate(s["files"])])
        vols, files = rarw.build(s)
    names = [v.name for v in vols]
    raw = [bytes(v.raw) for v in vols]
    i = c["x"] % len(vols)
    sure = False
    if kind == "cutheader":
        raw[i], sure = raw[i][:7 + c["x"] % 13], True
    elif kind == "cut":
        raw[i] = raw[i][:20 + c["x"] % max(1, len(raw[i]) - 20)]
    elif kind == "zero":
        raw[i], sure = b"", True
    elif kind == "garbage":
        raw[i], sure = b"garbage " * 40, True
    elif kind == "rar5":
        raw[i], sure = b"Rar!\x1a\x07\x01\x00" + raw[i], True
    elif kind == "badsize":      # the archive header block claims no size at all
        raw[i], sure = raw[i][:12] + b"\0\0" + raw[i][14:], True
    for n, b in zip(names, raw):
        core.write(os.path.join(rel, n), b)
    if kind == "missvol" and c["sfv"]:
        os.unlink(os.path.join(rel, names[i]))
        sure = True
    if kind == "nofile":
        os.unlink(os.path.join(rel, names[0]))
        sure = True
    sfv = S.sfv_text([(n, b"") for n in names])
    if kind == "emptysfv":
        sfv, sure = [b"", b"\r\n\r\n", b"; comment only\r\n"][c["x"] % 3], c["sfv"]
    if kind == "badsfv":
        sfv, sure = b"no checksum here\r\ngrp.rar xyz\r\n", c["sfv"]
    p = os.path.join(rel, "grp.sfv")
    if kind != "misssfv":
        core.write(p, sfv)
    elif c["sfv"]:
        sure = True
    first = os.path.join(rel, names[0])
    if kind == "notfirst" and len(vols) > 1:
        first, sure = os.path.join(rel, names[1 + c["x"] % (len(vols) - 1)]), not c["sfv"] and s["naming"] != "x"
    if kind == "compressed":
        sure = not c["allow"]
    return [p if c["sfv"] else first], sure, vols, first, raw


def run(c, ctx):
    d = ctx.dir()
    infiles, sure, vols, first, raw = release(c, d)
    single = c["via"].startswith("single")
    if single:
        kind = c["kind"]
        hit = kind in ("zero", "garbage", "rar5", "cutheader", "badsize") and (c["x"] % len(vols)) == [v.name for v in vols].index(os.path.basename(first))
        sure = hit or not os.path.exists(first)
        infiles = [first]
    box = os.path.join(d, "box")
    os.makedirs(box)
    base = c.get("base", "") if c["via"] == "cli" and not c["oname"] else ""
    srr = os.path.join(box, c["oname"] or ("rel" if base.startswith("d") else os.path.basename(infiles[0])[:-4]) + ".srr")
    if c["exists"]:
        core.write(srr, OLD)
    core.write(os.path.join(box, "other.txt"), b"untouched")
    rel = os.path.join(d, "rel")
    store = [os.path.join(rel, "grp.sfv")] if c["x"] % 2 and not c["sfv"] else []
    if c["kind"] == "missstore":
        store.append(os.path.join(rel, "nothing.nfo"))
    given = list(store)
    before, relbefore = core.tree(box), core.tree(rel)
    ok, why = False, ""
    allow = c["allow"]
    if c["via"] == "cli":
        argv = infiles + (["-o", srr] if c["oname"] else [] if base == "cwd" else ["-o", box]) + [a for p in store for a in ("-s", p)] + {"yes": ["-y"], "no": ["-n"], "ask": []}[c["consent"]] + (["-c"] if allow else [])
        argv += {"": [], "d": ["-d", "-i", rel], "d/": ["-i", rel + "/", "-d"], "d.": ["-d"], "cwd": []}[base]
        r = core.cli(CLI.main, argv, cwd={"d.": rel, "cwd": box}.get(base, d), stdin=c.get("answer", "n\n").encode())
        consent = c["consent"] == "yes" or c["consent"] == "ask" and "y" in c.get("answer", "n").split("\n")[-2].lower()
        check(not r.killed and not r.exc, "creation crashed: %r", r)
        ok = r.rc == 0 and "successfully created" in r.out
        why = repr(r)
        if not ok:
            refused = "not overwritten" in r.out and c["exists"] and not consent
            check(refused or (r.rc != 0 and (r.err.strip() or "not found" in r.out)), "neither success nor an error is reported: %r", r)
            check(r.rc != 99, "unexpected error: %r", r)
            sure = sure or refused
    else:
        consent = c["consent"] != "no"
        tmp = os.path.join(box, "tmpfile") if c["via"].endswith("tmp") else None
        keep = M.can_overwrite
        if consent:
            M.can_overwrite = lambda p: True
        S.events()
        try:
            with core.quiet():
                if single:
                    ok = M.create_srr_single_volume(srr, infiles[0], tmp_srr_name=tmp)
                else:
                    ok = M.create_srr(srr, infiles if c["x"] % 3 else infiles[0], in_folder=rel, store_files=store, compressed=allow, tmp_srr_name=tmp)
            why = "returned %r" % ok
            if not ok:
                check(ok is False and c["exists"] and not consent, "creation returned %r", ok)
                sure = True
            elif tmp:
                check(os.path.isfile(tmp), "the SRR was not written to the temporary name")
                os.replace(tmp, srr)
        except (ValueError, EnvironmentError, M.FileNotFound) as e:
            why = repr(e)
            check(c["kind"] != "good", "creation failed: %r", e)
        finally:
            M.can_overwrite = keep
        check(store == given, "the caller's list of files to store changed: %r", store)
    if c["exists"] and not consent:
        check(not ok, "the SRR was overwritten without consent: %s", why)
    elif c["kind"] in ("good", "missstore"):
        check(ok or c["kind"] != "good", "creation failed: %s", why)
    if sure:
        check(not ok, "unsuitable input (%s) was accepted: %s", c["kind"], why)
    after = core.tree(box)
    name = os.path.relpath(srr, box)
    if ok:
        check(name in after, "%s was not created, the target folder has %r", name, sorted(after))
        try:
            v = rarw.srr_view(after.get(name, b""))
        except ValueError as e:
            raise core.Violation("the new SRR is not well-formed: %s" % e)
        after.pop(name)
        before.pop(name, None)
        if c["kind"] == "good":
            exp = [(x.name, bytes(x.meta)) for x in vols]
            if single:
                exp = [(n, m) for n, m in exp if n == os.path.basename(first)]
            check([r[:2] for r in v["rars"]] == exp, "volumes of the new SRR: %r, expected %r", [r[0] for r in v["rars"]], [n for n, _ in exp])
    elif c["exists"] and consent and c["via"] in ("api", "single"):
        check(after.get(name, OLD) == OLD, "a partial SRR was left: %r", after.get(name, b"")[:80])
        after.pop(name, None)
        before.pop(name)
    S.same_tree(after, before, "target folder after %s (%s)" % ("creation" if ok else "failed creation", why[:200]))
    S.same_tree(core.tree(rel), relbefore, "release folder")
    ctx.nontrivial(c["exists"] and not ok)
    ctx.label(c["kind"] + (":ok" if ok else ""))


@st.composite
def fault_case(draw):
    return {"set": draw(gen.rarset(base="grp", max_vols=3, max_files=2, hi=300, namings=["old", "part2", "single"], rr=False)), "sfv": draw(st.booleans()), "exists": draw(st.integers(0, 3)) > 0,
            "nfo": draw(gen.content(0, 3000, big=[0x10000, 200000])), "via": draw(st.sampled_from(["cli", "cli", "apitmp"])),
            "fault": draw(st.sampled_from(["die", "die", "enospc", "eacces", "int", "mem", "limit-die", "limit-err", "limit-err"])), "k": draw(st.integers(0, 60)), "at": draw(st.integers(0, 1000))}


EVENTS = {"open", "os.rename", "os.remove", "os.mkdir", "os.truncate", "os.chmod", "os.link", "shutil.move", "shutil.copyfile", "os.rmdir", "os.listdir", "os.scandir"}


def fault_run(c, ctx):
    d = ctx.dir()
    rel = os.path.join(d, "rel")
    vols, _f, paths = S.write_set(c["set"], rel)
    core.write(os.path.join(rel, "rls.nfo"), content.data(c["nfo"]))
    infile = paths[0]
    if c["sfv"]:
        infile = core.write(os.path.join(rel, "grp.sfv"), S.sfv_text([(v.name, bytes(v.raw)) for v in vols]))
    cnt = os.path.join(d, "cnt")

    def create(box):
        srr = os.path.join(box, "x.srr")
        if c["via"] == "cli":
            sys.argv = ["srr"]
            CLI.o.events = []
            CLI.main([infile, "-y", "-o", srr, "-i", rel, "-s", os.path.join(rel, "rls.nfo")])
        else:
            M.can_overwrite = lambda p: True
            tmp = os.path.join(box, "x.srr-abc.tmp")
            M.create_srr(srr, [infile], rel, [os.path.join(rel, "rls.nfo")], tmp_srr_name=tmp)
            from rescene.utility import replace_result
            try:
                replace_result(tmp, srr)
            except BaseException:       # the temporary file is ours from here on
                if os.path.exists(tmp):
                    os.unlink(tmp)
                raise

    def drive(box, k, act):
        n = [0]

        def hook(ev, args):
            if ev not in EVENTS or n[0] < 0:
                return
            if not any(isinstance(a, str) and (a.startswith(box) or a.startswith(rel)) for a in args):
                return
            n[0] += 1
            if n[0] - 1 == k:
                n[0] = -1 << 40
                with open(cnt + ".hit", "wb"):
                    pass
                act()
        sys.addaudithook(hook)
        try:
            with core.quiet():
                create(box)
        finally:
            if k < 0:
                m = n[0]
                n[0] = -1 << 40
                with open(cnt, "w") as f:
                    f.write(str(m))
        return 0

    dry, box = os.path.join(d, "dry"), os.path.join(d, "box")
    for p in (dry, box):
        os.makedirs(p)
        if c["exists"]:
            core.write(os.path.join(p, "x.srr"), OLD)
    relbefore = core.tree(rel)
    r = core.fork_run(lambda: drive(dry, -1, None), cwd=d)
    check(r.rc == 0, "creation failed without a fault: %r", r)
    new = core.read(os.path.join(dry, "x.srr"))
    total = int(core.read(cnt))
    fault, hit = c["fault"], True
    if fault.startswith("limit"):
        lim = c["at"] * (len(new) + 20) // 1000
        hit = lim < len(new)

        def before():
            if fault == "limit-die":
                signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_FSIZE, (lim, lim))

        def go():
            with core.quiet():
                create(box)
            return 0
        r = core.fork_run(go, cwd=d, before=before)
        died = fault == "limit-die"
        if not hit:
            check(r.rc == 0, "creation failed although every write was possible: %r", r)
    else:
        def act():
            if fault == "die":
                os._exit(77)
            if fault == "enospc":
                raise OSError(errno.ENOSPC, "No space left on device (injected)")
            if fault == "eacces":
                raise PermissionError(errno.EACCES, "Permission denied (injected)")
            if fault == "int":
                raise KeyboardInterrupt()
            raise MemoryError("injected")
        r = core.fork_run(lambda: drive(box, c["k"] % total, act), cwd=d)
        hit = os.path.exists(cnt + ".hit")
        died = fault == "die"
    ctx.nontrivial(hit)
    ctx.label(c["via"] + ":" + fault)
    check(not r.killed, "creation hangs after the fault")
    p = os.path.join(box, "x.srr")
    got = core.read(p) if os.path.isfile(p) else None
    old = OLD if c["exists"] else None
    state = "old" if got == old else "new" if got == new else "broken"
    check(state != "broken", "the SRR is neither the old nor the new one after %s (%r bytes, old %r, new %d, status %r)", fault, got if got is None else len(got), old and len(old), len(new), r.rc)
    S.same_tree(core.tree(rel), relbefore, "release folder")
    if died and hit:
        return
    left = sorted(set(os.listdir(box)) - {"x.srr"})
    check(left == [], "creation with %s (status %r) left %r", fault, r.rc, left)
    if r.rc == 0:
        check(state == "new" or not hit, "success reported after %s, but there is no new SRR", fault)


LEGS = [Leg("refuse", case, run, quick=1800, thorough=30000, shards=4),
        Leg("faults", fault_case, fault_run, quick=1200, thorough=20000, shards=6)]
