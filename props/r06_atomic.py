"""R06: a failed or interrupted edit never loses the SRR file."""
import errno, os, resource, shutil, signal, sys
from hypothesis import strategies as st
from vh import core, content, gen, rarw, srr as S
from vh.core import Leg, check
from rescene import main as M
from rescene import srr as CLI

RULE = ("A case is an SRR, one edit (add, remove, rename through the API, or add through the command line) and one fault: process "
        "death or an error (disk full, permission, Ctrl+C, out of memory) at the k-th file-system call of the edit, or a write "
        "size limit that kills the process or fails the write at byte n. The edit runs in a forked child. Non-trivial: the "
        "fault really hit inside the edit.")
ASSUMPTIONS = ["a power loss that reorders completed system calls is outside the model (no fsync is claimed)",
               "the fault hits once; the clean-up code itself runs without a second fault"]
EVENTS = {"open", "os.rename", "os.remove", "os.mkdir", "os.truncate", "os.chmod", "os.link", "shutil.move", "shutil.copyfile", "os.rmdir"}
CONT = gen.content(0, 3000, big=[0x10000, 70000, 200000])
NAMES = ["a.nfo", "Sample/s.srs", "b.sfv", "Proof/p.jpg", "c c.txt", "d\u00fc.txt"]


@st.composite
def case(draw):
    return {"app": draw(st.sampled_from(["pyReScene test", "x" * 30])),
            "start": draw(st.lists(st.tuples(st.sampled_from(NAMES), CONT), min_size=1, max_size=4, unique_by=lambda t: t[0])),
            "set": draw(st.one_of(st.none(), gen.rarset(max_vols=3, max_files=1, hi=200, rich=False))),
            "op": draw(st.sampled_from(["add", "add", "remove", "rename", "cli"])),
            "new": draw(st.lists(st.tuples(st.sampled_from(["n1.nfo", "n2.jpg", "n3.bin"]), CONT), min_size=1, max_size=3, unique_by=lambda t: t[0])),
            "pick": draw(st.integers(0, 5)), "name": draw(st.sampled_from(["r.nfo", "much/longer/path/name.txt", "z"])),
            "fault": draw(st.sampled_from(["die", "die", "enospc", "eacces", "int", "mem", "limit-die", "limit-err", "limit-err"])),
            "k": draw(st.integers(0, 40)), "at": draw(st.integers(0, 1000))}


def run(c, ctx):
    d = ctx.dir()
    box = os.path.join(d, "box")
    srr = os.path.join(box, "x.srr")
    b = rarw.srr_header(c["app"]) + b"".join(rarw.srr_stored(n, content.data(k)) for n, k in c["start"])
    if c["set"]:
        vols, _f = rarw.build(c["set"])
        for v in vols:
            b += rarw.srr_rar(v.name) + bytes(v.meta)
    core.write(srr, b)
    src = os.path.join(d, "src")
    for n, k in c["new"]:
        core.write(os.path.join(src, n), content.data(k))
    target = c["start"][c["pick"] % len(c["start"])][0]
    names = [n for n, _ in c["new"]]

    def edit(path):
        if c["op"] == "add":
            M.add_stored_files(path, list(names), in_folder=src)
        elif c["op"] == "remove":
            M.remove_stored_files(path, [target])
        elif c["op"] == "rename":
            M.rename_stored_file(path, target, c["name"])
        else:
            sys.argv = ["srr"]
            CLI.o.events = []
            CLI.main([path, "-y", "-i", src] + [x for n in names for x in ("-s", n)])

    # what the finished edit looks like, and how many calls it makes
    dry = os.path.join(d, "dry", "x.srr")
    core.write(dry, b)
    cnt = os.path.join(d, "cnt")

    def drive(path, k, act):
        n = [0]
        root = os.path.dirname(path)

        def hook(ev, args):
            if ev not in EVENTS or n[0] < 0:
                return
            if not any(isinstance(a, str) and (a.startswith(root) or a.startswith(src)) for a in args):
                return
            n[0] += 1
            if n[0] - 1 == k:
                n[0] = -1 << 40
                with open(cnt + ".hit", "wb"):
                    pass
                act()
        sys.addaudithook(hook)
        try:
            with core.quiet():
                edit(path)
        finally:
            if k < 0:
                m = n[0]
                n[0] = -1 << 40
                with open(cnt, "w") as f:
                    f.write(str(m))
        return 0

    r = core.fork_run(lambda: drive(dry, -1, None), cwd=d)
    check(r.rc == 0, "edit failed without a fault: %r", r)
    new = core.read(dry)
    total = int(core.read(cnt))
    fault = c["fault"]
    hit = True
    if fault.startswith("limit"):
        # a limit relative to the size of the result
        lim = c["at"] * (len(new) + 20) // 1000
        hit = lim < len(new)

        def before():
            if fault == "limit-die":
                signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_FSIZE, (lim, lim))

        def go():
            with core.quiet():
                edit(srr)
            return 0
        r = core.fork_run(go, cwd=d, before=before)
        died = fault == "limit-die"
        if not hit:
            check(r.rc == 0, "the edit failed although every write was possible: %r", r)
    else:
        k = c["k"] % total

        def act():
            if fault == "die":
                os._exit(77)
            if fault == "enospc":
                raise OSError(errno.ENOSPC, "No space left on device (injected)")
            if fault == "eacces":
                raise PermissionError(errno.EACCES, "Permission denied (injected)")
            if fault == "int":
                raise KeyboardInterrupt()
            raise MemoryError("injected")
        r = core.fork_run(lambda: drive(srr, k, act), cwd=d)
        hit = os.path.exists(cnt + ".hit")
        died = fault == "die"
    ctx.nontrivial(hit)
    ctx.label(c["op"] + ":" + fault)
    check(not r.killed, "edit hangs after the fault")
    check(os.path.isfile(srr), "the SRR is gone after %s during %s (rc %r)", fault, c["op"], r.rc)
    got = core.read(srr)
    state = "old" if got == b else "new" if got == new else "broken"
    check(state != "broken", "SRR is neither the old nor the new version after %s during %s (%d bytes, old %d, new %d)",
          fault, c["op"], len(got), len(b), len(new))
    if died and hit:
        return
    left = sorted(os.listdir(box))
    if r.rc != 0:
        check(state == "old" or c["op"] == "cli", "a failed %s (%s) was reported but changed the SRR: %r", c["op"], fault, r)
        check(left == ["x.srr"], "failed %s left %r", c["op"], left)
    else:
        check(state == "new", "%s reported success after %s but changed nothing", c["op"], fault)
        check(left == ["x.srr"], "%s left %r", c["op"], left)


LEGS = [Leg("faults", case, run, quick=1600, thorough=40000, shards=8)]
