"""Runner: drives Hypothesis-generated cases against /repo, shrinks failures to
a replay file, writes the evidence file, and maps the outcome to exit codes.

exit 0  the property held on everything explored
exit 1  + line "VIOLATION property=<id> replay=<path>"
exit 3  harness error (no VIOLATION line)
"""
import argparse, collections, hashlib, importlib, io, json, os, random
import shutil, signal, sys, tempfile, time, traceback, warnings, contextlib
import multiprocessing, subprocess, pickle

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CASE_TIMEOUT = 90
FAST = bool(os.environ.get("VH_FAST"))     # development aid: no shrinking


class Violation(Exception):
    """The code under test broke the property."""


class HarnessError(Exception):
    """The harness itself failed; never reported as a violation."""


class CaseTimeout(BaseException):
    pass


class Reject(Exception):
    """The generated case is outside the property's domain."""


def _alarm(_sig, _frm):
    raise CaseTimeout("case did not finish within %d s" % CASE_TIMEOUT)


def check(cond, msg="", *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def jdump(x):
    return json.dumps(x, sort_keys=True, ensure_ascii=True)


class Leg:
    """One generated-input search.

    strategy  callable returning a Hypothesis strategy of JSON-able cases
    run       run(case, ctx): raises Violation, calls ctx.nontrivial()/label()
    quick/thorough  number of cases over all shards
    """
    def __init__(self, name, strategy, run, quick=200, thorough=4000, shards=4,
                 shrink_s=25, fixed=()):
        self.name, self.strategy, self.run = name, strategy, run
        self.quick, self.thorough = quick, thorough
        self.shards, self.shrink_s = shards, shrink_s
        self.fixed = list(fixed)      # always executed first (regressions)


class Ctx:
    def __init__(self, base):
        self.base = base
        self.n = 0
        self.labels = collections.Counter()
        self.begin()

    def begin(self):
        self.nt = False
        self.lab = []
        self.notes = []

    def nontrivial(self, cond=True):
        if cond:
            self.nt = True

    def label(self, *names):
        self.lab.extend(names)

    def dir(self, name="w"):
        self.n += 1
        d = os.path.join(self.base, "%s%d" % (name, self.n))
        os.makedirs(d)
        return d


def repo_frames(tb):
    out = []
    for fr in traceback.extract_tb(tb):
        if fr.filename.startswith(REPO + "/"):
            out.append("%s:%d %s" % (fr.filename[len(REPO) + 1:], fr.lineno, fr.name))
    return out


def describe_exc(e):
    fr = repo_frames(e.__traceback__)
    return "%s: %s [%s]" % (type(e).__name__, str(e)[:300],
                            " < ".join(reversed(fr[-4:])))


def run_case(leg, case, base, ctx=None):
    """Run one case. Returns (ok, message, ctx). Raises HarnessError."""
    d = tempfile.mkdtemp(prefix="case_", dir=base)
    if ctx is None:
        ctx = Ctx(d)
    ctx.base = d
    ctx.begin()
    cwd = os.getcwd()
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_TIMEOUT)
    try:
        os.chdir(d)
        try:
            leg.run(case, ctx)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        return True, "", ctx
    except Violation as e:
        return False, (str(e) or "violation")[:1500], ctx
    except Reject:
        ctx.nt = False
        ctx.lab = ["rejected"]
        return True, "", ctx
    except CaseTimeout as e:
        fr = repo_frames(e.__traceback__)
        if fr:
            return False, "hang: %s in %s" % (e, fr[-1]), ctx
        raise HarnessError("timeout outside the code under test: %s" % leg.name)
    except (KeyboardInterrupt, HarnessError):
        raise
    except (Exception, SystemExit) as e:
        if repo_frames(e.__traceback__):
            return False, "unexpected " + describe_exc(e), ctx
        raise HarnessError("harness failure in leg %s: %s\ncase=%s" % (
            leg.name, "".join(traceback.format_exception(e)), jdump(case)[:3000]))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        os.chdir(cwd)
        os.umask(0o022)
        shutil.rmtree(d, ignore_errors=True)


def case_hash(case):
    return hashlib.blake2b(jdump(case).encode(), digest_size=8).hexdigest()


def run_shard(leg, seed, n, base, deadline):
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase
    st = {"evals": 0, "nt": set(), "rejected": 0, "labels": collections.Counter(),
          "samples": [], "fail": None, "skipped": 0}
    box = {"t0": None, "best": None}
    ctx = Ctx(base)

    def one(case):
        if box["t0"] is not None and time.time() - box["t0"] > (0 if FAST else leg.shrink_s):
            return
        if box["t0"] is None and time.time() > deadline:
            st["skipped"] += 1
            return
        ok, msg, c = run_case(leg, case, base, ctx)
        if box["t0"] is None:
            st["evals"] += 1
            if c.nt:
                st["nt"].add(case_hash(case))
                if len(st["samples"]) < 3:
                    st["samples"].append(case)
            if "rejected" in c.lab:
                st["rejected"] += 1
            for l in set(c.lab):
                st["labels"][l] += 1
        if not ok:
            if box["t0"] is None:
                box["t0"] = time.time()
            size = len(jdump(case))
            if box["best"] is None or size <= box["best"][0]:
                box["best"] = (size, case, msg)
            raise Violation(msg)

    for case in leg.fixed:
        try:
            one(case)
        except Violation:
            break
    if box["best"] is None and n > 0 and leg.strategy is not None:
        @hypothesis.seed(seed)
        @settings(max_examples=n, database=None, deadline=None,
                  derandomize=False, report_multiple_bugs=False,
                  print_blob=False, verbosity=hypothesis.Verbosity.quiet,
                  suppress_health_check=list(HealthCheck),
                  phases=(Phase.generate, Phase.target, Phase.shrink))
        @given(leg.strategy())
        def test(case):
            one(case)
        try:
            test()
        except HarnessError:
            raise
        except BaseException as e:  # Violation, Flaky...
            if box["best"] is None:
                if isinstance(e, KeyboardInterrupt):
                    raise
                raise HarnessError("hypothesis: " + "".join(
                    traceback.format_exception(e)))
    if box["best"] is not None:
        st["fail"] = (box["best"][1], box["best"][2])
    return st


def _worker(mod, legi, seed, n, base, deadline, outp):
    devnull = os.open(os.devnull, os.O_RDWR)
    errp = outp + ".err"
    efd = os.open(errp, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    os.dup2(devnull, 0)
    os.dup2(devnull, 1)
    os.dup2(efd, 2)
    sys.stdin = open(0, "r", closefd=False)
    sys.stdout = open(1, "w", errors="replace", closefd=False)
    sys.stderr = open(2, "w", errors="replace", closefd=False)
    warnings.simplefilter("ignore")
    try:
        leg = mod.LEGS[legi]
        res = run_shard(leg, seed, n, base, deadline)
    except BaseException:
        res = {"error": traceback.format_exc()}
    with open(outp + ".tmp", "wb") as f:
        pickle.dump(res, f)
    os.rename(outp + ".tmp", outp)
    sys.stdout.flush()
    coverage()
    os._exit(0)


def coverage():
    if os.environ.get("VH_COV"):
        from vh import cov
        cov.dump()


def derive(seed, *parts):
    h = hashlib.blake2b(repr((seed,) + parts).encode(), digest_size=8).digest()
    return int.from_bytes(h, "big")


def load(pid):
    for m in sorted(os.listdir(os.path.join(VERIF, "props"))):
        if m.startswith(pid.lower() + "_") and m.endswith(".py"):
            return importlib.import_module("props." + m[:-3])
    raise SystemExit("no such property: %s" % pid)


def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.json")
    try:
        with open(p) as f:
            data = json.load(f)
    except FileNotFoundError:
        return []
    return [k for k in data.get("findings", []) if k["property"] == pid]


def scratch_root():
    for d in (os.environ.get("VERIF_SCRATCH"), "/dev/shm", "/tmp"):
        if d and os.path.isdir(d) and os.access(d, os.W_OK):
            try:
                if shutil.disk_usage(d).free > 1 << 30:
                    return d
            except OSError:
                pass
    return tempfile.gettempdir()


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick",
                    choices=("quick", "thorough"))
    ap.add_argument("--replay")
    ap.add_argument("--leg", help="only this leg")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--max-s", type=float, default=None)
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args(argv)
    seed = int(os.environ.get("VERIF_SEED") or 1)
    pid = a.property
    sys.path.insert(0, VERIF)
    t0 = time.time()
    if os.environ.get("VH_COV"):
        from vh import cov
        cov.start(REPO)
    mod = load(pid)
    base = tempfile.mkdtemp(prefix="vh_%s_" % pid, dir=scratch_root())
    os.environ["TMPDIR"] = base
    tempfile.tempdir = base
    try:
        if a.replay:
            return replay(mod, pid, a.replay, base)
        return drive(mod, pid, a, seed, base, t0)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def replay(mod, pid, path, base):
    with open(path) as f:
        r = json.load(f)
    leg = [l for l in mod.LEGS if l.name == r["leg"]][0]
    ok, msg, _ = run_case(leg, r["case"], base)
    if ok:
        print("replay passes: %s" % path)
        return 0
    print(msg)
    print("VIOLATION property=%s replay=%s" % (pid, path))
    return 1


def drive(mod, pid, a, seed, base, t0):
    if hasattr(mod, "setup"):
        mod.setup()
    budget = a.max_s or (240 if a.tier == "quick" else 780)
    deadline = t0 + budget
    tasks = []
    for i, leg in enumerate(mod.LEGS):
        if a.leg and leg.name != a.leg:
            continue
        n = int((leg.quick if a.tier == "quick" else leg.thorough) * a.scale)
        n = max(n, 1)
        sh = max(1, min(leg.shards if a.tier == "quick" else 8, n))
        for s in range(sh):
            k = n // sh + (1 if s < n % sh else 0)
            tasks.append((i, s, k))
    # interleave the shards of the legs so each makes progress under the cap
    tasks.sort(key=lambda t: (t[1], t[0]))
    running, results, errors = {}, [], []
    queue = list(tasks)
    stop = False
    while queue or running:
        while queue and len(running) < a.jobs and not stop:
            i, s, k = queue.pop(0)
            outp = os.path.join(base, "out_%d_%d" % (i, s))
            wbase = os.path.join(base, "w_%d_%d" % (i, s))
            os.makedirs(wbase)
            sys.stdout.flush()
            pidf = os.fork()
            if pidf == 0:
                try:
                    os.setpgid(0, 0)
                    tempfile.tempdir = wbase
                    os.environ["TMPDIR"] = wbase
                    _worker(mod, i, derive(seed, pid, mod.LEGS[i].name, s), k,
                            wbase, deadline, outp)
                finally:
                    os._exit(4)
            running[pidf] = (i, s, outp, wbase)
        if not running:
            break
        p, status = os.wait()
        if p not in running:
            continue
        i, s, outp, wbase = running.pop(p)
        try:
            os.killpg(p, signal.SIGKILL)
        except OSError:
            pass
        shutil.rmtree(wbase, ignore_errors=True)
        err = ""
        try:
            with open(outp + ".err", errors="replace") as f:
                err = f.read()[-2000:]
            os.remove(outp + ".err")
        except OSError:
            pass
        if not os.path.exists(outp):
            errors.append("worker %s/%d died (status %d) %s" % (
                mod.LEGS[i].name, s, status, err))
            continue
        with open(outp, "rb") as f:
            res = pickle.load(f)
        os.remove(outp)
        if "error" in res:
            errors.append(res["error"])
            continue
        results.append((i, s, res))
        if res["fail"]:
            stop = True      # let the running shards finish, start no more
            queue = []
    legs = {}
    fails = []
    total = 0
    nts = set()
    samples = []
    for i, s, r in results:
        leg = mod.LEGS[i]
        d = legs.setdefault(leg.name, {"evaluations": 0, "nontrivial": 0,
                                       "rejected": 0, "not_run_time_cap": 0,
                                       "classes": collections.Counter()})
        d["evaluations"] += r["evals"]
        d["nontrivial"] += len(r["nt"])
        d["rejected"] += r["rejected"]
        d["not_run_time_cap"] += r["skipped"]
        d["classes"].update(r["labels"])
        total += r["evals"]
        nts.update((leg.name, h) for h in r["nt"])
        if s == 0:
            samples += [{"leg": leg.name, "case": c} for c in r["samples"][:1]]
        if r["fail"]:
            fails.append((leg, r["fail"]))
    for d in legs.values():
        d["classes"] = dict(d["classes"].most_common(40))
    rc = 0
    known_lines = []
    if hasattr(mod, "known"):
        for line in mod.known(base):
            known_lines.append(line)
    for line in known_lines:
        print("KNOWN-FINDING: property=%s %s" % (pid, line))
    if fails:
        leg, (case, msg) = min(fails, key=lambda f: len(jdump(f[1][0])))
        rd = os.path.join(VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, "%s_%s_%s.json" % (pid, leg.name, case_hash(case)))
        with open(path, "w") as f:
            json.dump({"property": pid, "leg": leg.name, "seed": seed,
                       "message": msg, "case": case}, f, indent=1)
        print("leg %s: %s" % (leg.name, msg))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        rc = 1
    elif errors:
        print("HARNESS ERROR (%d)\n%s" % (len(errors), errors[0][-3000:]), file=sys.stderr)
        rc = 3
    if not a.no_evidence:
        ev = {"property": pid, "tier": a.tier, "seed": seed,
              "level": getattr(mod, "LEVEL", "exploration"),
              "coverage": {"evaluations": total,
                           "distinct_nontrivial": len(nts),
                           "rule": mod.RULE,
                           "samples": trim(samples),
                           "legs": legs},
              "assumptions": getattr(mod, "ASSUMPTIONS", []),
              "wall_s": round(time.time() - t0, 2),
              "violations": len(fails)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1fs%s" % (
        pid, a.tier, seed, total, len(nts), time.time() - t0,
        "" if rc == 0 else " rc=%d" % rc))
    return rc


def trim(samples):
    out = []
    for s in samples:
        t = jdump(s)
        out.append(s if len(t) < 6000 else {"leg": s["leg"], "case_truncated": t[:6000]})
    return out


# ------------------------------------------------------------- helpers ----
@contextlib.contextmanager
def quiet():
    o, e = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(o), contextlib.redirect_stderr(e):
        yield o, e


def call_cli(main_func, argv, prog="prog"):
    """Run a command line entry point in-process: (exit code, stdout, stderr).
    SystemExit becomes the exit code; other exceptions propagate."""
    old = sys.argv
    sys.argv = [prog] + list(argv)
    with quiet() as (o, e):
        try:
            rc = main_func(list(argv))
        except SystemExit as ex:
            rc = ex.code
            if isinstance(rc, str):
                e.write(rc)
                rc = 1
        finally:
            sys.argv = old
    if rc is None:
        rc = 0
    return rc, o.getvalue(), e.getvalue()


def tree(root):
    """{relative path: bytes} of all regular files below root, plus dirs."""
    out = {}
    for d, dirs, files in os.walk(root):
        for f in files:
            p = os.path.join(d, f)
            with open(p, "rb") as fh:
                out[os.path.relpath(p, root)] = fh.read()
    return out


def read(p):
    with open(p, "rb") as f:
        return f.read()


def write(p, data):
    d = os.path.dirname(p)
    if d:
        os.makedirs(d, exist_ok=True)
    with open(p, "wb") as f:
        f.write(data)
    return p


def first_diff(a, b):
    n = min(len(a), len(b))
    for i in range(n):
        if a[i] != b[i]:
            return "first difference at %d of %d/%d" % (i, len(a), len(b))
    return "lengths %d/%d" % (len(a), len(b))


class CliResult:
    def __init__(self, rc, out, err, exc, killed):
        self.rc, self.out, self.err, self.exc, self.killed = rc, out, err, exc, killed

    def __repr__(self):
        return "rc=%r exc=%r out=%r err=%r" % (self.rc, self.exc, self.out[-300:], self.err[-600:])


def fork_run(func, cwd=None, before=None, timeout=60, fast_sleep=True, stdin=b""):
    """Run func() in a forked child with captured output.

    rc: exit status a Python interpreter would give (SystemExit semantics);
    exc: "Type: message [repo frames]" when an exception escaped.
    """
    d = tempfile.mkdtemp(prefix="cli_")
    po, pe, px = (os.path.join(d, n) for n in ("o", "e", "x"))
    with open(os.path.join(d, "i"), "wb") as f:
        f.write(stdin)
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        rc = 70
        try:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            for p, fd, fl in ((os.path.join(d, "i"), 0, os.O_RDONLY),
                              (po, 1, os.O_WRONLY | os.O_CREAT), (pe, 2, os.O_WRONLY | os.O_CREAT)):
                q = os.open(p, fl)
                os.dup2(q, fd)
                os.close(q)
            sys.stdin = io.TextIOWrapper(open(0, "rb", closefd=False), "utf-8", errors="replace")
            sys.stdout = io.TextIOWrapper(open(1, "wb", closefd=False), "utf-8", errors="replace")
            sys.stderr = io.TextIOWrapper(open(2, "wb", closefd=False), "utf-8", errors="replace")
            if cwd:
                os.chdir(cwd)
            if fast_sleep:
                real = time.sleep
                time.sleep = lambda s: real(min(s, 0.002))
            if before:
                before()
            try:
                rc = func()
                rc = 0 if rc is None else int(rc)
            except SystemExit as ex:
                c = ex.code
                if c is None:
                    rc = 0
                elif isinstance(c, int):
                    rc = c & 0xFF
                else:
                    sys.stderr.write(str(c))
                    rc = 1
            except BaseException as ex:
                rc = 1
                with open(px, "w", errors="replace") as f:
                    f.write(describe_exc(ex) + ("" if repo_frames(ex.__traceback__) else
                            " HARNESS " + traceback.format_exc()))
        finally:
            for fh in (sys.stderr, sys.stdout):
                try:
                    fh.flush()
                except Exception as ex:
                    os.write(2, ("flush: %r" % ex).encode())
            coverage()
            os._exit(rc & 0xFF)
    t0 = time.time()
    killed = False
    try:
        while True:
            p, status = os.waitpid(pid, os.WNOHANG)
            if p:
                break
            if time.time() - t0 > timeout:
                os.kill(pid, signal.SIGKILL)
                killed = True
                _, status = os.waitpid(pid, 0)
                break
            time.sleep(0.0005 if time.time() - t0 < 0.05 else 0.004)
    except BaseException:
        try:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
        except OSError:
            pass
        raise
    def rd(p):
        try:
            with open(p, errors="replace") as f:
                return f.read()
        except OSError:
            return ""
    res = CliResult(os.waitstatus_to_exitcode(status), rd(po), rd(pe), rd(px), killed)
    shutil.rmtree(d, ignore_errors=True)
    if " HARNESS " in res.exc:
        raise HarnessError(res.exc)
    return res


def cli(main_func, argv, cwd=None, **kw):
    def f():
        sys.argv = ["prog"] + list(argv)
        m = sys.modules.get("rescene.srr")
        if m is not None:      # messages of earlier calls in this process
            m.o.events = []
        return main_func(list(argv))
    r = fork_run(f, cwd=cwd, **kw)
    if r.killed:
        raise Violation("command line %r did not finish" % (argv,))
    return r


# ------------------------------------------------------ containment guard ----
_GUARD = {"installed": False, "root": None, "escapes": []}
_G2 = {"os.rename": (0, 1), "os.link": (1,), "os.symlink": (1,), "os.remove": (0,), "os.mkdir": (0,), "os.rmdir": (0,), "os.truncate": (0,),
       "os.chmod": (0,), "os.chown": (0,), "shutil.rmtree": (0,), "shutil.move": (0, 1), "shutil.copyfile": (1,)}


def _audit(event, args):
    root = _GUARD["root"]
    if root is None:
        return
    if event == "open":
        path, mode, flags = args
        if isinstance(path, int) or path is None:
            return
        wr = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND) if flags is not None else True
        if not wr:
            return
        paths = [path]
    elif event in _G2:
        paths = [args[i] for i in _G2[event]]
    elif event in ("subprocess.Popen", "os.system", "os.exec", "os.posix_spawn"):
        _GUARD["escapes"].append("%s %r" % (event, args[:1]))
        raise PermissionError("blocked by the harness")
    else:
        return
    for p in paths:
        if isinstance(p, int):
            continue
        q = os.path.realpath(os.fsdecode(p))
        if q != os.devnull and q != root and not q.startswith(root + os.sep):
            _GUARD["escapes"].append("%s %s" % (event, q))
            raise PermissionError("blocked by the harness: %s" % q)


@contextlib.contextmanager
def guard(root):
    """Blocks (and records) every file-system change outside root and every new
    process while active. Yields the list of blocked calls."""
    if not _GUARD["installed"]:
        sys.addaudithook(_audit)
        _GUARD["installed"] = True
    old = _GUARD["root"]
    _GUARD["escapes"] = []
    _GUARD["root"] = os.path.realpath(root)
    try:
        yield _GUARD["escapes"]
    finally:
        _GUARD["root"] = old


def limits(fsize=1 << 26, mem=6 << 30):
    """Soft resource limits for fuzzed input, so that huge claimed sizes end in an OSError."""
    import resource
    for what, v in ((resource.RLIMIT_FSIZE, fsize), (resource.RLIMIT_AS, mem)):
        soft, hard = resource.getrlimit(what)
        resource.setrlimit(what, (v if hard == resource.RLIM_INFINITY or v < hard else hard, hard))
