"""A stand-in for the command line RAR programs: the same switches, volumes and archive layout, with a keyed reversible
code instead of RAR's compression. What it writes depends on version, method, dictionary, threads and (when solid)
on the files before it, so only the right program with the right settings reproduces an archive."""
import hashlib, os, re, sys

GROUP = 64
NAME = re.compile(r"(\d{4}-\d\d-\d\d)_rar(\d)(\d\d)(b\d)?(\.exe)?$")


def version(name):
    m = NAME.match(name)
    return (int(m.group(2)), int(m.group(3)))


def has_mt(v):
    return v >= (3, 60)


# versions where what is packed depends on the file before or after it, also when not solid
PREV, NEXT = {(3, 93)}, {(4, 1)}


def pack_all(datas, v, method, dict_, threads, solid, store=()):
    """-> packed data of each file"""
    out, hist = [], b""
    real = [i for i, d in enumerate(datas) if d and i not in store]
    for i, d in enumerate(datas):
        if i not in real:
            out.append(d)
            if solid:
                hist += d
            continue
        if solid:
            h = hist
        elif v in PREV and i and i - 1 in real:
            h = datas[i - 1]
        elif v in NEXT and i + 1 in real:
            h = datas[i + 1]
        else:
            h = b""
        out.append(compress(d, v, method, dict_, threads, h))
        hist += d
    return out


def compress(data, v, method, dict_, threads, history=b""):
    """the packed bytes; a prefix of the data gives a prefix of the stream but for the end"""
    t = max(1, threads or 1) if has_mt(v) else 1
    key = ("%d.%d %s %s %d " % (v[0], v[1], method, dict_, t)).encode() + hashlib.md5(history).digest()
    out = []
    n = len(data) // GROUP * GROUP
    ks = hashlib.shake_128(key).digest(len(data))
    x = (int.from_bytes(data, "little") ^ int.from_bytes(ks, "little")).to_bytes(len(data), "little")
    for i in range(0, n, GROUP):
        g = data[i:i + GROUP]
        if g == g[:1] * GROUP:
            out.append(b"\1" + x[i:i + 3])
        else:
            out.append(b"\2" + x[i:i + GROUP])
    out.append(b"\3" + x[n:])
    out.append(hashlib.shake_128(key + b"end").digest(3 + tail(v) * 99 + t + (40 if history else 0)))
    return b"".join(out)


def tail(v):
    return (v[0] * 100 + v[1]) % 61


def usage(v):
    return "RAR %d.%02d\n<Switches>\n  m<0..5>  Set compression level\n%s  v<size> volumes\n" % (
        v[0], v[1], "  mt<threads>  Set the number of threads\n" if has_mt(v) else "")


def main(argv, cwd=None):
    """-> (exit code, output)"""
    from vh import rarw
    v = version(os.path.basename(argv[0]))
    args = argv[1:]
    if not args:
        return 0, usage(v)
    if args[0] != "a":
        return 7, "unknown command"
    method, dict_, threads, solid, vn, ma4, split, names = "-m3", "-mdG", None, False, False, False, None, []
    for a in args[1:]:
        if names or not a.startswith("-"):
            names.append(a)
        elif re.match(r"-m[0-5]$", a):
            method = a
        elif re.match(r"-md[A-G]$", a):
            dict_ = a
        elif re.match(r"-mt\d+$", a) and has_mt(v):
            threads = int(a[3:])
            if not ((0 <= threads <= 16) if v < (4, 20) else (1 <= threads <= 32)):
                return 7, "bad thread count"
        elif a in ("-s", "-s-"):
            solid = a == "-s"
        elif a == "-vn" and v[0] > 2:
            vn = True
        elif a == "-ma4" and v[0] > 4:
            ma4 = True
        elif re.match(r"-v\d+b$", a):
            split = int(a[2:-1])
        elif a in ("-o+", "-ep", "-idcd", "-ds"):
            pass
        else:
            return 7, "unknown switch " + a
    if len(names) < 2:
        return 7, "nothing to do"
    out, files = names[0], []
    for f in names[1:]:
        p = os.path.join(cwd or os.getcwd(), f)
        if p not in files:
            files.append(p)
    datas = []
    for f in files:
        try:
            with open(f, "rb") as fh:
                datas.append(fh.read())
        except OSError:
            return 6, "can't open " + f
    if v[0] > 4 and not ma4:
        with open(os.path.join(cwd or "", out), "wb") as fh:
            fh.write(b"Rar!\x1a\7\1\0" + bytes(64))
        return 0, ""
    s = {"base": out[:-4], "naming": "single", "files": [], "mainflags": 8 if solid else 0, "end": "std", "nopartcrc": v[0] == 2}
    hist, packed = b"", pack_all(datas, v, method, dict_, threads, solid)
    for f, d in zip(files, datas):
        first = not hist
        hist += d
        s["files"].append({"name": os.path.basename(f), "c": {"n": 0}, "method": 0x30 + int(method[2]), "dict": "ABCDEFG".index(dict_[3]),
                           "xflags": 0x10 if solid and not first else 0, "ver": 20 if v[0] == 2 else 29})
    for f in s["files"]:
        if any(ord(c) > 126 or ord(c) < 32 for c in f["name"]):
            f["uni"] = True
    if split:
        s["caps"] = [max(1, split - 100)]
        s["naming"] = "old" if vn or v[0] == 2 else "part1"
    vols, _ = rarw.build(s, datas, packed)
    d = os.path.dirname(os.path.join(cwd or "", out))
    for w in vols:
        with open(os.path.join(d, os.path.basename(w.name)), "wb") as fh:
            fh.write(bytes(w.raw))
    return 0, "ok\n"


def install(folder, names):
    """The programs, as scripts that really run."""
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    os.makedirs(folder, exist_ok=True)
    for n in names:
        p = os.path.join(folder, n)
        with open(p, "w") as f:
            f.write("#!%s\nimport sys\nsys.path.insert(0, %r)\nfrom vh import fakerar\nrc, t = fakerar.main(sys.argv)\nsys.stdout.write(t)\nsys.exit(rc)\n"
                    % (sys.executable, here))
        os.chmod(p, 0o755)


def inline(folder, log=None):
    """Calls of programs in the folder are answered in this process (the scripts would do the same, slower)."""
    import subprocess
    real = subprocess.Popen

    class Fake(real):
        def __init__(self, args, *a, **kw):
            self.fake = isinstance(args, (list, tuple)) and os.path.dirname(str(args[0])) == folder
            if not self.fake:
                return real.__init__(self, args, *a, **kw)
            if log is not None:
                log.append([os.path.basename(str(args[0]))] + list(args[1:]))
            self.args = args
            self.returncode, self.text = main(list(args), kw.get("cwd"))
            self.stdin = self.stdout = self.stderr = None
            self.wants = kw.get("stdout") is not None

        def communicate(self, *a, **kw):
            if not self.fake:
                return real.communicate(self, *a, **kw)
            return (self.text.encode() if self.wants else None, None)

        def wait(self, *a, **kw):
            return self.returncode if self.fake else real.wait(self, *a, **kw)

        def poll(self, *a, **kw):
            return self.returncode if self.fake else real.poll(self, *a, **kw)

        def __exit__(self, *a):
            return None if self.fake else real.__exit__(self, *a)

        def __del__(self, *a):
            return None if getattr(self, "fake", True) else real.__del__(self)
    subprocess.Popen = Fake
