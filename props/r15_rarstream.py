"""R15: reading a file inside a RAR set equals reading the plain file."""
import io, os
from hypothesis import strategies as st
from vh import core, content, gen, rarw, srr as S
from vh.core import Leg, check, Reject
from rescene.rarstream import RarStream, FakeFile
from rescene import rar as R

RULE = ("stream: a case is a generated store-mode set of up to 14 volumes, one of its packed files (first by default, or by name with either slash), opened at its first volume or, with "
        "the first-volume check off, at the volume where the file starts, and up to 25 operations (seek with every origin, read, readline, readlines, iteration, tell, length); every "
        "result is compared with the same operations on the plain bytes. Non-trivial: the file spans volumes and at least one read or line crosses a boundary or follows a seek. "
        "refuse: wrong volumes, names and compressed sets are refused. fake: the all-zero stand-in file against a model.")
ASSUMPTIONS = ["numbered names keep their width (documented as undefined otherwise)", "seeking to a negative position raises an error and leaves the position alone"]

OFF = st.one_of(st.integers(-4000, 4000), st.integers(-20, 20))
OPS = st.one_of(
    st.tuples(st.just("seek"), st.integers(0, 2), OFF),
    st.tuples(st.just("edge"), st.integers(0, 30), st.integers(-3, 3)),
    st.tuples(st.just("read"), st.one_of(st.integers(0, 40), st.integers(0, 3000), st.sampled_from([0, 1, 1 << 20])), st.just(0)),
    st.tuples(st.just("readall"), st.integers(0, 1), st.just(0)),
    st.tuples(st.just("line"), st.integers(-1, 90), st.just(0)),
    st.tuples(st.just("lines"), st.integers(0, 200), st.just(0)),
    st.tuples(st.just("next"), st.integers(1, 4), st.just(0)),
    st.tuples(st.just("tell"), st.just(0), st.just(0)))


@st.composite
def case(draw):
    s = draw(gen.rarset(max_vols=14, max_files=3, hi=3000, big=[65535, 65536, 70000] if draw(st.integers(0, 9)) == 0 else None))
    if draw(st.booleans()):
        for f in s["files"]:
            f["c"]["k"] = "text"
    if draw(st.integers(0, 5)) == 0 and s["naming"] == "old":       # an old style set with a name that looks new
        s["base"] += draw(st.sampled_from([".part02", ".part1", ".PART2"]))
    one = [f for f in s["files"] if not f.get("dir") and not f.get("uni")]
    if len(one) > 1 and draw(st.integers(0, 5)) == 0:   # names that differ in letter case only
        one[-1]["name"] = one[0]["name"].swapcase()
    return {"set": s, "pick": draw(st.integers(0, 5)), "how": draw(st.sampled_from(["default", "back", "slash", "middle", "middle"])),
            "ops": draw(st.lists(OPS, min_size=1, max_size=25)), "compressed": draw(st.booleans()), "check": draw(st.booleans())}


class Model:
    """A read-only binary file over bytes."""
    def __init__(self, data):
        self.d, self.p = data, 0

    def seek(self, off, origin):
        n = [0, self.p, len(self.d)][origin] + off
        if n < 0:
            raise IndexError
        self.p = n
        return n

    def read(self, n=-1):
        r = self.d[self.p:] if n < 0 else self.d[self.p:self.p + n]
        self.p += len(r)
        return r

    def readline(self, n=-1):
        k = self.d.find(b"\n", self.p)
        end = len(self.d) if k < 0 else k + 1
        if n >= 0:
            end = min(end, self.p + n)
        r = self.d[self.p:end]
        self.p += len(r)
        return r


def run(c, ctx):
    d = ctx.dir()
    s = c["set"]
    vols, files, paths = S.write_set(s, d)
    cand = [i for i, f in enumerate(s["files"]) if not f.get("dir")]
    idx = cand[c["pick"] % len(cand)] if c["how"] != "default" else 0
    if c["how"] == "default" and s["files"][0].get("dir"):
        raise Reject()
    f = s["files"][idx]
    data = content.data(f["c"])
    where = [k for k, v in enumerate(vols) if any(i == idx for i, _o, _k in v.pieces)]
    if not where:
        raise Reject()
    name = {"default": None, "back": f["name"], "slash": f["name"].replace("\\", "/"), "middle": f["name"]}[c["how"]]
    middle = c["how"] == "middle"
    before = {p: core.read(p) for p in paths}
    rs = RarStream(paths[where[0]] if middle else paths[0], name, middle=middle, compressed=c["compressed"])
    check(rs.length() == len(data), "length() is %r, the file has %d bytes", rs.length(), len(data))
    check(rs.readable() and rs.seekable() and not rs.closed and rs.tell() == 0, "fresh stream state")
    if c["how"] == "default":
        check(rs.packed_file_name == f["name"], "default file %r, expected %r", rs.packed_file_name, f["name"])
    m = Model(data)
    edges, pos = [0], 0
    for v in vols:
        for i, o, k in v.pieces:
            if i == idx:
                pos += k
                edges.append(pos)
    moved = False
    for op, a, b in c["ops"]:
        start = m.p
        if op in ("seek", "edge"):
            if op == "edge":
                a, b = 0, max(0, edges[a % len(edges)] + b)
            try:
                want = m.seek(b, a)
            except IndexError:
                try:
                    got = rs.seek(b, a)
                except (IndexError, ValueError, OSError):
                    got = None
                check(got is None, "seek(%d, %d) before the start returned %r", b, a, got)
                check(rs.tell() == m.p, "refused seek moved the position to %r", rs.tell())
                continue
            got = rs.seek(b, a)
            check(got == want, "seek(%d, %d) returned %r, expected %r", b, a, got, want)
            moved = True
            continue
        if op == "read":
            got, want = rs.read(a), m.read(a)
        elif op == "readall":
            got, want = (rs.read() if a else rs.read(-1)), m.read()
        elif op == "line":
            got, want = rs.readline(a), m.readline(a)
        elif op == "lines":
            got, want = [], []
            if len(data) - m.p > 6000:
                continue
            got = rs.readlines()
            while True:
                l = m.readline()
                if not l:
                    break
                want.append(l)
        elif op == "next":
            got, want = [], []
            for _ in range(a):
                try:
                    got.append(next(rs))
                except StopIteration:
                    pass
                l = m.readline()
                if l:
                    want.append(l)
        else:
            got, want = rs.tell(), m.p
        if isinstance(want, bytes):
            check(got == want, "%s(%d) at %d of %d: %s", op, a, start, len(data), core.first_diff(got, want))
        else:
            check(got == want, "%s at %d: %r, expected %r", op, start, got, want)
        check(rs.tell() == m.p, "tell() after %s at %d: %r, expected %r", op, start, rs.tell(), m.p)
        ctx.nontrivial(len(where) > 1 and m.p > start and (moved or any(start < e < m.p for e in edges)))
    names = [g["name"] for g in s["files"]]
    got = rs.list_files()
    first = vols[where[0]]
    want = []
    for i, _o, _k in first.pieces:
        if names[i] not in want:
            want.append(names[i])
    check([n for n in got if n in want] == want, "list_files() gives %r, expected %r", got, want)
    rs.close()
    check(rs.closed and not rs.readable() and not rs.seekable(), "closed stream state")
    rs.close()
    with RarStream(paths[where[0]] if middle else paths[0], name, middle=middle) as rs:
        rs.read(5)
    check(rs.closed, "the with statement does not close the stream")
    check({p: core.read(p) for p in paths} == before, "reading changed the volumes")
    ctx.label(c["how"], "spans" if len(where) > 1 else "one")


# ------------------------------------------------------------- refusals
@st.composite
def refuse_case(draw):
    kind = draw(st.sampled_from(["notfirst", "name", "compressed", "nofile", "notrar", "empty"]))
    s = draw(gen.rarset(max_vols=6, max_files=3, hi=2000))
    return {"set": s, "kind": kind, "pick": draw(st.integers(0, 20)), "junk": draw(st.binary(max_size=60)).hex(),
            "method": draw(st.integers(0x31, 0x35))}


def refuse_run(c, ctx):
    d = ctx.dir()
    s, kind = c["set"], c["kind"]
    if kind == "compressed":
        for f in s["files"]:
            if not f.get("dir"):
                f["method"] = c["method"]
    vols, files, paths = S.write_set(s, d)
    names = [f["name"] for f in s["files"]]
    err = (AttributeError, R.ArchiveNotFoundError, ValueError)
    args, kw = (paths[0],), {}
    if kind == "notfirst":
        cand = [k for k, v in enumerate(vols) if v.pieces and any(i == v.pieces[0][0] for w in vols[:k] for i, _o, _n in w.pieces)]
        if not cand:
            raise Reject()
        args = (paths[cand[c["pick"] % len(cand)]],)
        err = AttributeError
    elif kind == "name":
        n = ["nope.avi", names[0] + "x", names[0].upper() + "_", "dir/other"][c["pick"] % 4]
        args = (paths[0], n)
        err = AttributeError
    elif kind == "compressed":
        if s["files"][0].get("dir"):
            raise Reject()
        err = AttributeError
    elif kind == "nofile":
        args = (os.path.join(d, "missing.rar"),)
    elif kind == "notrar":
        args = (core.write(os.path.join(d, "junk.rar"), bytes.fromhex(c["junk"])),)
    else:
        b = rarw.MARKER + rarw.block(0x73, 0, bytes(6))[0]
        args = (core.write(os.path.join(d, "empty.rar"), b),)
        err = AttributeError
    try:
        rs = RarStream(*args)
    except err:
        ctx.nontrivial(True)
        ctx.label(kind)
        if kind == "compressed":
            rs = RarStream(paths[0], names[0], compressed=True)
            f = s["files"][0]
            check(rs.read() == content.data(f["c"]), "compressed=True: packed bytes differ")
        return
    check(False, "%s accepted: %r opens %r with %d bytes", kind, args[0], rs.packed_file_name, rs.length())


# ------------------------------------------------------------------ fake
@st.composite
def fake_case(draw):
    n = draw(st.one_of(st.integers(0, 3000), st.integers(0, 9)))
    return {"n": n, "ops": draw(st.lists(st.tuples(st.sampled_from(["seek", "read", "readall", "tell"]), st.integers(0, 2), st.integers(-50, n + 20)), min_size=1, max_size=20))}


def fake_run(c, ctx):
    f, m = FakeFile(c["n"]), Model(bytes(c["n"]))
    check(f.length() == c["n"] and f.readable() and f.seekable(), "fake file state")
    for op, a, b in c["ops"]:
        if op == "seek":
            t = [0, m.p, c["n"]][a] + b
            if 0 <= t < c["n"]:
                check(f.seek(b, a) == m.seek(b, a), "seek(%d, %d)", b, a)
            else:       # documented: outside the file raises
                try:
                    f.seek(b, a)
                except IndexError:
                    pass
                else:
                    m.p = f.tell()
                    check(t == m.p == c["n"], "seek outside the file accepted: %d", t)
        elif op == "read":
            n = max(0, b)
            check(f.read(n) == m.read(n), "read(%d)", n)
        elif op == "readall":
            check(f.read() == m.read(), "read()")
        check(f.tell() == m.p, "%s: position %r, expected %r", op, f.tell(), m.p)
        ctx.nontrivial(op.startswith("read") and m.p)


LEGS = [Leg("stream", case, run, quick=1600, thorough=60000, shards=6),
        Leg("refuse", refuse_case, refuse_run, quick=250, thorough=8000, shards=1),
        Leg("fake", fake_case, fake_run, quick=300, thorough=8000, shards=1)]
