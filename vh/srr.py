"""Thin driver around the public SRR API of the code under test."""
import os, zlib
from vh import core, rarw, content
from vh.core import Violation, check

import rescene
from rescene import main as M


class Events:
    def __init__(self):
        self.ev = []
        M.subscribe(self)

    def __call__(self, e):
        self.ev.append(e)

    def clear(self):
        self.ev = []

    def codes(self):
        return [e.code for e in self.ev]

    def has(self, code):
        return any(e.code == code for e in self.ev)


EVENTS = None


def events():
    global EVENTS
    if EVENTS is None:
        EVENTS = Events()
    EVENTS.clear()
    return EVENTS


def sfv_text(entries, comment=None, eol="\r\n"):
    out = []
    if comment:
        out.append("; " + comment)
    for n, d in entries:
        out.append("%s %08x" % (n, zlib.crc32(d)))
    return (eol.join(out) + eol).encode("latin-1", "replace")


def write_set(s, folder):
    """Write volumes; returns (vols, files, paths)."""
    vols, files = rarw.build(s)
    paths = []
    for v in vols:
        p = os.path.join(folder, v.name)
        core.write(p, bytes(v.raw))
        paths.append(p)
    return vols, files, paths


def write_files(files, folder):
    for n, d in files.items():
        core.write(os.path.join(folder, n), d)


def create(srr, infiles, **kw):
    with core.quiet():
        return M.create_srr(srr, infiles, **kw)


def reconstruct(*a, **kw):
    with core.quiet():
        return M.reconstruct(*a, **kw)


def check_meta(srr_bytes, expected, what="SRR"):
    """expected: list of (volume stored name, meta bytes)"""
    try:
        v = rarw.srr_view(srr_bytes)
    except Exception as e:
        raise Violation("%s is not a well-formed SRR: %s" % (what, e))
    got = [(n, m) for n, m, _f in v["rars"]]
    check([n for n, _ in got] == [n for n, _ in expected],
          "%s lists volumes %r, expected %r", what, [n for n, _ in got], [n for n, _ in expected])
    for (n, m), (_n, e) in zip(got, expected):
        check(m == bytes(e), "%s: metadata of volume %s differs: %s", what, n,
              core.first_diff(m, bytes(e)))
    return v


def same_tree(got, want, what):
    miss = sorted(set(want) - set(got))
    extra = sorted(set(got) - set(want))
    check(not miss, "%s: missing %r (has %r)", what, miss, sorted(got))
    check(not extra, "%s: unexpected %r", what, extra)
    for n in sorted(want):
        check(got[n] == want[n], "%s: %s differs: %s", what, n,
              core.first_diff(got[n], want[n]))


def bin_tool(name, argv, folder="bin"):
    """Run bin/<name>.py as a script with these arguments."""
    import sys, runpy
    p = os.path.join(core.REPO, folder)
    sys.path.insert(0, p)
    sys.argv = [name + ".py"] + list(argv)
    runpy.run_path(os.path.join(p, name + ".py"), run_name="__main__")
