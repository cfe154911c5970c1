import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from plant import mk
from batch1 import PRE, RAR, F

TOOL = RAR + '''import subprocess
def tool(path, *argv, **kw):
    r = subprocess.run([sys.executable, "-W", "ignore", os.path.join(os.getcwd(), path)] + list(argv), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=tmp, **kw)
    return r.returncode, r.stdout
def srr(name, stored=(), sets=()):
    b = rarw.srr_header("pyReScene Auto 0.7") + b"".join(rarw.srr_stored(n, d) for n, d in stored)
    for v in sets:
        b += rarw.srr_rar(v[2].name) + bytes(v[2].meta)
    return write(name, b)
'''
mk("c01-sortcompr", "A06", "an SRR of two RAR sets of which only the second one is compressed",
   "srr_sort -c only looks at the first file of an SRR",
   {"bin/srr_sort.py": [("			if block.compression_method != COMPR_STORING:\n				return True\n	return False", "			return block.compression_method != COMPR_STORING\n	return False")]},
   TOOL + '''
def run():
    a = rarset("grp", [("one.avi", b"first" * 50)])
    s = {"base": "sub", "naming": "old", "caps": [1 << 40], "end": "std", "files": [{"name": "b.sub", "method": 0x33, "c": {"n": 50, "k": "lit", "h": (b"x" * 50).hex()}}]}
    vols, _ = rarw.build(s)
    b = [("", b"", vols[0])]
    srr("in/A-GRP.srr", sets=[a[0]]); srr("in/B-GRP.srr", sets=[a[0], b[0]]); srr("in/C-GRP.srr", sets=[b[0], a[0]])
    rc, out = tool("bin/srr_sort.py", "-c", os.path.join(tmp, "in"))
    assert sorted(out.split()) == ["B-GRP.srr", "C-GRP.srr"], out
demo(run)
''', F)
mk("c02-sortdup", "A06", "two stored files with the same name in different folders",
   "srr_sort -u lists SRRs without duplicates",
   {"bin/srr_sort.py": [("			if found.count(block.file_name):\n				return True\n			found.append(block.file_name)", "			stored_name = os.path.basename(block.file_name)\n			if stored_name in found:\n				return True\n			found.append(stored_name)")]},
   TOOL + '''
def run():
    srr("in/A-GRP.srr", [("CD1/x.sfv", b"1"), ("CD2/x.sfv", b"2")]); srr("in/B-GRP.srr", [("x.nfo", b"1"), ("x.nfo", b"2")])
    rc, out = tool("bin/srr_sort.py", "-u", os.path.join(tmp, "in"))
    assert out.split() == ["B-GRP.srr"], out
demo(run)
''', F)
mk("c03-flipend", "A07", "a search range that ends before the end of the file",
   "the length of the data after the range is forgotten when CRCs are combined, so the damage is not found",
   {"scripts/bitflip.py": [("			crc_after_len = aplen + crc_end_len\n", "			crc_after_len = aplen\n")]},
   TOOL + '''
def run():
    good = bytes(range(256)) * 3
    bad = bytearray(good)
    bad[200] ^= 8
    p = write("d/a.bin", bytes(bad))
    crc = "%08X" % zlib.crc32(good)
    env = dict(os.environ, PYTHONOPTIMIZE="1")
    for argv in ((), ("100", "768"), ("0", "400"), ("150", "210")):
        for n in os.listdir(os.path.dirname(p)):
            if n != "a.bin":
                os.remove(os.path.join(os.path.dirname(p), n))
        rc, out = tool("scripts/bitflip.py", p, crc, *argv, env=env)
        q = os.path.join(tmp, "d/a.bin.200.fixed")
        assert os.path.isfile(q), "%r: %s" % (argv, out[-100:])
        assert read("d/a.bin.200.fixed") == good
demo(run)
''', F)
mk("c04-srsupper", "S15", "the output name is given in capitals (-o NAME.SRS)",
   "the name is taken for a folder that does not exist",
   {"resample/srs.py": [("				if options.output_dir[-4:].lower() == \".srs\":", "				if options.output_dir.endswith(\".srs\"):")]},
   PRE + '''
import struct, random
from resample import srs
def ck(cc, d):
    return cc + struct.pack("<L", len(d)) + d + (b"\\0" if len(d) % 2 else b"")
def run():
    r = random.Random(1)
    movi = b"movi" + b"".join(ck(b"00dc", r.randbytes(300)) for _ in range(4))
    s = write("s/s.avi", ck(b"RIFF", b"AVI " + ck(b"LIST", b"hdrl" + ck(b"avih", b"\\1" * 56)) + ck(b"LIST", movi)))
    for n in ("a.srs", "B.SRS"):
        with quiet(), contextlib.redirect_stderr(io.StringIO()):
            try:
                srs.main([s, "-y", "-o", os.path.join(tmp, n)], no_exit=True)
            except (ValueError, SystemExit) as e:
                raise AssertionError("%s: %r" % (n, e))
        assert os.path.isfile(os.path.join(tmp, n)), n
demo(run)
''')
mk("c05-albumart", "A01", "an AlbumArt_{...} image of Windows Media Player in a sub folder of the release",
   "it is stored as if it belongs to the release",
   {"bin/pyrescene.py": [("		os.path.basename(lproof).startswith(\"albumart_{\"))", "		lproof.startswith(\"albumart_{\"))")]},
   PRE + '''
import runpy
def run():
    sys.path.insert(0, os.path.join(os.getcwd(), "bin"))
    sys.argv = ["pyrescene.py"]
    with quiet():
        ns = runpy.run_path(os.path.join(os.getcwd(), "bin", "pyrescene.py"), run_name="pyrescene")
    d = os.path.join(tmp, "Some.Release-GRP")
    write("Some.Release-GRP/CD1/00-grp.rar", b"Rar!")
    write("Some.Release-GRP/AlbumArt_{1}_Large.jpg", b"\\xff\\xd8" + b"x" * 200)
    write("Some.Release-GRP/CD1/AlbumArt_{2}_Small.jpg", b"\\xff\\xd8" + b"x" * 200)
    write("Some.Release-GRP/CD1/00-cover.jpg", b"\\xff\\xd8" + b"x" * 200)
    with quiet():
        got = ns["filter_proof_image_files"](ns["get_files"](d, "*.jpg"), [], d, True)
    assert [os.path.basename(g) for g in got] == ["00-cover.jpg"], got
demo(run)
''')
mk("c06-ncrctime", "R08", "a file with an extended time field in which only one of the creation and the archive time is given",
   "the creation time is read as the archive time and the other way around",
   {"rescene/rar.py": [("	block.ctime, pos = _parse_xtime(flags >> 2*4, data, pos)\n", "	block.ctime, pos = _parse_xtime(flags >> 0*4, data, pos)\n"), ("	block.arctime, pos = _parse_xtime(flags >> 0*4, data, pos)", "	block.arctime, pos = _parse_xtime(flags >> 2*4, data, pos)")]},
   RAR + """
from rescene.rar import RarReader, BlockType
def run():
    t = lambda y: {"t": rarw.dostime(y), "sec": 0, "x": ""}
    for ext, want in (([t(2001), t(2002), None, None], (True, False)), ([t(2001), None, None, t(2004)], (False, True)), ([t(2001), t(2002), t(2003), t(2004)], (True, True))):
        s = {"base": "grp", "naming": "single", "caps": [1 << 40], "end": "std", "files": [{"name": "a.avi", "ext": ext, "c": {"n": 5, "k": "lit", "h": "6162636465"}}]}
        vols, _ = rarw.build(s)
        p = write("x.rar", bytes(vols[0].raw))
        b = [b for b in RarReader(p) if b.rawtype == BlockType.RarPackedFile][0]
        got = (b.ctime is not None, b.arctime is not None)
        assert got == want, "%r instead of %r" % (got, want)
        for v, y in ((b.ctime, 2002), (b.arctime, 2004)):
            assert v is None or str(y) in str(v), "%r is not %d" % (v, y)
demo(run)
""", F)
