import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from plant import mk

PRE = r'''import io, os, sys, shutil, tempfile, types, zlib, contextlib
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.getcwd())
vh = types.ModuleType("vh"); vh.__path__ = [here]; sys.modules["vh"] = vh
tmp = tempfile.mkdtemp()
def write(name, data):
    p = os.path.join(tmp, name)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "wb") as f:
        f.write(data)
    return p
def read(name):
    with open(os.path.join(tmp, name), "rb") as f:
        return f.read()
def quiet():
    return contextlib.redirect_stdout(io.StringIO())
def demo(f):
    try:
        f()
    except AssertionError as e:
        print("FAILED:", e)
        sys.exit(1)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    print("ok")
'''
RAR = PRE + '''from vh import rarw
from rescene import main as M
def rarset(base, files, caps=(1 << 40,), naming="old", sub="", **kw):
    s = {"base": base, "naming": naming, "caps": list(caps), "end": "std",
         "files": [{"name": n, "c": {"n": len(d), "k": "lit", "h": d.hex()}} for n, d in files]}
    s.update(kw)
    vols, _ = rarw.build(s)
    return [(write(os.path.join(sub, v.name), bytes(v.raw)), bytes(v.raw), v) for v in vols]
'''
F = ("rarw.py", "content.py")

if __name__ == "__main__":
    mk("b01-samebase", "R01", "two single-volume sets with the same volume name in different folders that follow each other in the SRR",
       "the second volume is appended to the first one and never re-created",
       {"rescene/main.py": [("			if rar_name != block.file_name and not skip_volume:\n", "			if (os.path.basename(rar_name or \"\") !=\n				os.path.basename(block.file_name) and not skip_volume):\n")]},
       RAR + '''
def run():
    a = rarset("grp", [("one.avi", b"first" * 50)], sub="rel/CD1")
    b = rarset("grp", [("two.avi", b"second" * 60)], sub="rel/CD2")
    write("files/one.avi", b"first" * 50); write("files/two.avi", b"second" * 60)
    out = os.path.join(tmp, "out")
    with quiet():
        M.create_srr(os.path.join(tmp, "x.srr"), [a[0][0], b[0][0]], in_folder=os.path.join(tmp, "rel"), save_paths=True)
        M.reconstruct(os.path.join(tmp, "x.srr"), os.path.join(tmp, "files"), out)
    for sub, v in (("CD1", a), ("CD2", b)):
        p = os.path.join(out, sub, "grp.rar")
        assert os.path.isfile(p), p + " was not rebuilt"
        assert read(p) == v[0][1], p + " differs"
demo(run)
''', F)
    mk("b02-sfvcase", "R12", "capital letters in the volume names of the SFV",
       "the listing loses the CRC of the volumes and shows them as other SFV entries",
       {"rescene/main.py": [("		key = os.path.basename(sfv_entry.file_name).lower()		  \n", "		key = os.path.basename(sfv_entry.file_name)\n")]},
       RAR + '''
def run():
    a = rarset("Grp-Rls", [("one.avi", b"first" * 50)], caps=[100], sub="rel")
    sfv = write("rel/x.sfv", "".join("%s %08x\\n" % (v.name, zlib.crc32(b)) for _p, b, v in a).encode())
    with quiet():
        M.create_srr(os.path.join(tmp, "x.srr"), [sfv])
        i = M.info(os.path.join(tmp, "x.srr"))
    assert not i["sfv_entries"], "other entries: %r" % i["sfv_entries"]
    for f, (_p, b, v) in zip(i["rar_files"].values(), a):
        assert getattr(f, "crc32", None) == "%08X" % zlib.crc32(b), "no CRC for " + v.name
demo(run)
''', F)
    mk("b03-seekend", "R15", "a seek to a position after the end of the packed file, relative to the end",
       "seeking forward from the end moves backwards, so data is read again",
       {"rescene/rarstream.py": [("			destination = self._packed_file_length + offset\n", "			destination = self._packed_file_length - abs(offset)\n")]},
       RAR + '''
from rescene.rarstream import RarStream
def run():
    d = bytes(range(256)) * 3
    a = rarset("grp", [("one.avi", d)], caps=[100])
    s = RarStream(a[0][0])
    assert s.seek(-10, 2) == len(d) - 10 and s.read() == d[-10:]
    assert s.seek(10, 2) == len(d) + 10, "wrong position %d" % s.tell()
    assert s.read(5) == b"", "data after the end"
    s.close()
demo(run)
''', F)
    mk("b04-sfvsemicolon", "R18", "a semicolon in the first word of a file name in an SFV file",
       "the entry is taken for a comment",
       {"rescene/utility.py": [("		elif line.lstrip().startswith(b\";\"):\n", "		elif b\";\" in line.split()[0]:\n")]},
       PRE + '''
from rescene.utility import parse_sfv_data
def run():
    e, c, x = parse_sfv_data(b"; comment\\ncover;front.jpg 12345678\\nb.rar 00000001\\n")
    assert [f.file_name for f in e] == ["cover;front.jpg", "b.rar"], e
    assert c == ["; comment"], c
demo(run)
''')
    mk("b05-w00", "R17", "a set of more than 500 old style volumes (name.w00 and later)",
       "volumes after .v99 are not recognised as RAR volumes and left out",
       {"rescene/utility.py": [("	return bool(re.match(r\".*\\.(rar|[r-z]\\d{2}|\\d{3})$\", file_name, re.I))\n", "	return bool(re.match(r\".*\\.(rar|[r-v]\\d{2}|\\d{3})$\", file_name, re.I))\n")]},
       RAR + '''
from rescene.utility import next_archive, is_rar
def run():
    n, seen = "a.rar", []
    for i in range(620):
        try:
            n = next_archive(n)
        except AttributeError as e:
            raise AssertionError("%s: %s" % (n, e))
        seen.append(n)
    assert seen[500] == "a.w00" and seen[-1] == "a.x19", (seen[500], seen[-1])
    assert all(is_rar(x) for x in seen)
demo(run)
''', F)
    mk("b06-osobreak", "R16", "a packed file that is not a video before the video in the same release",
       "no ISDb hash is recorded for the video",
       {"rescene/main.py": [("				if ext not in FileType.VideoExtensions:\n					continue\n				try:\n					oso_hash, file_size", "				if ext not in FileType.VideoExtensions:\n					break\n				try:\n					oso_hash, file_size")]},
       RAR + '''
def run():
    d = bytes(range(256)) * 300
    a = rarset("grp", [("info.txt", b"text"), ("one.avi", d)])
    with quiet():
        M.create_srr(os.path.join(tmp, "x.srr"), [a[0][0]])
        h = M.info(os.path.join(tmp, "x.srr"))["oso_hashes"]
    assert [x[0] for x in h] == ["one.avi"] and h[0][2] == len(d), h
demo(run)
''', F)
