import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from plant import mk
from batch1 import PRE, RAR, F

SRS = PRE + '''p = write("bin/fpcalc", b"#!/bin/sh\\necho FILE=x\\necho DURATION=123\\necho FINGERPRINT=AQAA\\n")
os.chmod(p, 0o755)
os.environ["PATH"] = os.path.dirname(p) + os.pathsep + os.environ["PATH"]
from resample import srs
def rebuild(sname, sample, mname, main):
    """create an SRS for the sample, drop the sample and rebuild it"""
    s, m = write("s/" + sname, sample), write("m/" + mname, main)
    out = os.path.join(tmp, "out")
    os.makedirs(out)
    old = os.getcwd()
    os.chdir(tmp)
    try:
        with quiet(), contextlib.redirect_stderr(io.StringIO()):
            try:
                srs.main([s, "-y", "-o", os.path.join(tmp, "x.srs")], no_exit=True)
                srs.main([os.path.join(tmp, "x.srs"), m, "-y", "-o", out], no_exit=True)
            except (ValueError, SystemExit) as e:
                raise AssertionError("not rebuilt: %r" % (e,))
    finally:
        os.chdir(old)
    p = os.path.join(out, sname)
    assert os.path.isfile(p), "not rebuilt"
    assert read(p) == sample, "differs"
'''
AVI = SRS + '''import struct, random
def ck(cc, d, pad=b"\\0"):
    return cc + struct.pack("<L", len(d)) + d + (pad if len(d) % 2 else b"")
def avi(chunks):
    """chunks: (fourcc, data, pad byte)"""
    movi = b"movi" + b"".join(ck(*c) for c in chunks)
    hdrl = b"hdrl" + ck(b"avih", b"\\1" * 56)
    body = b"AVI " + ck(b"LIST", hdrl) + ck(b"LIST", movi)
    return ck(b"RIFF", body)
'''
mk("b07-rmcase", "R05", "two stored files whose names only differ in capitals, and one of them is removed",
   "the other stored file is removed too",
   {"rescene/main.py": [("				if block.file_name in store_files:\n", "				if block.file_name.lower() in [s.lower() for s in store_files]:\n")]},
   RAR + '''
def run():
    a = rarset("grp", [("one.avi", b"first" * 50)], sub="rel")
    st = [write("rel/" + n, n.encode()) for n in ("Cover.jpg", "cover.jpg", "x.nfo")]
    srr = os.path.join(tmp, "x.srr")
    with quiet():
        M.create_srr(srr, [a[0][0]], in_folder=os.path.join(tmp, "rel"), store_files=st)
        M.remove_stored_files(srr, ["cover.jpg"])
        left = sorted(M.info(srr)["stored_files"])
    assert left == ["Cover.jpg", "x.nfo"], left
demo(run)
''', F)
mk("b08-emptystored", "R07", "a stored file without any data",
   "the empty stored file is not extracted",
   {"rescene/main.py": [("		with open(out_file, \"wb\") as out_stream:\n			out_stream.write(block.srr_data())\n", "		data = block.srr_data()\n		if data:\n			with open(out_file, \"wb\") as out_stream:\n				out_stream.write(data)\n")]},
   RAR + '''
def run():
    a = rarset("grp", [("one.avi", b"first" * 50)], sub="rel")
    st = [write("rel/empty.nfo", b""), write("rel/x.nfo", b"nfo")]
    srr, out = os.path.join(tmp, "x.srr"), os.path.join(tmp, "out")
    with quiet():
        M.create_srr(srr, [a[0][0]], in_folder=os.path.join(tmp, "rel"), store_files=st)
        os.makedirs(out)
        M.extract_files(srr, out)
    assert sorted(os.listdir(out)) == ["empty.nfo", "x.nfo"], os.listdir(out)
    assert read("out/x.nfo") == b"nfo" and read("out/empty.nfo") == b""
demo(run)
''', F)
mk("b09-mp3edge", "S06", "the start of the music lies across the border of two 64 KiB search batches in an MP3 with junk in front",
   "the music is not found in a main file that contains it",
   {"resample/main.py": [("		boffset += (batchsize - SIG_SIZE + 1)\n", "		boffset += batchsize\n")]},
   SRS + '''
import random
def run():
    r = random.Random(5)
    music = b"\\xff\\xfb\\x90\\x64" + r.randbytes(3000)
    junk = b"\\x01" + bytes(r.randrange(1, 200) for _ in range(0x10000 - 100 - 1))
    rebuild("a.mp3", music, "b.mp3", b"ID3\\4\\0\\0\\0\\0\\0\\0" + junk + music)
demo(run)
''')
mk("b10-avirestart", "S01", "the first frame of a track occurs twice in a row in the main file and the signature needs more than one frame",
   "the search gives up the frame that ends a partial match, so the real start is missed",
   {"resample/main.py": [("						# It was only a partial match. Start over.\n						track.check_bytes = b\"\"\n						track.match_offset = 0\n						track.match_length = 0\n\n				# this is a bit weird, but if we had a false positive match\n				# going and discovered it above, we check this frame again\n				# to see if it's the start of a new match\n				# (probably will never happen with AVI,", "						# It was only a partial match. Start over.\n						track.check_bytes = b\"\"\n						track.match_offset = 0\n						track.match_length = 0\n						rr.skip_contents()\n						return tracks, block_count, done\n\n				# this is a bit weird, but if we had a false positive match\n				# going and discovered it above, we check this frame again\n				# to see if it's the start of a new match\n				# (probably will never happen with AVI,")]},
   AVI + '''
def run():
    r = random.Random(6)
    f = [r.randbytes(100) for _ in range(8)]
    c = lambda *ff: avi([(b"00dc", x, b"\\0") for x in ff])
    rebuild("s.avi", c(f[1], f[2], f[3], f[4]), "m.avi", c(f[0], f[1], f[1], f[2], f[3], f[4], f[5]))
demo(run)
''')
mk("b11-avipad", "S01", "a padding byte after a chunk of odd length that is not zero",
   "the rebuilt sample has another padding byte",
   {"resample/main.py": [("				if rr.has_padding:\n					srsf.write(S_BYTE.pack(rr.padding_byte))", "				if rr.has_padding:\n					srsf.write(b\"\\0\")")]},
   AVI + '''
def run():
    r = random.Random(7)
    f = [r.randbytes(301) for _ in range(5)]
    rebuild("s.avi", avi([(b"00dc", f[1], b"\\x00"), (b"00dc", f[2], b"\\x07"), (b"00dc", f[3], b"\\0")]),
            "m.avi", avi([(b"00dc", x, b"\\0") for x in f]))
demo(run)
''')
mk("b12-mp4zerochunk", "S03", "a chunk that only has samples of 0 bytes between the chunks a signature is read from",
   "reading the track stops at the chunk without data",
   {"resample/main.py": [("				bytes_read = self.stream.read(min(amount - len(firstb), bl))\n				firstb += bytes_read\n", "				bytes_read = self.stream.read(min(amount - len(firstb), bl))\n				if not bytes_read:\n					return firstb\n				firstb += bytes_read\n")]},
   PRE + '''
from resample.main import TrackStream, TrackChunk
def run():
    data = bytes(range(256)) * 4
    ts = TrackStream()
    prev = None
    for off, samples in ((0, [100]), (100, [0]), (100, [60, 40]), (400, [300])):
        c = TrackChunk(off, len(samples), prev)
        c.samples = samples
        if prev:
            prev.next_chunk = c
        ts.add_chunk(c)
        prev = c
    ts.stream = io.BytesIO(data)
    want = data[:200] + data[400:456]
    got = ts.read(256)
    assert got == want, "read %d bytes of the stream, not 256" % len(got)
demo(run)
''')
mk("b13-mergeapp", "R11", "the first of the merged SRR files has an empty application name and a later one has a name",
   "the result has no application name",
   {"rescene/main.py": [("				if not application_name or application_name == \"\":\n", "				if application_name is None:\n")]},
   RAR + '''
from rescene.rar import SrrHeaderBlock
def run():
    names = []
    for i, app in enumerate(("", "some application")):
        a = rarset("grp%d" % i, [("one%d.avi" % i, b"first" * 50)], sub="rel")
        srr = os.path.join(tmp, "x%d.srr" % i)
        with quiet():
            M.create_srr(srr, [a[0][0]], in_folder=os.path.join(tmp, "rel"))
        from rescene.rar import RarReader, BlockType
        head = RarReader(srr).read_all()[0]
        with open(srr, "rb") as f:
            raw = f.read()
        with open(srr, "wb") as f:
            f.write(SrrHeaderBlock(appname=app).block_bytes() + raw[len(head.block_bytes()):])
        names.append(srr)
    out = os.path.join(tmp, "m.srr")
    with quiet():
        M.merge_srrs(names, out)
        got = M.info(out)["appname"]
    assert got == "some application", repr(got)
demo(run)
''', F)
mk("b14-streamedge", "S07", "the start of a stream sample lies across the border of two 64 KiB reads of the main file",
   "the sample is not found in its main file",
   {"resample/main.py": [("				match = (p + x).find(track.signature_bytes, ramount - sig_size)", "				match = (p + x).find(track.signature_bytes, ramount)")]},
   SRS + '''
import random
def run():
    r = random.Random(8)
    pack = b"\\x00\\x00\\x01\\xba"
    main = pack + r.randbytes(0x10000 - 60 - 4)
    sample = pack + r.randbytes(5000)
    rebuild("s.vob", sample, "m.vob", main + sample + r.randbytes(700))
demo(run)
''')
mk("b15-outcase", "R14", "an output file given as NAME.SRR in capitals",
   "the name is taken for a folder",
   {"rescene/srr.py": [("		if options.output_dir[-4:].lower() == \".srr\":", "		if options.output_dir[-4:] == \".srr\":")]},
   RAR + '''
from rescene import srr
def run():
    a = rarset("grp", [("one.avi", b"first" * 50)], sub="rel")
    out = os.path.join(tmp, "OUT.SRR")
    with quiet(), contextlib.redirect_stderr(io.StringIO()):
        try:
            srr.main([a[0][0], "-o", out, "-y"])
        except SystemExit:
            pass
    assert os.path.isfile(out), sorted(os.listdir(tmp))
demo(run)
''', F)
mk("b16-yendtail", "U01", "empty lines after the =yend line of an article",
   "the =yend line is not recognised",
   {"usenet/yenc.py": [("	for i in range(-1, -11, -1):", "	for i in range(-1, -2, -1):")]},
   PRE + '''
from usenet import yenc
def run():
    d = bytes(range(100, 200))
    body = bytes((b + 42) % 256 for b in d).replace(b"=", b"=}")
    lines = [b"=ybegin line=128 size=100 name=a.bin", body, b"=yend size=100 crc32=%08x" % zlib.crc32(d), b"--", b"posted by x"]
    with quiet():
        try:
            got = yenc.decode(lines)
        except Exception as e:
            raise AssertionError("%r" % (e,))
    assert got["data"] == d, got
demo(run)
''')
mk("b17-rrpad", "R04", "a last protected sector of fewer than 8 bytes",
   "the recovery data that is computed for that sector is wrong, so the volume is not rebuilt",
   {"rescene/main.py": [("			sector += bytes(bytearray(512 - len(sector)))\n", "			sector = sector.rjust(512, b\"\\0\") if len(sector) < 8 else sector + bytes(bytearray(512 - len(sector)))\n")]},
   RAR + '''
def run():
    done = 0
    for n in range(300, 300 + 520):
        d = bytes((i * 7 + n) % 251 for i in range(n))
        s = rarset("grp%d" % n, [("f%d.bin" % n, d)], sub="r%d" % n, rr={"n": 2, "style": "old"})
        raw = s[0][1]
        # 20: the end of archive block is not protected
        write("files/f%d.bin" % n, d)
        srr, out = os.path.join(tmp, "x%d.srr" % n), os.path.join(tmp, "o%d" % n)
        with quiet():
            M.create_srr(srr, [s[0][0]], in_folder=os.path.join(tmp, "r%d" % n))
            M.reconstruct(srr, os.path.join(tmp, "files"), out)
        p = os.path.join(out, "grp%d.rar" % n)
        assert os.path.isfile(p) and read(p) == raw, "volume with %d bytes differs" % n
demo(run)
''', F)
