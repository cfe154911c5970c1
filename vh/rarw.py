"""Independent RAR 2/3/4 store-mode writer and reference models.

Builds complete RAR sets from JSON descriptions. Written from the RAR technote,
not from the code under test: nothing here imports rescene.
"""
import struct, zlib
from vh import content

MARKER = bytes.fromhex("526172211a0700")
LONG = 0x8000


def crc16(b):
    return zlib.crc32(b) & 0xFFFF


def block(btype, flags, body, data=b"", crc=None):
    """HEAD_CRC TYPE FLAGS SIZE body | data"""
    h = struct.pack("<BHH", btype, flags, 7 + len(body)) + body
    return struct.pack("<H", crc16(h) if crc is None else crc) + h, data


def dostime(y=2010, mo=1, d=2, h=3, mi=4, s=6):
    return ((y - 1980) << 25) | (mo << 21) | (d << 16) | (h << 11) | (mi << 5) | (s // 2)


def encode_unicode(std, name, pick):
    """RAR unicode name field: std bytes, NUL, encoded. pick: list of ints used
    to choose between the legal encodings of each character."""
    units = [ord(c) for c in name]
    hi = 0
    for u in units:
        if u > 255:
            hi = u >> 8
            break
    ops = []          # (type, bytes)
    i = 0
    k = 0
    while i < len(units):
        u = units[i]
        p = pick[k % len(pick)] if pick else 0
        k += 1
        # run copy without correction: std byte equals low byte, high byte zero
        run = 0
        while (i + run < len(units) and i + run < len(std) and run < 129 and
               units[i + run] == std[i + run]):
            run += 1
        runc = 0
        if i < len(std) and u >> 8 == hi:
            c = (u - std[i]) & 0xFF
            while (i + runc < len(units) and i + runc < len(std) and runc < 129 and
                   units[i + runc] >> 8 == hi and
                   (std[i + runc] + c) & 0xFF == units[i + runc] & 0xFF):
                runc += 1
        legal = [2]
        if u < 256:
            legal.append(0)
        if u >> 8 == hi:
            legal.append(1)
        if run >= 2:
            legal.append(3)
        if runc >= 2:
            legal.append(4)
        t = legal[p % len(legal)]
        if t == 0:
            ops.append((0, bytes([u])))
            i += 1
        elif t == 1:
            ops.append((1, bytes([u & 0xFF])))
            i += 1
        elif t == 2:
            ops.append((2, bytes([u & 0xFF, u >> 8])))
            i += 1
        elif t == 3:
            ops.append((3, bytes([run - 2])))
            i += run
        else:
            ops.append((3, bytes([0x80 | (runc - 2), (units[i] - std[i]) & 0xFF])))
            i += runc
    out = bytearray([hi])
    for j in range(0, len(ops), 4):
        grp = ops[j:j + 4]
        fl = 0
        for n, (t, _b) in enumerate(grp):
            fl |= t << (6 - 2 * n)
        out.append(fl)
        for _t, b in grp:
            out += b
    return bytes(out)


def name_field(f):
    """(bytes, flag, decoded name) for a packed file description."""
    name = f["name"]
    if f.get("uni"):
        if f.get("stdlow"):     # the usual name holds the low bytes, as of a code page
            std = bytes((ord(c) & 0xFF if ord(c) & 0xFF > 31 else 0x5F) for c in name)
        else:
            std = bytes((ord(c) if 32 <= ord(c) < 127 else 0x5F) for c in name)
        enc = encode_unicode(std, name, f.get("pick") or [0])
        return std + b"\0" + enc, 0x200, name
    b = name.encode("ascii")
    return b, 0, name


def ext_time(desc):
    """desc: list of 4 entries (mtime, ctime, atime, arctime), each None or
    {"t": dos, "sec": 0/1, "x": hex of 0..3 bytes}"""
    flags = 0
    body = b""
    for i, d in enumerate(desc):
        if d is None:
            continue
        x = bytes.fromhex(d["x"])
        n = 8 | (4 if d["sec"] else 0) | len(x)
        flags |= n << ((3 - i) * 4)
        if i > 0:
            body += struct.pack("<I", d["t"])
        body += x
    return struct.pack("<H", flags) + body


def file_header(f, packed, unpacked, crc, extra_flags, btype=0x74, tail=b""):
    nb, nflag, _ = name_field(f)
    flags = extra_flags | nflag
    if f.get("long", True):
        flags |= LONG
    if f.get("dir"):
        flags |= 0xE0
    else:
        flags |= (f.get("dict", 0) % 7) << 5
    flags |= f.get("xflags", 0)
    body = struct.pack("<IIBIIBBHI", packed & 0xFFFFFFFF, unpacked & 0xFFFFFFFF,
                       f.get("os", 2), crc & 0xFFFFFFFF, f.get("time", dostime()),
                       f.get("ver", 20), f.get("method", 0x30), len(nb), f.get("attr", 32))
    if f.get("large"):
        flags |= 0x100
        body += struct.pack("<II", packed >> 32, unpacked >> 32)
    body += nb
    if f.get("salt"):
        flags |= 0x400
        body += bytes.fromhex(f["salt"])
    if f.get("ext"):
        flags |= 0x1000
        body += ext_time(f["ext"])
    body += tail
    if f.get("fcmt"):     # old style embedded comment block (RAR 1.5/2.x)
        flags |= 0x08
        c = bytes.fromhex(f["fcmt"])
        cb = struct.pack("<BHHHBBH", 0x75, 0, 13 + len(c), len(c), 20, 0x30, crc16(c))
        body += struct.pack("<H", crc16(cb)) + cb + c
    return block(btype, flags, body)[0]


def sub_block(d):
    """Extra blocks: {"kind": ..., "c": hex}"""
    c = bytes.fromhex(d["h"])
    k = d["kind"]
    if k == "cmt":        # RAR 3 comment (stored)
        f = {"name": "CMT", "ver": 29, "attr": 0, "long": d.get("long", True)}
        return file_header(f, len(c), len(c), zlib.crc32(c), 0, 0x7A), c
    if k == "av":
        f = {"name": "AV", "ver": 29, "attr": 0, "long": d.get("long", True)}
        return file_header(f, len(c), len(c), zlib.crc32(c), 0, 0x7A), c
    if k == "acl":
        f = {"name": "ACL", "ver": 29, "attr": 0}
        return file_header(f, len(c), len(c), zlib.crc32(c), 0, 0x7A), c
    if k == "stm":
        f = {"name": "STM", "ver": 29, "attr": 0}
        return file_header(f, len(c), len(c), zlib.crc32(c), 0, 0x7A), c
    if k == "oldcmt":
        body = struct.pack("<HBBH", len(c), 20, 0x30, crc16(c)) + c
        return block(0x75, 0, body)
    if k == "oldav76":
        return block(0x76, LONG | 0x4000, struct.pack("<I", len(c)) + b"\0" * 3, c)
    if k == "oldsub77":
        return block(0x77, LONG, struct.pack("<IHB", len(c), d.get("st", 0x100), 0), c)
    if k == "sign79":
        return block(0x79, LONG, struct.pack("<I", len(c)) + b"sig", c)
    raise KeyError(k)


# --------------------------------------------------- recovery records -----
def rr_data(protected, nsect):
    """(crc table, parity sectors) over 512-byte sectors of `protected`."""
    n = (len(protected) + 511) // 512
    pad = protected + bytes(n * 512 - len(protected))
    crcs = bytearray()
    par = [0] * nsect
    for i in range(n):
        s = pad[i * 512:(i + 1) * 512]
        crcs += struct.pack("<H", (zlib.crc32(s) ^ 0xFFFFFFFF) & 0xFFFF)
        par[i % nsect] ^= int.from_bytes(s, "little")
    return bytes(crcs), b"".join(p.to_bytes(512, "little") for p in par), n


def rr_block(protected, rr):
    crcs, par, n = rr_data(protected, rr["n"])
    d = crcs + par
    if rr["style"] == "old":
        body = struct.pack("<IBHI", len(d), rr.get("ver", 20), rr["n"], n) + b"Protect!"
        return block(0x78, LONG if rr.get("long", True) else 0, body, d)
    f = {"name": "RR", "ver": 29, "attr": 0, "os": rr.get("os", 2),
         "long": rr.get("long", True)}
    tail = b"Protect+" + struct.pack("<IQ", rr["n"], n)
    crc = zlib.crc32(d, 0xF0000000)
    return file_header(f, len(d), len(d), crc, 0x4000, 0x7A, tail), d


# -------------------------------------------------------- volume names ----
def old_ext(i, upper=False):
    if i == 0:
        e = "rar"
    else:
        i -= 1
        e = "%s%02d" % (chr(ord("r") + i // 100), i % 100)
    return e.upper() if upper else e


def vol_names(s, count):
    base, nm, up = s["base"], s["naming"], s.get("upper", False)
    out = []
    for i in range(count):
        if nm == "old":
            out.append("%s.%s" % (base, old_ext(i, up)))
        elif nm == "num":
            out.append("%s.%03d" % (base, i + 1))
        elif nm == "single":
            out.append("%s.%s" % (base, "RAR" if up else "rar"))
        else:
            w = int(nm[4:])
            p = ".part%0*d.rar" % (w, i + 1)
            out.append(base + (p.upper() if up else p))
    return out


# ---------------------------------------------------------- set writer ----
class Volume:
    def __init__(self):
        self.name = None
        self.raw = bytearray()
        self.meta = bytearray()    # what an SRR must keep of this volume
        self.blocks = []           # (type, header bytes, data, keep_data)
        self.pieces = []           # (file index, offset, length)

    def add(self, hdr, data=b"", keep=True):
        self.blocks.append((hdr[2], hdr, data, keep))
        self.raw += hdr + data
        self.meta += hdr + (data if keep else b"")


def layout(s, sizes=None):
    """Distribute the files over volumes: [[(fi, off, len, before, after)]]"""
    caps = s.get("caps") or [1 << 40]
    vols, cur = [], []
    vi = 0
    left = max(1, caps[0])

    def nxt():
        nonlocal cur, vi, left
        vols.append(cur)
        cur = []
        vi += 1
        left = max(1, caps[min(vi, len(caps) - 1)])

    for fi, f in enumerate(s["files"]):
        n = sizes[fi] if sizes else 0 if f.get("dir") else f["c"]["n"]
        if n == 0:
            cur.append((fi, 0, 0, False, False))
            continue
        off = 0
        while off < n:
            if left == 0:
                nxt()
            k = min(left, n - off)
            cur.append((fi, off, k, off > 0, off + k < n))
            off += k
            left -= k
    vols.append(cur)
    return vols


def build(s, datas=None, packed=None):
    """s: JSON set description -> (list of Volume, {name: bytes} files)

    packed: what is stored for each file when it is not the file itself (compressed data)"""
    if datas is None:
        datas = [b"" if f.get("dir") else content.data(f["c"]) for f in s["files"]]
    if packed is None:
        packed = datas
    lay = layout(s, [len(p) for p in packed])
    multi = len(lay) > 1 or s.get("volflag", False)
    names = vol_names(s, len(lay)) if len(lay) > 1 or s["naming"] != "single" \
        else vol_names(s, 1)
    vols = []
    for vi, pieces in enumerate(lay):
        v = Volume()
        v.name = names[vi]
        v.add(MARKER)
        fl = s.get("mainflags", 0)
        if multi:
            fl |= 1
            if s["naming"].startswith("part"):
                fl |= 0x10
            if vi == 0 and s.get("firstflag", True):
                fl |= 0x100
            elif s.get("allfirst"):
                fl |= 0x100
        if s.get("rr"):
            fl |= 0x40
        body = struct.pack("<HI", s.get("res1", 0), s.get("res2", 0))
        for x in s.get("maincmt", []):
            h, d = sub_block({"kind": "oldcmt", "h": x})
            body += h + d
            fl |= 2
        v.add(block(0x73, fl, body)[0])
        for d in s.get("pre", []):
            v.add(*sub_block(d))
        for fi, off, k, bef, aft in pieces:
            f = s["files"][fi]
            part = packed[fi][off:off + k]
            crc = zlib.crc32(part) if aft else zlib.crc32(datas[fi])
            if aft and s.get("nopartcrc"):      # RAR 2.0x
                crc = 0xFFFFFFFF
            xf = (1 if bef else 0) | (2 if aft else 0)
            v.add(file_header(f, k, len(datas[fi]), crc, xf), part, keep=False)
            v.pieces.append((fi, off, k))
            if not aft:
                for d in f.get("after", []):
                    v.add(*sub_block(d))
        for d in s.get("post", []):
            v.add(*sub_block(d))
        last = vi == len(lay) - 1
        if s.get("rr"):
            h, d = rr_block(bytes(v.raw), s["rr"])
            v.add(h, d, keep=False)
        for d in s.get("postrr", []):
            v.add(*sub_block(d))
        end = s.get("end")
        if end == "p0w4":
            v.add(bytes(5) + b"\x14\0" + bytes(13))
        elif end:
            efl = 0x4000
            eb = b""
            if end in ("crc", "full"):
                efl |= 2
                eb += struct.pack("<I", zlib.crc32(bytes(v.raw)))
            if end in ("full", "num"):
                efl |= 8
                eb += struct.pack("<H", vi)
            if end == "full":
                efl |= 4
                eb += bytes(7)
            if not last:
                efl |= 1
            v.add(block(0x7B, efl, eb)[0])
        pad = s.get("pad")
        if pad and end and end != "p0w4":
            pd = content.data(pad)
            if pd:
                v.raw += pd
                v.meta += struct.pack("<HBHHI", 0x6C6C, 0x6C, LONG, 11, len(pd)) + pd
                v.blocks.append((0x6C, b"", pd, True))
        vols.append(v)
    files = {}
    for f, d in zip(s["files"], datas):
        if not f.get("dir"):
            files[f["name"].replace("\\", "/")] = d
    return vols, files


# ------------------------------------------------------------ SRR model ---
def srr_header(app):
    if app is None:
        return bytes.fromhex("69696900000700")
    a = app.encode("utf-8")
    return struct.pack("<HBHHH", 0x6969, 0x69, 1, 9 + len(a), len(a)) + a


def srr_stored(name, data):
    n = name.encode("utf-8")
    return struct.pack("<HBHHIH", 0x6A6A, 0x6A, LONG, 13 + len(n), len(data), len(n)) + n + data


def srr_rar(name, flags=1):
    n = name.encode("utf-8")
    return struct.pack("<HBHHH", 0x7171, 0x71, flags, 9 + len(n), len(n)) + n


def srr_oso(name, size, h):
    n = name.encode("utf-8")
    return struct.pack("<HBHHQQH", 0x6B6B, 0x6B, 0, 25 + len(n), size, int(h, 16), len(n)) + n


def parse_srr(b):
    """Independent minimal SRR reader: list of (type, start, header, data)."""
    out = []
    p = 0
    while p < len(b):
        if p + 7 > len(b):
            raise ValueError("short header at %d" % p)
        crc, t, fl, hs = struct.unpack_from("<HBHH", b, p)
        if hs < 7 or p + hs > len(b):
            raise ValueError("bad header size at %d" % p)
        h = b[p:p + hs]
        add = 0
        if t in (0x6A, 0x6C):
            add = struct.unpack_from("<I", h, 7)[0]
        elif t in (0x74,):
            add = 0
        elif t == 0x78:
            add = 0
        elif t == 0x7A:
            nl = struct.unpack_from("<H", h, 26)[0]
            if nl == 2 and h[32:34] == b"RR":
                add = 0
            else:
                add = struct.unpack_from("<I", h, 7)[0]
        elif fl & LONG:
            add = struct.unpack_from("<I", h, 7)[0]
        if p + hs + add > len(b):
            raise ValueError("short data at %d" % p)
        out.append((t, p, h, b[p + hs:p + hs + add]))
        p += hs + add
    return out


def name_of(t, h):
    o = {0x6A: 11, 0x71: 7, 0x6B: 23}[t]
    n = struct.unpack_from("<H", h, o)[0]
    return h[o + 2:o + 2 + n].decode("utf-8")


def srr_view(b):
    """{"app", "stored": [(name, data)], "rars": [(name, meta bytes)], "oso": []}"""
    v = {"app": None, "stored": [], "rars": [], "oso": [], "order": []}
    cur = None
    for t, _p, h, d in parse_srr(b):
        if t == 0x69:
            if struct.unpack_from("<H", h, 3)[0] & 1:
                n = struct.unpack_from("<H", h, 7)[0]
                v["app"] = h[9:9 + n].decode("utf-8")
            v["order"].append("h")
        elif t == 0x6A:
            v["stored"].append((name_of(t, h), d))
            v["order"].append("s")
            cur = None
        elif t == 0x71:
            cur = bytearray()
            v["rars"].append([name_of(t, h), cur, struct.unpack_from("<H", h, 3)[0]])
            v["order"].append("r")
        elif t == 0x6B:
            v["oso"].append((name_of(t, h), struct.unpack_from("<Q", h, 7)[0],
                             "%016x" % struct.unpack_from("<Q", h, 15)[0]))
            v["order"].append("o")
        else:
            if cur is None:
                raise ValueError("RAR block %02x outside a volume" % t)
            cur += h + d
    v["rars"] = [(n, bytes(m), f) for n, m, f in v["rars"]]
    return v
