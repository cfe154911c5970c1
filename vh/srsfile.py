"""Independent reading and writing of SRS records (ReSample file format).

file record : flags u16, app length u16, app, name length u16, name, size u64, crc u32
track record: flags u16, number u16 (u32 with flag 8), length u32 (u64 with flag 4),
              match offset u64, signature length u16, signature
"""
import struct

ENV = ("riff", "ebml", "mov", "asf", "flac", "mp3", "stream")
OF = {"avi": "riff", "mkv": "ebml", "mp4": "mov", "wmv": "asf", "flac": "flac", "mp3": "mp3", "stream": "stream"}


class Bad(Exception):
    pass


def need(c, msg):
    if not c:
        raise Bad(msg)


def file_record(b):
    flags, n = struct.unpack_from("<HH", b)
    app = b[4:4 + n]
    (k,) = struct.unpack_from("<H", b, 4 + n)
    name = b[6 + n:6 + n + k]
    size, crc = struct.unpack_from("<QL", b, 6 + n + k)
    need(len(b) == 18 + n + k, "file record of %d bytes" % len(b))
    return {"flags": flags, "app": app.decode(), "name": name.decode(), "size": size, "crc": crc}


def track_record(b):
    (flags,) = struct.unpack_from("<H", b)
    f = "<L" if flags & 8 else "<H"
    (no,) = struct.unpack_from(f, b, 2)
    p = 2 + struct.calcsize(f)
    f = "<QQH" if flags & 4 else "<LQH"
    n, off, k = struct.unpack_from(f, b, p)
    p += struct.calcsize(f)
    need(len(b) == p + k, "track record of %d bytes, %d used" % (len(b), p + k))
    return {"flags": flags, "no": no, "len": n, "off": off, "sig": b[p:]}


def make_file(r):
    a, n = r["app"].encode(), r["name"].encode()
    return struct.pack("<HH", r["flags"], len(a)) + a + struct.pack("<H", len(n)) + n + struct.pack("<QL", r["size"], r["crc"])


def make_track(r):
    return (struct.pack("<H", r["flags"]) + struct.pack("<L" if r["flags"] & 8 else "<H", r["no"]) +
            struct.pack("<QQH" if r["flags"] & 4 else "<LQH", r["len"], r["off"], len(r["sig"])) + r["sig"])


def vint(b, p):
    w = 1
    while not b[p] & (0x80 >> (w - 1)):
        w += 1
        need(w < 9, "vint")
    return int.from_bytes(b[p:p + w], "big") & ((1 << 7 * w) - 1), p + w


def mkvint(n):
    for w in range(1, 9):
        if n < (1 << 7 * w) - 1:
            return (n | 1 << 7 * w).to_bytes(w, "big")


def pad(env, b):
    """RIFF chunks start at even positions."""
    return b + bytes(len(b) % 2) if env == "riff" else b


def wrap(env, kind, data):
    """kind: 'F' file, 'T' track, 'P' fingerprint"""
    n = len(data)
    if env == "riff":
        return pad(env, {"F": b"SRSF", "T": b"SRST"}[kind] + n.to_bytes(4, "little") + data)
    if env == "ebml":
        return {"F": b"\x6a\x75", "T": b"\x6b\x75"}[kind] + mkvint(n) + data
    if env == "mov":
        return (n + 8).to_bytes(4, "big") + {"F": b"SRSF", "T": b"SRST"}[kind] + data
    if env == "asf":
        return {"F": b"SRSF" * 4, "T": b"SRST" * 4}[kind] + (n + 24).to_bytes(8, "little") + data
    if env == "flac":
        return {"F": b"s", "T": b"t", "P": b"u"}[kind] + n.to_bytes(3, "big") + data
    return {"F": b"SRSF", "T": b"SRST", "P": b"SRSP"}[kind] + (n + 8).to_bytes(4, "little") + data


def records(env, b, p, end=None):
    """The consecutive records from position p: [(kind, data)], next position."""
    out = []
    end = len(b) if end is None else end
    while p < end:
        if env == "riff":
            k, n, h = b[p:p + 4], int.from_bytes(b[p + 4:p + 8], "little"), 8
        elif env == "ebml":
            k = b[p:p + 2]
            if k not in (b"\x6a\x75", b"\x6b\x75"):
                break
            n, q = vint(b, p + 2)
            h = q - p
        elif env == "mov":
            k, n, h = b[p + 4:p + 8], int.from_bytes(b[p:p + 4], "big") - 8, 8
        elif env == "asf":
            k, n, h = b[p:p + 16], int.from_bytes(b[p + 16:p + 24], "little") - 24, 24
        elif env == "flac":
            k, n, h = b[p:p + 1], int.from_bytes(b[p + 1:p + 4], "big"), 4
        else:
            k, n, h = b[p:p + 4], int.from_bytes(b[p + 4:p + 8], "little") - 8, 8
        kind = {b"SRSF": "F", b"SRST": "T", b"SRSP": "P", b"\x6a\x75": "F", b"\x6b\x75": "T", b"SRSF" * 4: "F", b"SRST" * 4: "T",
                b"s": "F", b"t": "T", b"u": "P"}.get(k)
        if kind is None:
            break
        need(n >= 0 and p + h + n <= end, "record past the end")
        out.append((kind, b[p + h:p + h + n]))
        p += h + n
        if env == "riff" and p < end:
            p += n % 2
    return out, p


def find(env, b):
    """Position of the first record of an SRS file."""
    if env == "flac":
        p = b.find(b"fLaC")
        need(p >= 0, "no fLaC")
        return p + 4
    if env == "ebml":
        p = b.find(b"\x1f\x69\x75\x76")
        need(p >= 0, "no ReSample element")
        _n, q = vint(b, p + 4)
        return q
    if env == "stream":
        need(b[:8] == b"STRM\x08\0\0\0", "marker")
        return 8
    p = b.find(b"SRSF" * 4 if env == "asf" else b"SRSF")
    need(p >= 0, "no SRSF")
    return p - 4 if env == "mov" else p


def parse(env, b):
    recs, p = records(env, b, find(env, b))
    files = [file_record(d) for k, d in recs if k == "F"]
    need(len(files) == 1 and recs[0][0] == "F", "%d file records" % len(files))
    tracks = [track_record(d) for k, d in recs if k == "T"]
    fps = []
    for k, d in recs:
        if k == "P":
            dur, n = struct.unpack_from("<LL", d)
            need(len(d) == 8 + n, "fingerprint record")
            fps.append((dur, d[8:]))
    need(len({t["no"] for t in tracks}) == len(tracks), "duplicate track record")
    if env == "ebml":
        q = b.find(b"\x1f\x69\x75\x76")
        n, s = vint(b, q + 4)
        need(s + n == p, "ReSample element size")
    return files[0], {t["no"]: t for t in tracks}, fps
