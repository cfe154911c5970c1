"""Well-formed media containers built from small JSON descriptions.

A case describes a "movie": per track the sizes of its frames.  The main file
muxes all frames, the sample muxes a contiguous run of frames of each track,
both with their own layout.  build(case) returns an M with the bytes and the
facts an SRS must record.
"""
import random, re, struct
from hypothesis import strategies as st
from vh import content


class M:
    """sample, main: bytes; tracks: {number: stream bytes of the sample};
    full: {number: stream bytes of the main file}"""


def le(n, v):
    return v.to_bytes(n, "little")


def be(n, v):
    return v.to_bytes(n, "big")


def rnd(n, s):
    return random.Random(s).randbytes(n)


# ------------------------------------------------------------- streams ----
def frames_of(t):
    """The frames (bytes) of one track description."""
    sizes = t["fr"]
    r = random.Random("%s/%s" % (t["s"], t["k"]))
    head = r.randbytes(t.get("head", 0))
    total = sum(sizes)
    k = t["k"]
    if k == "hi":
        body = bytes(b | 0x80 for b in r.randbytes(total))
    elif k == "asc":
        body = bytes(b & 0x7f for b in r.randbytes(total))
    elif k == "low":
        body = bytes(b & 3 for b in r.randbytes(total))
    else:
        body = r.randbytes(total)
    out, p = [], 0
    for n in sizes:
        f = body[p:p + n]
        out.append(head[:n] + f[min(len(head), n):])
        p += n
    return out


def resplit(frames, sizes):
    """The same bytes cut into other pieces."""
    if not sizes or not any(sizes):
        return frames
    data = b"".join(frames)
    out, p, i = [], 0, 0
    while p < len(data):
        n = sizes[i % len(sizes)]
        i += 1
        out.append(data[p:p + n])
        p += n
    return out


def interleave(tracks, mix):
    """tracks: [(number, [frames])] -> [(number, frame)]"""
    pos = [0] * len(tracks)
    out, i = [], 0
    mix = mix or [0]
    left = sum(len(f) for _, f in tracks)
    while left:
        k = mix[i % len(mix)] % len(tracks)
        i += 1
        for j in range(len(tracks)):
            q = (k + j) % len(tracks)
            if pos[q] < len(tracks[q][1]):
                out.append((tracks[q][0], tracks[q][1][pos[q]]))
                pos[q] += 1
                left -= 1
                break
    return out


def plan(c):
    """Common part: m.full / m.tracks and frame lists of both files."""
    m = M()
    m.full, m.tracks, m.fmain, m.fsample, m.start = {}, {}, [], [], {}
    for t in c["tracks"]:
        fr = frames_of(t)
        no = t["no"]
        m.full[no] = b"".join(fr)
        m.fmain.append((no, resplit(fr, t.get("msplit"))))
        if t.get("only"):        # a track the sample does not have
            continue
        a = t["a"] % (len(fr) + 1)
        b = a + t["b"] % (len(fr) - a + 1)
        part = fr[a:b]
        m.start[no] = sum(len(f) for f in fr[:a])
        cut = t.get("cut", [0, 0])
        if part and cut[0] and len(part[0]) > 1:
            n = cut[0] % len(part[0])
            m.start[no] += n
            part[0] = part[0][n:]
        if part and cut[1] and len(part[-1]) > 1:
            part[-1] = part[-1][:len(part[-1]) - cut[1] % len(part[-1])]
        m.tracks[no] = b"".join(part)
        m.fsample.append((no, resplit(part, t.get("ssplit"))))
    m.uniq = {no: unique(m, no) for no in m.tracks}
    return m


def unique(m, no, sig=256):
    """The start of the sample's stream occurs once in the main stream."""
    s = m.tracks[no][:sig]
    return not s or (m.full[no].find(s) == m.start[no] and m.full[no].find(s, m.start[no] + 1) < 0)


# ----------------------------------------------------------------- AVI ----
def chunk(cc, data, pad=0):
    return cc + le(4, len(data)) + data + (bytes([pad]) if len(data) % 2 else b"")


def avi_mux(order, o, tracks):
    """order: [(no, frame)]. o: layout."""
    pad = o.get("pad", 0)
    types = [b"dc", b"wb", b"db", b"tx", b"pc", b"AB"]
    strl = b""
    for no, _ in tracks:
        strl += riff_list(b"strl", chunk(b"strh", rnd(56, no)) + chunk(b"strf", rnd(o.get("strf", 41), no), pad))
    hdrl = riff_list(b"hdrl", chunk(b"avih", rnd(56, 1)) + strl)
    pre = riff_list(b"INFO", chunk(b"ISFT", b"muxer\0x", pad)) if o.get("info") else b""
    junk = chunk(b"JUNK", rnd(o.get("junk", 0), 7), pad) if o.get("junk") else b""
    rec = o.get("rec", 0)
    parts = [order]
    if o.get("avix") and len(order) > 1:
        k = 1 + o["avix"] % (len(order) - 1)
        parts = [order[:k], order[k:]]
    out = b""
    for pi, part in enumerate(parts):
        movi, idx, group = b"", [], b""
        ng = 0
        for i, (no, f) in enumerate(part):
            cc = b"%02d" % no + types[(no + o.get("ty", 0)) % len(types)]
            ch = chunk(cc, f, pad)
            base = 4 + len(movi) + (12 + len(group) if rec else 0)
            idx.append((cc, base, len(f)))
            if rec:
                group += ch
                ng += 1
                if ng >= rec or i == len(part) - 1:
                    movi += riff_list(b"rec ", group)
                    group, ng = b"", 0
            else:
                movi += ch
            if o.get("mid") and i % o["mid"] == 0 and not rec:
                movi += chunk([b"JUNK", b"ix00", b"id x", b"ix01"][i % 4], rnd(i % 9, i), pad)
        body = (hdrl + pre + junk) if pi == 0 else b""
        start = len(out) + 12 + len(body)      # position of LIST movi
        movil = riff_list(b"movi", movi)
        body += movil
        kind = o.get("idx", "rel")
        if kind != "none" and (pi == 0):
            off = start + 8 if kind == "abs" else 0
            if kind == "short":
                idx = idx[:1 + len(idx) // 2]
            elif kind == "bad":     # an index that points nowhere useful
                idx = [(cc, p + 4, n) for cc, p, n in idx]
                sofar = b"RIFFRIFFAVI " + body
                if any(CCRE.match(sofar[q:q + 4]) for _, p, _ in idx for q in (p, start + 8 + p)):
                    idx = []
            body += chunk(b"idx1", b"".join(cc + le(4, 16) + le(4, p + off) + le(4, n) for cc, p, n in idx))
        if o.get("tail") and pi == len(parts) - 1:
            body += chunk(b"JUNK", rnd(o["tail"], 3), pad)
        size = len(body) + 4
        if o.get("rsize") == "zero":
            size = 0
        elif o.get("rsize") == "big":
            size += 1000
        out += b"RIFF" + le(4, size) + (b"AVI " if pi == 0 else b"AVIX") + body
    return out


CCRE = re.compile(b"[ 0-9A-Za-z]{4}$")


def riff_list(name, body):
    return b"LIST" + le(4, len(body) + 4) + name + body


def avi_build(c):
    m = plan(c)
    m.main = avi_mux(interleave(m.fmain, c["main"].get("mix")), c["main"], m.fmain)
    m.sample = avi_mux(interleave(m.fsample, c["smp"].get("mix")), c["smp"], m.fsample)
    # only streams that have a chunk exist in the file
    m.present = [no for no, f in m.fsample if f]
    return m


# ----------------------------------------------------------------- MKV ----
def vint(n, width=0):
    for w in range(1, 9):
        if n < (1 << (7 * w)) - 1 and w >= width:
            return be(w, n | (1 << (7 * w)))
    raise ValueError(n)


def el(eid, data, width=0):
    return bytes.fromhex(eid) + vint(len(data), width) + data


def uint(n, width=0):
    return be(max(width, (n.bit_length() + 7) // 8, 1), n)


def lace(frames, kind):
    """Lace header and total for a group of frames (kind 1 xiph, 2 fixed, 3 ebml)."""
    sizes = [len(f) for f in frames]
    h = bytes([len(frames) - 1])
    if kind == 1:
        for n in sizes[:-1]:
            h += b"\xff" * (n // 255) + bytes([n % 255])
    elif kind == 3:
        if len(sizes) > 1:
            h += vint(sizes[0])
            for a, b in zip(sizes, sizes[1:-1]):
                d = b - a
                for w in range(1, 8):
                    bias = (1 << (7 * w - 1)) - 1
                    if -bias <= d <= bias:
                        h += be(w, (d + bias) | (1 << (7 * w)))
                        break
    return h + b"".join(frames)


def mkv_mux(order, o, c, tracks, attach, strip):
    w = o.get("w", 0)
    tr = b""
    for no, _ in tracks:
        e = el("D7", uint(no, o.get("tnw", 0)), w) + el("73C5", uint(no + 1000)) + el("83", b"\x01") + el("86", b"V_TEST/%d" % no, w)
        if strip.get(no):
            h = strip[no]
            comp = el("4254", b"\x03") + el("4255", h)
            e += el("6D80", el("6240", el("5031", b"\x00") + el("5033", b"\x00") + el("5034", comp, w), w), w)
        if o.get("tfirst") == 0:
            e += el("EC", bytes(3))
        tr += el("AE", e, w)
    body = b""
    if o.get("seek"):
        body += el("114D9B74", el("4DBB", el("53AB", bytes.fromhex("1549A966")) + el("53AC", b"\x40")), w)
    if o.get("void"):
        body += el("EC", rnd(o["void"], 5), w)
    body += el("1549A966", el("2AD7B1", uint(1000000)) + el("7BA9", b"title") + el("4D80", b"libx"), w)
    body += el("1654AE6B", tr, w)
    att = b""
    for name, data in attach:
        att += el("61A7", (el("467E", b"desc") if o.get("seek") else b"") + el("466E", name.encode()) + el("4660", b"font/x") + el("465C", data, w) + el("46AE", b"\x01\x02"), w)
    if attach:
        body += el("1941A469", att, w)
    per = o.get("per", 3) or 1
    laces = o.get("lace", [0]) or [0]
    i = g = 0
    cl = b""
    nb = 0
    while i < len(order):
        no, f = order[i]
        kind = laces[g % len(laces)] % 4
        g += 1
        group = [f]
        i += 1
        if kind:
            while i < len(order) and order[i][0] == no and len(group) < 5 and (kind != 2 or len(order[i][1]) == len(f)):
                group.append(order[i][1])
                i += 1
        flags = {0: 0, 1: 2, 2: 4, 3: 6}[kind] | (0x80 if g % 2 else 0)
        st_ = strip.get(no, b"")
        out = [x[len(st_):] for x in group]
        head = vint(no, o.get("bw", 0)) + be(2, g % 65536) + bytes([flags])
        data = head + (lace(out, kind) if kind else out[0])
        if o.get("bg") and g % o["bg"] == 0:
            cl += el("A0", el("A1", data, w) + el("9B", b"\x28"), w)
        else:
            cl += el("A3", data, w)
        nb += 1
        if nb >= per or i == len(order):
            body += el("1F43B675", el("E7", uint(g)) + (el("AB", b"\x10") if o.get("seek") else b"") + cl, o.get("cw", w))
            cl, nb = b"", 0
    if o.get("cues"):
        body += el("1C53BB6B", el("BB", el("B3", b"\x00")), w)
    if o.get("tags"):
        body += el("1254C367", rnd(o["tags"], 9), w)
    ebml = el("1A45DFA3", el("4286", b"\x01") + el("4282", b"matroska"), w)
    return ebml + el("18538067", body, o.get("segw", w))


def mkv_build(c):
    m = plan(c)
    strips, m.settings = [], {}
    for side in ("main", "smp"):
        s = {}
        for t in c["tracks"]:
            n = t.get("strip", {}).get(side, 0)
            head = random.Random("%s/%s" % (t["s"], t["k"])).randbytes(t.get("head", 0))
            n = max(0, min([n, len(head)] + [s - 1 for s in t["fr"]]))
            if n and not t.get("ssplit"):
                s[t["no"]] = head[:n]
        strips.append(s)
    att = [(n, content.data(d)) for n, d in c.get("att", [])]
    matt = att + [(n, content.data(d)) for n, d in c.get("matt", [])]
    m.main = mkv_mux(interleave(m.fmain, c["main"].get("mix")), c["main"], c, m.fmain, matt, strips[0])
    m.sample = mkv_mux(interleave(m.fsample, c["smp"].get("mix")), c["smp"], c, m.fsample, att, strips[1])
    # the recorded stream is what is stored in the blocks
    for no, fr in m.fsample:
        n = len(strips[1].get(no, b""))
        m.tracks[no] = b"".join(f[n:] for f in fr)
    m.pieces = {}
    for t, (no, fr) in zip(c["tracks"], m.fmain):
        n = len(strips[1].get(no, b""))
        m.full[no] = b"".join(f[n:] for f in fr)
        m.pieces[no], p = [], 0
        for f in fr:
            m.pieces[no].append((p, len(f) - n))
            p += len(f) - n
        if no in m.start:
            m.start[no] = sum(len(f) - n for f in fr[:t["a"] % (len(fr) + 1)])
    m.uniq = {no: unique(m, no) for no in m.tracks}
    m.strips = strips
    m.present = [no for no, _ in m.fsample]
    return m


# ----------------------------------------------------------------- MP4 ----
def atom(cc, data, big=False):
    if big:
        return be(4, 1) + cc + be(8, len(data) + 16) + data
    return be(4, len(data) + 8) + cc + data


def mp4_mux(order, o, tracks):
    """order: [(no, chunk as list of frames)]"""
    ftyp = atom(b"ftyp", b"isom" + be(4, 512) + b"isomiso2mp41")
    pre = ftyp + (atom(b"free", rnd(o["free"], 1)) if o.get("free") else b"") + (bytes(8) if o.get("null8") else b"")
    post = atom(b"udta", rnd(o["udta"], 2)) if o.get("udta") else b""
    head = 16 if o.get("big") else 8
    datalen = sum(len(f) for _, ch in order for f in ch)

    def moov(start):
        out = atom(b"mvhd", bytes(100))
        p = start
        offs = {no: [] for no, _ in tracks}
        for no, ch in order:
            offs[no].append((p, ch))
            p += sum(len(f) for f in ch)
        for no, _ in tracks:
            chs = offs[no]
            sizes = [len(f) for _, ch in chs for f in ch]
            v1 = o.get("tkv1")
            tkhd = (b"\x01\0\0\7" + be(8, 5000 + no) + be(8, 6000 + no) + be(4, no) + bytes(72) if v1 else
                    b"\0\0\0\7" + be(4, 5000 + no % 1000) + be(4, 6000 + no % 1000) + be(4, no) + bytes(68))
            runs = []
            for i, (_, ch) in enumerate(chs):
                if not runs or runs[-1][1] != len(ch) or o.get("stscfull"):
                    runs.append((i + 1, len(ch)))
            stsc = bytes(4) + be(4, len(runs)) + b"".join(be(4, a) + be(4, b) + be(4, 1) for a, b in runs)
            if sizes and len(set(sizes)) == 1 and sizes[0] and o.get("fixed", 1):
                stsz = bytes(4) + be(4, sizes[0]) + be(4, len(sizes))
            else:
                stsz = bytes(8) + be(4, len(sizes)) + b"".join(be(4, n) for n in sizes)
            if o.get("co64"):
                co = atom(b"co64", bytes(4) + be(4, len(chs)) + b"".join(be(8, q) for q, _ in chs))
            else:
                co = atom(b"stco", bytes(4) + be(4, len(chs)) + b"".join(be(4, q) for q, _ in chs))
            parts = [atom(b"stsd", rnd(20, no)), atom(b"stts", bytes(8)), atom(b"stsc", stsc), atom(b"stsz", stsz), co]
            k = o.get("ord", 0) % 5
            parts = parts[k:] + parts[:k]
            stbl = atom(b"stbl", b"".join(parts), o.get("big2"))
            minf = atom(b"minf", atom(b"vmhd", bytes(12)) + atom(b"dinf", bytes(28)) + stbl)
            mdia = atom(b"mdia", atom(b"mdhd", bytes(24)) + atom(b"hdlr", b"\0\0\0\0mhlrvide\0") + minf)
            out += atom(b"trak", atom(b"tkhd", tkhd) + (atom(b"edts", bytes(16)) if o.get("edts") else b"") + mdia)
        return atom(b"moov", out + post)

    data = b"".join(f for _, ch in order for f in ch)
    if o.get("last"):            # mdat before moov
        start = len(pre) + head
        mo = moov(start)
        mdat = atom(b"mdat", data, o.get("big"))
        return pre + mdat + mo
    n = len(moov(0))
    start = len(pre) + n + head
    mo = moov(start)
    assert len(mo) == n
    if o.get("zero"):            # mdat up to the end of the file
        mdat = be(4, 0) + b"mdat" + data
        return pre + moov(len(pre) + n + 8) + mdat
    mdat = atom(b"mdat", data, o.get("big"))
    end = atom(b"free", rnd(o["end"], 4)) if o.get("end") else b""
    return pre + mo + mdat + end


def group(frames, sizes):
    out, i, k = [], 0, 0
    sizes = [n for n in (sizes or []) if n > 0] or [1]
    while i < len(frames):
        n = sizes[k % len(sizes)]
        k += 1
        out.append(frames[i:i + n])
        i += n
    return out


def mp4_build(c):
    m = plan(c)
    for side, fr in (("main", m.fmain), ("smp", m.fsample)):
        o = c[side]
        order = interleave([(no, group(f, o.get("chunk"))) for no, f in fr], o.get("mix"))
        setattr(m, "main" if side == "main" else "sample", mp4_mux(order, o, fr))
    m.present = [no for no, _ in m.fsample]
    return m


# ----------------------------------------------------------------- WMV ----
G_HEADER = bytes.fromhex("3026B2758E66CF11A6D900AA0062CE6C")
G_DATA = bytes.fromhex("3626B2758E66CF11A6D900AA0062CE6C")
G_STREAM = bytes.fromhex("9107DCB7B7A9CF118EE600C00C205365")
G_FILE = bytes.fromhex("A1DCAB8C47A9CF118EE400C00C205365")
G_INDEX = bytes.fromhex("90080033B1E5CF1189F400A0C90349CB")


def obj(guid, data):
    return guid + le(8, len(data) + 24) + data


def wmv_packets(order, o):
    """Split frames into fixed size packets. Returns (packets, payload list)."""
    ps = max(80, o.get("psize", 200))
    modes = o.get("modes", [0]) or [0]
    q = [[no, f, i, 0] for i, (no, f) in enumerate(order)]
    packets, k = [], 0
    pieces = {}
    def put(no, n):
        q = pieces.setdefault(no, [])
        q.append((sum(x[1] for x in q), n))
    r = random.Random(o.get("ps", 0))
    while q or not packets:
        mode = modes[k % len(modes)] % 4
        k += 1
        lt = o.get("lentype", 0)          # packet length field
        st_ = o.get("seqtype", 0)
        pt = [1, 2, 3, 2][o.get("padtype", 0) % 4]
        multi = mode != 0
        flags = (1 if multi else 0) | (st_ << 1) | (lt << 5)
        lens = {0: 0, 1: 1, 2: 2, 3: 4}
        hl = 3 + 2 + lens[lt] + lens[st_] + 6 + (1 if multi else 0)
        space = ps - hl - lens[pt]
        body, cnt = b"", 0
        while q and cnt < (6 if multi else 1):
            no, f, num, off = q[0]
            rest = f[off:]
            sb = bytes([no | (0x80 if num % 2 else 0)])
            if mode == 3 and cnt == 0 and len(rest) <= 200 and off == 0:
                # compressed payload: several whole frames of one stream
                over = 1 + 1 + 4 + 1 + 1 + 2
                subs = b""
                j = 0
                while j < len(q) and j < 4 and q[j][0] == no and q[j][3] == 0 and len(q[j][1]) < 256 and over + len(subs) + 1 + len(q[j][1]) <= space - len(body):
                    subs += bytes([len(q[j][1])]) + q[j][1]
                    put(no, len(q[j][1]))
                    j += 1
                if j:
                    body += sb + bytes([num & 255]) + le(4, 1000 + num) + b"\x01" + b"\x05" + le(2, len(subs)) + subs
                    del q[:j]
                    cnt += 1
                    continue
            over = 1 + 1 + 4 + 1 + 8 + (2 if multi else 0)
            room = space - len(body) - over
            if room < 1 and (body or len(rest)):
                break
            part = rest[:room]
            body += sb + bytes([num & 255]) + le(4, off) + b"\x08" + le(4, len(f)) + le(4, num) + (le(2, len(part)) if multi else b"") + part
            put(no, len(part))
            cnt += 1
            if len(part) < len(rest):
                q[0][3] += len(part)
            else:
                q.pop(0)
        if cnt == 0:
            if q:
                # cannot happen: a packet always fits one byte
                raise ValueError("packet too small")
            # a file needs at least one packet: an empty payload of stream 1
            multi = False
            flags &= ~1
            hl = 3 + 2 + lens[lt] + lens[st_] + 6
            space = ps - hl - lens[pt]
            body = bytes([o.get("first", 1)]) + b"\0" + le(4, 0) + b"\x08" + bytes(8)
        pad = space - len(body)
        shrink = 0
        if pad == 0 and o.get("nopad", 1):
            usept, padfield = 0, b""
            # no padding field: its bytes must be filled otherwise
            pad = lens[pt]
            if lt and lens[lt] >= 2:
                shrink = pad            # packet length smaller than the packet size
                flagspt = 0
            else:
                flagspt = pt << 3
                padfield = le(lens[pt], 0)
                pad = 0
        else:
            flagspt = pt << 3
            if pt == 1 and pad > 255:
                flagspt = 2 << 3
                padfield = le(2, pad - 1)
                pad -= 1
            else:
                padfield = le(lens[pt], pad)
        plen = le(lens[lt], ps - shrink) if lt else b""
        if lt == 1 and ps > 255:
            raise ValueError("packet length field")
        pk = b"\x82\0\0" + bytes([flags | flagspt, 0x5D]) + plen + bytes([k & 255] * lens[st_]) + padfield + le(4, k) + le(2, 20)
        if multi:
            pk += bytes([cnt | 0x80])
        pk += body
        n = ps - len(pk)
        pk += r.randbytes(n) if o.get("padrand") else bytes(n)
        assert len(pk) == ps, (len(pk), ps, mode, flags)
        packets.append(pk)
    return packets, ps, pieces


def wmv_mux(order, o, tracks):
    packets, ps, pieces = wmv_packets(order, o)
    data = G_DATA + le(8, 50 + ps * len(packets)) + rnd(16, 3) + le(8, len(packets)) + b"\x01\x01" + b"".join(packets)
    tail = obj(G_INDEX, rnd(o["index"], 6)) if o.get("index") else b""

    def header(total):
        subs = [obj(G_FILE, rnd(16, 3) + le(8, total) + le(8, 1) + le(8, len(packets)) + bytes(24) + le(4, 2) + le(4, ps) + le(4, ps) + le(4, 999))]
        for no, _ in tracks:
            subs.append(obj(G_STREAM, rnd(32, no) + bytes(8) + le(4, 4) + le(4, 0) + le(2, no) + bytes(4) + rnd(4, no)))
        if o.get("ext"):
            subs.insert(1, obj(rnd(16, 77), rnd(o["ext"], 8)))
        body = b"".join(subs)
        return G_HEADER + le(8, 30 + len(body)) + le(4, len(subs)) + b"\x01\x02" + body
    n = len(header(0))
    return header(n + len(data) + len(tail) + o.get("fsoff", 0)) + data + tail, pieces


def wmv_build(c):
    m = plan(c)
    for side, fr in (("main", m.fmain), ("smp", m.fsample)):
        o = dict(c[side])
        o["first"] = fr[0][0] if fr else 1
        if o.get("lentype") == 1:
            o["psize"] = min(255, o.get("psize", 200))
        order = interleave(fr, o.get("mix"))
        raw, pieces = wmv_mux(order, o, fr)
        setattr(m, "main" if side == "main" else "sample", raw)
        if side == "main":
            m.pieces = pieces
    m.present = [no for no, _ in m.fsample]
    return m


# ---------------------------------------------------------------- FLAC ----
def id3v2(d):
    n = d["n"]
    body = content.data(d)
    size = bytes((n >> s) & 0x7f for s in (21, 14, 7, 0))
    return b"ID3\x03\0\0" + size + body


def id3v1(s):
    return b"TAG" + rnd(125, s)


def flac_file(audio, o):
    out = b"".join(id3v2(d) for d in o.get("id3", []))
    out += b"fLaC"
    blocks = [(0, rnd(34, 2))] + [(b["t"], content.data(b["c"])) for b in o.get("blocks", [])]
    for i, (t, d) in enumerate(blocks):
        out += bytes([t | (0x80 if i == len(blocks) - 1 else 0)]) + be(3, len(d)) + d
    out += audio
    if o.get("v1") is not None:
        out += id3v1(o["v1"])
    return out


def flac_build(c):
    m = M()
    audio = b"\xff\xf8" + content.data(c["audio"])
    m.sample, m.main = flac_file(audio, c["smp"]), flac_file(audio, c["main"])
    m.tracks, m.full, m.start, m.present = {1: audio}, {1: audio}, {1: 0}, [1]
    return m


# ----------------------------------------------------------------- MP3 ----
def ape(d, version):
    items = content.data(d)
    size = len(items) + 32
    foot = lambda flags: b"APETAGEX" + le(4, version) + le(4, size) + le(4, 1) + le(4, flags) + bytes(8)
    return (foot(0xA0000000) if version == 2000 else b"") + items + foot(0x80000000)


def mp3_file(audio, o):
    out = b"".join(id3v2(d) for d in o.get("id3", []))
    out += content.data(o["junk"]) if o.get("junk") else b""
    out += audio
    for a in o.get("ape", []):
        out += ape(a["c"], a["v"])
    if o.get("lyr1") is not None:
        out += b"LYRICSBEGIN" + content.data(o["lyr1"]) + b"LYRICSEND"
    if o.get("lyr2") is not None:
        body = b"LYRICSBEGIN" + content.data(o["lyr2"])
        out += body + b"%06d" % len(body) + b"LYRICS200"
    if o.get("v1") is not None:
        out += id3v1(o["v1"])
    return out


def mp3_build(c):
    m = M()
    d = content.data(c["audio"])
    audio = b"RIFF" + le(4, len(d)) + d if c.get("riff") else b"\xff\xfb" + d
    m.sample, m.main = mp3_file(audio, c["smp"]), mp3_file(audio, c["main"])
    m.tracks, m.full, m.start, m.present = {1: audio}, {1: audio}, {1: 0}, [1]
    return m


# -------------------------------------------------------------- streams ----
def stream_build(c):
    m = M()
    main = b"\0\0\x01\xba" + content.data(c["main"])
    a = c["a"] % len(main)
    n = 1 + c["n"] % (len(main) - a)
    m.main, m.sample = main, main[a:a + n]
    m.tracks, m.full, m.start, m.present = {1: m.sample}, {1: main}, {1: a}, [1]
    return m


BUILD = {"avi": avi_build, "mkv": mkv_build, "mp4": mp4_build, "wmv": wmv_build, "flac": flac_build, "mp3": mp3_build, "stream": stream_build}


def build(c):
    return BUILD[c["fmt"]](c)


# ----------------------------------------------------------- strategies ----
SIZE = st.one_of(st.integers(0, 40), st.integers(1, 400), st.integers(1, 1200), st.sampled_from([255, 256, 257, 512, 511, 1, 2, 0, 64]))
SPLIT = st.one_of(st.just(None), st.lists(st.integers(1, 700), min_size=1, max_size=4))
MIX = st.lists(st.integers(0, 3), max_size=6)


@st.composite
def track(draw, no, maxfr=10, kinds=("rand", "rand", "rand", "hi", "asc"), cut=False, heads=True, zero=True, minfr=1):
    t = {"no": no, "s": draw(st.integers(0, 999)), "k": draw(st.sampled_from(kinds)),
         "fr": draw(st.lists(SIZE, min_size=minfr, max_size=maxfr))}
    tiny = draw(st.integers(0, 6)) == 0
    if tiny:        # many small frames: the first 256 bytes of a track span a lot of them
        t["fr"] = draw(st.lists(st.integers(0, 40), min_size=20, max_size=60))
    if not zero:
        t["fr"] = [max(1, n) for n in t["fr"]]
    if heads and draw(st.integers(0, 2)) == 0:
        t["head"] = draw(st.sampled_from([1, 4, 20, 100, 250]))
    t["a"] = draw(st.integers(0, 40 if tiny else 9))
    t["b"] = draw(st.integers(0, 60 if tiny else 9))
    if draw(st.integers(0, 3)):
        t["b"] = max(1, t["b"])
    if cut and draw(st.integers(0, 2)) == 0:
        t["cut"] = [draw(st.sampled_from([0, 1, 8, 9, 50, 300])), draw(st.sampled_from([0, 1, 70]))]
    t["ssplit"] = draw(SPLIT)
    t["msplit"] = None
    return t


@st.composite
def tracks(draw, numbers, maxtr=3, only=True, **kw):
    nos = draw(st.lists(numbers, min_size=1, max_size=maxtr, unique=True))
    ts = [draw(track(no, **kw)) for no in nos]
    if only and len(ts) > 1 and draw(st.integers(0, 2)) == 0:
        ts[draw(st.integers(1, len(ts) - 1))]["only"] = 1
    return ts


opt = lambda s: st.one_of(st.just(0), s)


@st.composite
def avi_layout(draw):
    return {"mix": draw(MIX), "pad": draw(st.sampled_from([0, 0, 0, 255, 65])), "strf": draw(st.sampled_from([40, 41])), "info": draw(st.booleans()),
            "junk": draw(opt(st.integers(1, 300))), "rec": draw(opt(st.integers(0, 4))), "avix": draw(opt(st.integers(0, 5))),
            "mid": draw(opt(st.integers(0, 4))), "idx": draw(st.sampled_from(["rel", "rel", "abs", "none", "short", "bad"])), "tail": draw(opt(st.integers(1, 20))),
            "rsize": draw(st.sampled_from(["ok", "ok", "ok", "zero", "big"])), "ty": draw(st.integers(0, 5))}


@st.composite
def avi(draw):
    return {"fmt": "avi", "tracks": draw(tracks(st.one_of(st.integers(0, 3), st.integers(0, 99)), cut=True)),
            "main": draw(avi_layout()), "smp": draw(avi_layout())}


@st.composite
def mkv_layout(draw):
    return {"mix": draw(MIX), "w": draw(st.sampled_from([0, 0, 4, 8, 2])), "tnw": draw(st.sampled_from([0, 0, 2, 8])), "seek": draw(st.booleans()),
            "void": draw(opt(st.integers(1, 200))), "per": draw(st.integers(1, 6)), "lace": draw(st.lists(st.integers(0, 3), min_size=1, max_size=4)),
            "bg": draw(opt(st.integers(1, 3))), "bw": draw(st.sampled_from([0, 0, 2])), "cw": draw(st.sampled_from([0, 8])), "segw": draw(st.sampled_from([0, 8])),
            "cues": draw(st.booleans()), "tags": draw(opt(st.integers(1, 50))), "tfirst": draw(st.integers(0, 1))}


ATT = st.tuples(st.sampled_from(["font.ttf", "f.ttf", "cover.jpg", "\u00e9.ttf", "font.ttf"]),
                st.fixed_dictionaries({"n": st.one_of(st.integers(0, 40), st.integers(0, 3000)), "s": st.integers(0, 99)})).map(list)


@st.composite
def mkv(draw):
    ts = draw(tracks(st.one_of(st.integers(1, 3), st.integers(1, 126), st.integers(127, 3000))))
    for t in ts:
        if t.get("head") and draw(st.booleans()):
            t["strip"] = {"main": draw(st.integers(0, 8)), "smp": draw(st.integers(0, 8))}
    return {"fmt": "mkv", "tracks": ts, "main": draw(mkv_layout()), "smp": draw(mkv_layout()),
            "att": draw(st.lists(ATT, max_size=4)) if draw(st.integers(0, 2)) == 0 else [],
            "matt": draw(st.lists(ATT, max_size=1)) if draw(st.integers(0, 3)) == 0 else []}


@st.composite
def mp4_layout(draw):
    return {"mix": draw(MIX), "free": draw(opt(st.integers(1, 90))), "udta": draw(opt(st.integers(1, 90))), "null8": draw(st.integers(0, 5)) == 0,
            "big": draw(st.booleans()), "big2": draw(st.booleans()), "co64": draw(st.booleans()), "last": draw(st.booleans()), "zero": draw(st.integers(0, 3)) == 0,
            "end": draw(opt(st.integers(1, 40))), "edts": draw(st.booleans()), "stscfull": draw(st.booleans()), "fixed": draw(st.booleans()), "ord": draw(st.integers(0, 4)),
            "tkv1": draw(st.integers(0, 4)) == 0, "chunk": draw(st.lists(st.integers(1, 4), min_size=1, max_size=3))}


@st.composite
def mp4(draw):
    return {"fmt": "mp4", "tracks": draw(tracks(st.one_of(st.integers(1, 3), st.integers(1, 70000), st.integers(65535, 2 ** 32 - 1)), zero=True, minfr=0)),
            "main": draw(mp4_layout()), "smp": draw(mp4_layout())}


@st.composite
def wmv_layout(draw):
    return {"mix": draw(MIX), "psize": draw(st.one_of(st.integers(80, 400), st.integers(80, 1500))), "modes": draw(st.lists(st.integers(0, 3), min_size=1, max_size=4)),
            "lentype": draw(st.integers(0, 3)), "seqtype": draw(st.integers(0, 2)), "padtype": draw(st.integers(0, 3)), "padrand": draw(st.integers(0, 2)) == 0,
            "ps": draw(st.integers(0, 9)), "index": draw(opt(st.integers(1, 60))), "ext": draw(opt(st.integers(1, 60))), "fsoff": draw(st.sampled_from([0, 0, 0, 100])),
            "nopad": draw(st.integers(0, 1))}


@st.composite
def wmv(draw):
    return {"fmt": "wmv", "tracks": draw(tracks(st.one_of(st.integers(1, 3), st.integers(1, 127)), cut=True, zero=False)),
            "main": draw(wmv_layout()), "smp": draw(wmv_layout())}


def cont(lo, hi, kinds=("rand", "rand", "zero", "text", "ff")):
    return st.fixed_dictionaries({"n": st.one_of(st.integers(lo, min(hi, lo + 60)), st.integers(lo, hi)), "s": st.integers(0, 99), "k": st.sampled_from(kinds)})


@st.composite
def flac_layout(draw):
    return {"id3": draw(st.lists(cont(0, 400), max_size=1)), "v1": draw(st.one_of(st.none(), st.integers(0, 99))),
            "blocks": draw(st.lists(st.fixed_dictionaries({"t": st.integers(1, 6), "c": cont(0, 600)}), max_size=4))}


@st.composite
def flac(draw):
    return {"fmt": "flac", "audio": draw(st.one_of(cont(0, 400), cont(0, 3000), cont(65000, 140000))), "main": draw(flac_layout()), "smp": draw(flac_layout())}


@st.composite
def mp3_layout(draw, junk=False):
    o = {"id3": draw(st.lists(cont(0, 500), max_size=2)), "v1": draw(st.one_of(st.none(), st.integers(0, 99)))}
    if draw(st.booleans()):
        o["ape"] = [{"c": draw(st.one_of(cont(0, 300), cont(60, 70))), "v": draw(st.sampled_from([1000, 2000]))}]
    if draw(st.integers(0, 2)) == 0:
        o["lyr1"] = draw(cont(0, 5000, ("text",)))
    if draw(st.integers(0, 2)) == 0:
        o["lyr2"] = draw(cont(0, 6000, ("text",)))
    if draw(st.integers(0, 149)) == 77:     # the size needs all four bytes
        o["id3"] = [draw(cont(2097100, 2200000, ("zero", "text")))]
    if junk and draw(st.integers(0, 2)) == 0:
        o["junk"] = draw(st.one_of(cont(1, 300, ("rand", "zero")), cont(65000, 140000, ("rand", "zero")), cont(65270, 65540, ("rand", "zero")), cont(65279, 65283, ("rand", "zero")), cont(130560, 130566, ("rand", "zero")), cont(130550, 131075, ("rand", "zero"))))
    return o


@st.composite
def mp3(draw):
    return {"fmt": "mp3", "riff": draw(st.integers(0, 4)) == 0, "audio": draw(st.one_of(cont(12, 600), cont(12, 5000), cont(65000, 140000))),
            "main": draw(mp3_layout(junk=True)), "smp": draw(mp3_layout())}


@st.composite
def stream(draw):
    n = draw(st.one_of(st.integers(1, 3000), st.integers(60000, 70000), st.integers(130000, 200000)))
    return {"fmt": "stream", "main": {"n": n, "s": draw(st.integers(0, 99)), "k": draw(st.sampled_from(["rand", "rand", "text"]))},
            "a": draw(st.one_of(st.integers(0, 200000), st.integers(65536 - 300, 65536 + 300), st.integers(131072 - 300, 131072 + 300))),
            "n": draw(st.one_of(st.integers(0, 600), st.integers(0, 200000))), "ext": draw(st.sampled_from([".vob", ".mpg", ".ts", ".mpeg", ".m2ts", ".VOB"]))}


CASE = {"avi": avi, "mkv": mkv, "mp4": mp4, "wmv": wmv, "flac": flac, "mp3": mp3, "stream": stream}
EXT = {"avi": ".avi", "mkv": ".mkv", "mp4": ".mp4", "wmv": ".wmv", "flac": ".flac", "mp3": ".mp3", "stream": ".vob"}
