"""A small NNTP server on the loopback interface, and a yEnc poster."""
import socketserver, threading, zlib, os

ESC = (0, 10, 13, 61)


def ylines(data, line):
    """The data lines of a yEnc body."""
    out, cur = [], bytearray()
    for b in data:
        e = (b + 42) & 255
        if e in ESC:
            cur += bytes([61, e + 64])
        else:
            cur.append(e)
        if len(cur) >= line:
            out.append(bytes(cur))
            cur = bytearray()
    if cur:
        out.append(bytes(cur))
    return out


def articles(name, data, seg, line=128, single=True, total=True):
    """[(number, lines, encoded size)] of a posted file; single: one-part posts without part fields."""
    n = max(1, -(-len(data) // seg))
    out = []
    for i in range(n):
        d = data[i * seg:(i + 1) * seg]
        crc = zlib.crc32(d)
        if n == 1 and single:
            ls = [b"=ybegin line=%d size=%d name=" % (line, len(data)) + name.encode("utf-8")] + ylines(d, line) + [b"=yend size=%d crc32=%08x" % (len(d), crc)]
        else:
            ls = [b"=ybegin part=%d%s line=%d size=%d name=" % (i + 1, b" total=%d" % n if total else b"", line, len(data)) + name.encode("utf-8"),
                  b"=ypart begin=%d end=%d" % (i * seg + 1, i * seg + len(d))] + ylines(d, line) + [b"=yend size=%d part=%d pcrc32=%08x" % (len(d), i + 1, crc)]
        out.append((i + 1, ls, sum(len(l) + 2 for l in ls)))
    return out


class Handler(socketserver.StreamRequestHandler):
    disable_nagle_algorithm = True

    def handle(self):
        s = self.server.state
        s["conns"] += 1

        def put(b):
            self.wfile.write(b + b"\r\n")

        def multi(ls):
            self.wfile.write(b"".join((b"." + l if l.startswith(b".") else l) + b"\r\n" for l in ls) + b".\r\n")
        try:
            put(b"200 hello")
            while True:
                req = self.rfile.readline()
                if not req:
                    return
                a = req.decode("utf-8", "replace").strip().split(" ")
                cmd = a[0].upper()
                s["log"].append(" ".join(a))
                if cmd == "CAPABILITIES":
                    put(b"101 list")
                    multi([b"VERSION 2", b"READER"])
                elif cmd == "MODE":
                    put(b"200 reader")
                elif cmd == "AUTHINFO":
                    put(b"281 ok" if a[1].upper() == "PASS" else b"381 more")
                elif cmd == "GROUP":
                    put(b"211 5 1 5 " + a[1].encode("utf-8") if a[1] in s["groups"] else b"411 no such group")
                elif cmd in ("BODY", "HEAD", "STAT", "ARTICLE"):
                    i = a[1].strip("<>")
                    art = s["articles"].get(i)
                    if art is None or (cmd in art.get("deny", ())):
                        put(b"430 no such article")
                        continue
                    ls = art["lines"]
                    if cmd == "BODY":
                        put(b"222 0 " + a[1].encode())
                        multi(ls)
                    elif cmd == "HEAD":
                        put(b"221 0 " + a[1].encode())
                        multi(art["head"])
                    else:
                        put(b"223 0 " + a[1].encode())
                elif cmd == "QUIT":
                    put(b"205 bye")
                    return
                else:
                    put(b"500 what?")
        except (OSError, ValueError):
            pass


class Server(socketserver.ThreadingTCPServer):
    daemon_threads = True
    allow_reuse_address = True

    def __init__(self):
        super().__init__(("127.0.0.1", 0), Handler)
        self.reset()
        self.port = self.server_address[1]
        threading.Thread(target=self.serve_forever, kwargs={"poll_interval": 30}, daemon=True).start()

    def handle_error(self, request, client_address):
        pass

    def reset(self):
        self.state = {"articles": {}, "groups": set(), "log": [], "conns": 0}


SERVERS = {}


def server(i):
    k = (os.getpid(), i)
    if k not in SERVERS:
        SERVERS[k] = Server()
    return SERVERS[k]
