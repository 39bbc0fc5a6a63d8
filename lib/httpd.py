"""A loopback mirror with faults: one server per worker process, files given by the check."""
import re, socket, threading

_srv = None


class Mirror:
    """files: path -> bytes, or (kind, bytes): ("short", b) announces more than it sends, ("chunk", b), ("404", b), ("close", b), ("move", b) redirects"""

    def __init__(self):
        self.files = {}
        self.s = socket.socket()
        self.s.bind(("127.0.0.1", 0))
        self.s.listen(64)
        self.port = self.s.getsockname()[1]
        threading.Thread(target=self.loop, daemon=True).start()

    def loop(self):
        while True:
            c, _ = self.s.accept()
            threading.Thread(target=self.serve, args=(c,), daemon=True).start()

    def serve(self, c):
        try:
            c.settimeout(20)
            buf = b""
            while True:
                while b"\r\n\r\n" not in buf:
                    d = c.recv(4096)
                    if not d: return
                    buf += d
                head, buf = buf.split(b"\r\n\r\n", 1)
                path = head.split(b" ")[1].decode("latin1")
                kind, body = "ok", b""
                real = path[3:] if path.startswith("/m/") else path.lstrip("/")
                real = re.sub("/+", "/", real).lstrip("/")
                f = self.files.get(real)
                if f is None: kind = "404"
                elif isinstance(f, tuple): kind, body = f
                else: body = f
                if kind == "move" and not path.startswith("/m/"):
                    c.sendall(("HTTP/1.1 302 Found\r\nLocation: /m/%s\r\nContent-Length: 0\r\n\r\n" % real).encode("latin1"))
                elif kind == "404":
                    c.sendall(b"HTTP/1.1 404 Not Found\r\nContent-Length: %d\r\n\r\n%s" % (len(body), body))
                elif kind == "500":
                    c.sendall(b"HTTP/1.1 500 Oops\r\nContent-Length: %d\r\n\r\n%s" % (len(body), body))
                elif kind == "short":
                    c.sendall(b"HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n%s" % (len(body) + 1 + len(body) // 2, body))
                    return
                elif kind == "close":
                    return
                elif kind == "chunk":
                    o = b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n"
                    for i in range(0, len(body), 7000): o += b"%x\r\n%s\r\n" % (len(body[i:i + 7000]), body[i:i + 7000])
                    c.sendall(o + b"0\r\n\r\n")
                elif kind == "cutchunk":
                    c.sendall(b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n%x\r\n%s\r\n" % (len(body) or 1, body or b"x"))
                    return
                else:
                    c.sendall(b"HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n%s" % (len(body), body))
        except OSError:
            pass
        finally:
            c.close()


def mirror():
    global _srv
    if _srv is None: _srv = Mirror()
    return _srv
