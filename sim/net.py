"""SimNet: the peer of every TCP connection the HTTP stack opens.

The real requests / urllib3 / http.client run; only the socket is simulated
(`urllib3.util.connection.create_connection`).  The plan's script for a URL says how
the response travels:

  {"status": 200, "mode": "length"|"chunked"|"close", "gzip": bool, "seg": [sizes],
   "chunk": [sizes], "fault": [kind, byte]}     kinds: reset, eof, timeout at that byte of the body
"""
import errno
import gzip
import io
import os
import socket


class _Raw(io.RawIOBase):
    def __init__(self, sock):
        self.s = sock

    def readable(self):
        return True

    def readinto(self, b):
        return self.s.recv_into(b)


class SimSocket:
    def __init__(self, net, host, port):
        self.net, self.host, self.port = net, host, port
        self.req = b""
        self.out = b""
        self.pos = 0
        self.die = None
        self.seg = [4096]
        self.k = 0
        self.closed = False
        self.timeout = None
        net.sockets.append(self)

    # what http.client / urllib3 use
    def sendall(self, data):
        self.req += bytes(data)
        if b"\r\n\r\n" in self.req:
            self.out, self.die, self.seg = self.net.respond(self.host, self.req)
            self.req, self.pos = b"", 0

    send = sendall

    def recv_into(self, b, *a):
        env = self.net.env
        env.clock.advance(0.002)
        mv = memoryview(b).cast("B")
        n = min(len(mv), max(1, self.seg[self.k % len(self.seg)]), len(self.out) - self.pos)
        self.k += 1
        if self.die is not None:
            kind, at = self.die
            if self.pos >= at:
                env.fault("net_" + kind)
                if kind == "reset":
                    raise ConnectionResetError(errno.ECONNRESET, "injected: connection reset by peer")
                if kind == "timeout":
                    raise socket.timeout("injected: timed out")
                return 0  # eof
            n = min(n, at - self.pos)
        mv[:n] = self.out[self.pos : self.pos + n]
        self.pos += n
        return n

    def recv(self, n, *a):
        b = bytearray(n)
        return bytes(b[: self.recv_into(b)])

    def makefile(self, mode="rb", *a, **k):
        return io.BufferedReader(_Raw(self))

    def close(self):
        self.closed = True

    def shutdown(self, *a):
        pass

    def settimeout(self, t):
        self.timeout = t

    def gettimeout(self):
        return self.timeout

    def setsockopt(self, *a):
        pass

    def fileno(self):
        return self.net.fd()


class SimNet:
    def __init__(self, env):
        self.env = env
        self.pages = {}
        self.sockets = []
        self.requests = 0
        self.pipe = None

    def put(self, path, body, script):
        self.pages[path] = (body, script)

    def fd(self):
        """Something real to poll: never readable, so a kept-alive connection counts as alive."""
        if self.pipe is None:
            self.pipe = os.pipe()
        return self.pipe[0]

    def shutdown(self):
        if self.pipe:
            os.close(self.pipe[0])
            os.close(self.pipe[1])
            self.pipe = None

    def connect(self, host, port):
        return SimSocket(self, host, port)

    def respond(self, host, req):
        self.requests += 1
        path = req.split(b" ")[1].decode()
        body, sc = self.pages.get(path, (b"not here", {"status": 404}))
        st = sc.get("status", 200)
        h = []
        if sc.get("to"):
            st = 302
            h.append("Location: " + sc["to"])
        if sc.get("gzip") and b"gzip" in req.lower():
            body = gzip.compress(body, mtime=0)
            h.append("Content-Encoding: gzip")
        mode = sc.get("mode", "length")
        claim = len(body)
        if mode == "length":
            h.append(f"Content-Length: {claim}")
            wire = body
        elif mode == "chunked":
            h.append("Transfer-Encoding: chunked")
            parts, i, k = [], 0, 0
            sizes = sc.get("chunk") or [512]
            while i < len(body):
                c = body[i : i + max(1, sizes[k % len(sizes)])]
                parts.append(b"%x\r\n%s\r\n" % (len(c), c))
                i += len(c)
                k += 1
            wire = b"".join(parts) + b"0\r\n\r\n"
        else:
            h.append("Connection: close")
            wire = body
        head = (f"HTTP/1.1 {st} X\r\n" + "".join(x + "\r\n" for x in h) + "\r\n").encode()
        die = None
        if sc.get("fault"):
            kind, permille = sc["fault"]
            at = len(head) + len(wire) * permille // 1000 if permille >= 0 else max(0, len(head) + len(wire) + permille)
            if mode == "close" and kind == "eof":
                kind = "reset"  # a close-delimited body that ends early cannot be told from a short one
            die = [kind, at]
        elif mode == "close":
            die = None
        self.env.log("respond", path, st, mode, len(wire))
        return head + wire, die, sc.get("seg") or [4096]
