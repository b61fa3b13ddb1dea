"""A hostile HTTP server on the loopback interface, standing in for every host.

All connections that http.client opens, to whatever host and port and with or
without TLS, end at this server, which logs the raw request and answers
according to `plan[(host, path)]`.  Nothing leaves the sandbox.
"""
import http.client
import os
import signal
import socket
import threading
import time


class Server:
    def __init__(self):
        self.sock = socket.socket()
        self.sock.bind(("127.0.0.1", 0))
        self.sock.listen(64)
        self.port = self.sock.getsockname()[1]
        self.plan = {}
        self.log = []          # (host, path, raw request head)
        self.lock = threading.Lock()
        self.pending = 0
        threading.Thread(target=self._accept, daemon=True).start()

    def reset(self, plan):
        self.plan = dict(plan)
        self.log = []

    def _accept(self):
        while True:
            c, _ = self.sock.accept()
            threading.Thread(target=self._serve, args=(c,), daemon=True).start()

    def _serve(self, c):
        try:
            c.settimeout(20)
            head = b""
            while b"\r\n\r\n" not in head:
                b = c.recv(65536)
                if not b:
                    return
                head += b
            lines = head.decode("latin-1").split("\r\n")
            path = lines[0].split(" ")[1]
            host = next((l.split(":", 1)[1].strip() for l in lines[1:] if l.lower().startswith("host:")), "")
            host = host.rsplit(":", 1)[0] if host.rsplit(":", 1)[-1].isdigit() else host
            with self.lock:
                self.log.append((host, path, head))
                act = self.plan.get((host, path)) or self.plan.get((host, "*")) or dict(kind="status", code=404)
            self._answer(c, act)
        except OSError:
            pass
        finally:
            c.close()

    def _answer(self, c, a):
        kind, body = a["kind"], a.get("body", b"")
        if kind == "ok":
            how = a.get("how", "length")
            if how == "length":
                c.sendall(b"HTTP/1.1 200 OK\r\nContent-Length: %d\r\nConnection: close\r\n\r\n" % len(body))
                self._pieces(c, body, a)
            elif how == "close":
                c.sendall(b"HTTP/1.0 200 OK\r\n\r\n")
                self._pieces(c, body, a)
            else:
                c.sendall(b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\nConnection: close\r\n\r\n")
                for p in _cut(body, a.get("pieces", 3)):
                    c.sendall(b"%x\r\n" % len(p) + p + b"\r\n")
                c.sendall(b"0\r\n\r\n")
        elif kind == "status":
            c.sendall(b"HTTP/1.1 %d Nope\r\nContent-Length: 4\r\nConnection: close\r\n\r\nnope" % a["code"])
        elif kind == "redirect":
            c.sendall(b"HTTP/1.1 %d Moved\r\nLocation: %s\r\nContent-Length: 0\r\nConnection: close\r\n\r\n" % (a["code"], a["to"].encode()))
        elif kind == "short":           # announces more than it sends
            c.sendall(b"HTTP/1.1 200 OK\r\nContent-Length: %d\r\nConnection: close\r\n\r\n" % len(body))
            c.sendall(body[:a["cut"]])
        elif kind == "short_close":     # announces nothing
            c.sendall(b"HTTP/1.0 200 OK\r\n\r\n")
            c.sendall(body[:a["cut"]])
        elif kind == "short_chunked":
            c.sendall(b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n")
            p = body[:a["cut"]]
            if p:
                c.sendall(b"%x\r\n" % len(p) + p + b"\r\n")
        elif kind in ("reset", "sigint", "sigkill"):
            c.sendall(b"HTTP/1.1 200 OK\r\nContent-Length: %d\r\nConnection: close\r\n\r\n" % len(body))
            c.sendall(body[:a["cut"]])
            if kind == "reset":
                c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, b"\x01\0\0\0\0\0\0\0")
                return
            # let the client reach the point where it waits for the rest, which never comes
            time.sleep(0.05)
            os.kill(a["pid"]() if callable(a["pid"]) else a["pid"], signal.SIGINT if kind == "sigint" else signal.SIGKILL)
            while c.recv(65536):
                pass
        elif kind == "garbage":
            c.sendall(b"this is not http at all\r\n\r\n")
        elif kind == "hangup":
            pass

    @staticmethod
    def _pieces(c, body, a):
        for p in _cut(body, a.get("pieces", 1)):
            c.sendall(p)


def _cut(body, k):
    n = max(1, len(body) // max(1, k))
    return [body[i:i + n] for i in range(0, len(body), n)]


class Redirected:
    """Context in which every HTTP(S) connection ends at the server."""

    def __init__(self, server):
        self.server = server

    def __enter__(self):
        self.create, self.tls, self.gai = socket.create_connection, http.client.HTTPSConnection.connect, socket.getaddrinfo
        target = ("127.0.0.1", self.server.port)
        real = self.create

        def create(address, *a, **k):
            k.pop("source_address", None)
            return real(target, timeout=20)

        def connect(conn):
            http.client.HTTPConnection.connect(conn)
        socket.create_connection = create
        http.client.HTTPSConnection.connect = connect
        return self

    def __exit__(self, *e):
        socket.create_connection = self.create
        http.client.HTTPSConnection.connect = self.tls
