"""A loopback HTTP server whose every answer is scripted, faults included."""
import socket
import struct
import threading


def response(status, body=b"", headers=(), length=None):
    h = ["HTTP/1.1 %d X" % status, "Connection: close"]
    if length is None:
        length = len(body)
    if length is not False:
        h.append("Content-Length: %d" % length)
    h += ["%s: %s" % x for x in headers]
    return ("\r\n".join(h) + "\r\n\r\n").encode() + body


class Server(object):
    """script: path -> list of actions: octets to send, "reset", "close",
    ("wait", event)"""

    def __init__(self, script):
        self.script = script
        self.seen = []
        self.sock = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
        self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.sock.bind(("127.0.0.1", 0))
        self.sock.listen(50)
        self.port = self.sock.getsockname()[1]
        self.stop = threading.Event()
        self.thread = threading.Thread(target=self.serve, daemon=True)
        self.thread.start()

    def url(self, path="/"):
        return "http://127.0.0.1:%d%s" % (self.port, path)

    def serve(self):
        while not self.stop.is_set():
            try:
                s, _ = self.sock.accept()
            except OSError:
                return
            if self.stop.is_set():
                s.close()
                return
            try:
                self.one(s)
            except OSError:
                pass
            finally:
                s.close()

    def one(self, s):
        s.settimeout(20)
        data = b""
        while b"\r\n\r\n" not in data:
            d = s.recv(65536)
            if not d:
                return
            data += d
        path = data.split(b" ")[1].decode()
        self.seen.append(path)
        actions = self.script.get(path, [response(404, b"{}")])
        if callable(actions):
            actions = actions(self)
        for a in actions:
            if a == "reset":
                s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER,
                             struct.pack("ii", 1, 0))
                return
            if a == "close":
                return
            s.sendall(a)

    def close(self):
        self.stop.set()
        try:    # wake up accept()
            socket.create_connection(("127.0.0.1", self.port), 5).close()
        except OSError:
            pass
        self.thread.join(5)
        self.sock.close()


def free_port():
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    p = s.getsockname()[1]
    s.close()
    return p
