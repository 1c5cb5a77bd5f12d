"""Network stand-in: records every attempt to reach the network, and fails it.

Nothing ever leaves the process."""
import socket

LOG = []
_installed = False


class NoNetwork(OSError):
    pass


def _record(what):
    def f(*a, **kw):
        LOG.append((what, repr(a[-1])[:200]))
        raise NoNetwork("network access: %s %r" % (what, a[-1:]))
    return f


def install():
    global _installed
    if _installed:
        return
    _installed = True
    socket.getaddrinfo = _record("getaddrinfo")
    socket.gethostbyname = _record("gethostbyname")
    socket.create_connection = _record("create_connection")

    class Sock(socket.socket):
        connect = _record("connect")
        connect_ex = _record("connect_ex")
        sendto = _record("sendto")
    socket.socket = Sock
    try:
        import urllib3.util.connection as uc
        uc.create_connection = _record("create_connection")
        uc.socket.getaddrinfo = socket.getaddrinfo
    except Exception:
        pass


def reset():
    del LOG[:]
