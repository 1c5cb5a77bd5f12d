"""Shared helpers for driving jwkest and modelling its outcomes."""
import json

from mc.core import check, Violation, Prune
from mc import ref, keys as K

HS = ["HS256", "HS384", "HS512"]
RS = ["RS256", "RS384", "RS512"]
PS = ["PS256", "PS384", "PS512"]
ES = ["ES256", "ES384", "ES512"]
SIG_ALGS = HS + RS + PS + ES


class Raised(object):
    """An exception as an outcome."""

    def __init__(self, e):
        self.e = e
        self.name = type(e).__name__

    def __repr__(self):
        return "Raised(%s: %s)" % (self.name, str(self.e)[:200])


def attempt(fn, *a, **kw):
    """Call into the implementation; every Exception is a rejection."""
    try:
        return fn(*a, **kw)
    except Violation:
        raise
    except Exception as e:
        return Raised(e)


def raised(x):
    return isinstance(x, Raised)


def ktype(alg):
    return {"HS": "oct", "RS": "RSA", "PS": "RSA", "ES": "EC"}[alg[:2]]


def keyname(alg, i=0):
    """the i-th key fit for the signature algorithm"""
    if alg[:2] == "HS":
        return "h%d.%d" % (i, {"256": 32, "384": 48, "512": 64}[alg[2:]])
    if alg[:2] in ("RS", "PS"):
        return "r%d" % i
    return K.ecname(ref.ES[alg][0], 3 + i)


def payload_octets(msg):
    """What JSON Web Token producers put in the payload part."""
    if isinstance(msg, bytes):
        return msg
    if isinstance(msg, str):
        return msg.encode("utf-8")
    return json.dumps(msg, separators=(",", ":")).encode("utf-8")


def payload_value(octets):
    """What verification hands back: the JSON value when the payload is JSON
    text, else the text, else the octets."""
    try:
        text = octets.decode("utf-8")
    except UnicodeDecodeError:
        return octets
    try:
        return json.loads(text)
    except ValueError:
        return text


def same(a, b):
    """equal, and of the same types all the way down"""
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return set(a) == set(b) and all(same(a[m], b[m]) for m in a)
    return a == b


def b64flip(part, pos, bit):
    """flip one bit of the decoded octets of a base64url part"""
    raw = bytearray(ref.b64d(part))
    raw[pos] ^= 1 << bit
    return ref.b64e(bytes(raw))


# lengths around the sizes at which buffers and counters end
LARGE = [255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 8193, 65535,
         65536, 65537]
HUGE = LARGE + [(1 << 20) + 1]


def pattern(n, salt=0):
    """n octets, no block of which is like another"""
    import hashlib
    return hashlib.shake_128(b"pattern%d" % salt).digest(n)
