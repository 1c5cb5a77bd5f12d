"""Key material and every public way of turning it into a jwkest key."""
import base64
import hashlib
import json
import os

from mc import ref
from mc.rng import RNG
from Cryptodome.PublicKey import RSA

D = os.path.join(os.path.dirname(os.path.abspath(__file__)), "keys")


def _rsa(n):
    with open(os.path.join(D, n + ".pem")) as f:
        return RSA.import_key(f.read())


def ec(crv, i):
    cv = ref.CURVES[crv]
    d = int.from_bytes(hashlib.sha512(b"%d" % i).digest() + b"zz",
                       "big") % (cv.n - 1) + 1
    return ("EC", crv, cv.pub(d), d)


def oct_(i, n):
    out = b""
    j = 0
    while len(out) < n:
        out += hashlib.sha256(b"oct%d.%d" % (i, j)).digest()
        j += 1
    return ("oct", out[:n])


class _Mat(dict):
    def __missing__(self, name):
        with RNG.aside():
            self[name] = v = self.make(name)
        return v

    def make(self, name):
        if name in ("r0", "r1", "r2", "r3", "r4", "r5"):
            return ("RSA", _rsa("rsa" + name[1]))
        if name.startswith("h"):        # h<i>.<len>
            i, n = name[1:].split(".")
            return oct_(int(i), int(n))
        # p256.<i>
        c, i = name.split(".")
        return ec("P-" + c[1:], int(i))


MAT = _Mat()

# EC keys with a leading zero octet in x, in y
ZX = {"P-256": "p256.70", "P-384": "p384.234", "P-521": "p521.9"}
ZY = {"P-256": "p256.67", "P-384": "p384.22", "P-521": "p521.1"}


def ecname(crv, i):
    return "p%s.%d" % (crv[2:], i)


def cert_b64(i):
    with open(os.path.join(D, "cert%d.pem" % i)) as f:
        return "".join(l.strip() for l in f if "CERTIFICATE" not in l)


def cert_pem(i):
    with open(os.path.join(D, "cert%d.pem" % i)) as f:
        return f.read()


def x5t(i):
    der = base64.b64decode(cert_b64(i))
    return ref.b64e(hashlib.sha1(der).digest())


def pub(mat):
    if mat[0] == "RSA":
        return ("RSA", mat[1].public_key())
    if mat[0] == "EC":
        return mat[:3] + (None,)
    return mat


PRIV_FORMS = {
    "oct": ["octets", "k", "keyrep", "jwks"],
    "RSA": ["object", "load_key", "file", "jwk", "keyrep", "jwks", "wrap"],
    "EC": ["jwk", "keyrep", "jwks", "ints"],
}
PUB_FORMS = {
    "oct": ["octets", "k", "keyrep", "jwks"],
    "RSA": ["object", "load_key", "jwk", "keyrep", "jwks", "copy",
            "reserialized", "dumped", "x5c"],
    "EC": ["jwk", "keyrep", "jwks", "ints", "copy", "reserialized", "dumped"],
}


def build(name, form, private=True, **extra):
    """A jwkest key instance."""
    from jwkest import jwk
    mat = MAT[name]
    kt = mat[0]
    spec = ref.jwk_of(mat, private=private, **extra)
    cls = {"oct": jwk.SYMKey, "RSA": jwk.RSAKey, "EC": jwk.ECKey}[kt]
    if form in ("jwk", "k"):
        return cls(**spec)
    if form == "keyrep":
        return jwk.keyrep(spec)
    if form == "jwks":
        return list(jwk.KEYS().load_jwks(json.dumps({"keys": [spec]})))[0]
    if form == "octets":
        return cls(key=mat[1], **extra)
    if form == "object":
        return cls(key=mat[1] if private else mat[1].public_key(), **extra)
    if form == "load_key":
        return cls(**extra).load_key(
            mat[1] if private else mat[1].public_key())
    if form == "file":
        return cls(**extra).load(os.path.join(D, "rsa%s.pem" % name[1]))
    if form == "wrap":
        ks = jwk.KEYS()
        ks.wrap_add(mat[1] if private else mat[1].public_key(),
                    use=extra.get("use", ""), kid=extra.get("kid", ""))
        k = list(ks)[0]
        if "alg" in extra:
            k.alg = extra["alg"]
        return k
    if form == "ints":
        return cls(crv=mat[1], x=mat[2][0], y=mat[2][1],
                   d=mat[3] if private else "", **extra)
    if form == "copy":
        return jwk.make_public_copy(build(name, "keyrep", True, **extra))
    if form == "reserialized":
        return jwk.keyrep(build(name, "keyrep", True, **extra).serialize())
    if form == "dumped":
        ks = jwk.KEYS()
        ks.append(build(name, "keyrep", True, **extra))
        return list(jwk.KEYS().load_jwks(ks.dump_jwks()))[0]
    if form == "x5c":
        return jwk.keyrep(dict(extra, kty="RSA", x5c=[cert_b64(int(name[1]))]))
    raise ValueError(form)
