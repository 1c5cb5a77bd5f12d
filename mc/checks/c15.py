"""C15: invalid ephemeral keys are refused in ECDH-ES."""
import functools
import json

from mc.core import Scope, check, Prune
from mc import ref, keys as K, jwe as J
from mc.jose import *

PT = b"for a bad point"
ALGS = ref.EC_ALGS


def naive_mul(p, a, P, k):
    """what an implementation that doesn't look at the point computes:
    affine formulas, which don't use b"""
    def add(P, Q):
        if P is None:
            return Q
        if Q is None:
            return P
        x1, y1 = P
        x2, y2 = Q
        if x1 == x2:
            if (y1 + y2) % p == 0:
                return None
            m = (3 * x1 * x1 + a) * pow(2 * y1, -1, p)
        else:
            m = (y2 - y1) * pow(x2 - x1, -1, p)
        x = (m * m - x1 - x2) % p
        return x, (m * (x1 - x) - y1) % p
    R = None
    while k:
        if k & 1:
            R = add(R, P)
        P = add(P, P)
        k >>= 1
    return R


def forge(alg, enc, epk, z, hdr=(), pt=PT):
    """a token for the shared secret z, with this epk header"""
    h = dict({"alg": alg, "enc": enc}, **dict(hdr))
    if epk is not Ellipsis:
        h["epk"] = epk
    cek = J.octs("cek", ref.CEKLEN[enc])
    ek = b""
    if alg == "ECDH-ES":
        cek = ref.concat_kdf(z, enc.encode(), b"", b"", ref.CEKLEN[enc] * 8)
    else:
        kw = alg.split("+")[1]
        ek = ref.kw_wrap(ref.concat_kdf(z, kw.encode(), b"", b"",
                                        int(kw[1:4])), cek)
    iv = b"i" * ref.IVLEN[enc]
    hb = ref.b64e(ref.enc_json(h))
    ct, tag = ref.content_encrypt(enc, cek, iv, hb.encode(), pt)
    return ".".join([hb, ref.b64e(ek), ref.b64e(iv), ref.b64e(ct),
                     ref.b64e(tag)])


def jwk(crv, x, y, nbytes=None):
    n = nbytes or ref.CURVES[crv].bytes

    def enc(v):
        return ref.b64e(ref.i2o(v, max(n, (v.bit_length() + 7) // 8)))
    return {"kty": "EC", "crv": crv, "x": enc(x), "y": enc(y)}


def tries(tok, keys, api, alg):
    from jwkest import jwe
    from jwkest.jwe import JWE, JWE_EC, JWEnc
    if api == "decrypt":
        return attempt(JWE().decrypt, tok, keys)
    if api == "alg":
        return attempt(JWE().decrypt, tok, keys, alg)
    if api == "factory":
        j = attempt(jwe.factory, tok)
        if j is None or raised(j):
            return Raised(ValueError("no"))
        return attempt(j.decrypt, None, keys)

    def cls():
        j = JWE_EC()
        t = JWEnc().unpack(tok)
        j.dec_setup(t, key=keys[0])
        return j.decrypt(t)
    return attempt(cls)


def refused(c, alg, enc, crv, epk, zs, api="decrypt", what=""):
    name = K.ecname(crv, 3)
    outs = set()
    for z in zs:
        tok = forge(alg, enc, epk, z)
        r = tries(tok, [J.key(name)], api, alg)
        check(raised(r), "%s %s: a token with epk %s %r decrypts to %r" % (
            alg, crv, what, epk, r))
        outs.add((r.name, str(r.e)))
    check(len(outs) == 1, "%s %s epk %s: the failure depends on the shared "
          "secret: %s" % (alg, crv, what, sorted(outs)))
    c.done(list(outs)[0][0])


BOGUS = b"\x2a"


@functools.lru_cache(None)
def secrets(crv, pt, d=None):
    """the secrets a careless recipient could arrive at, and another one"""
    cv = ref.CURVES[crv]
    if d is None:
        d = K.MAT[K.ecname(crv, 3)][3]
    out = []
    for P in (pt, (pt[0] % cv.p, pt[1] % cv.p)):
        try:
            R = naive_mul(cv.p, cv.a, P, d)
        except ValueError:
            continue
        z = bytes(cv.bytes) if R is None else ref.i2o(R[0], cv.bytes)
        if z not in out:
            out.append(z)
    out.append(BOGUS * cv.bytes)
    return out


@functools.lru_cache(None)
def good(crv):
    return ref.CURVES[crv].pub(31415926535897932384626433832795)


@functools.lru_cache(None)
def points(crv):
    cv = ref.CURVES[crv]
    x, y = good(crv)
    p = cv.p
    out = {
        "(0,0)": (0, 0), "(0,1)": (0, 1), "(1,0)": (1, 0), "(1,1)": (1, 1),
        "(x,0)": (x, 0), "(0,y)": (0, y), "(y,x)": (y, x),
        "(x,y+1)": (x, y + 1), "(x,y-1)": (x, y - 1), "(x+1,y)": (x + 1, y),
        "(x-1,y)": (x - 1, y), "(x,x)": (x, x), "(-x,y)": (p - x, y),
        "(p-1,p-1)": (p - 1, p - 1), "(p-1,1)": (p - 1, 1),
        "(n,y)": (cv.n % p, y), "(2,2)": (2, 2),
        "(x+p,y)": (x + p, y), "(x,y+p)": (x, y + p),
        "(x+p,y+p)": (x + p, y + p), "(x+2p,y)": (x + 2 * p, y),
        "(p,p)": (p, p), "(p,0)": (p, 0), "(0,p)": (0, p),
        "(x,2p-y)": (x, 2 * p - y), "generator+p": (cv.g[0] + p, cv.g[1]),
        "max": (256 ** cv.bytes - 1, 256 ** cv.bytes - 1),
    }
    # points on curves with another b
    for i, b in enumerate([0, 1, 2, cv.b + 1, p - cv.b]):
        xx = x
        while True:
            r = (xx ** 3 + cv.a * xx + b) % p
            yy = sqrt(r, p)
            if yy is not None and not cv.on_curve((xx, yy)):
                break
            xx += 1
        out["on b=%d" % i] = (xx, yy)
    for k, P in list(out.items()):
        if cv.on_curve(P):
            del out[k]
    return out


def sqrt(r, p):
    if p % 4 == 3:
        y = pow(r, (p + 1) // 4, p)
        return y if y * y % p == r else None
    raise ValueError


def off_curve(c):
    crv = c.choose("curve", J.CURVES)
    alg = c.choose("alg", ALGS)
    what = c.choose("point", sorted(points(crv)))
    enc = c.choose("enc", J.CBC if alg == "ECDH-ES" else J.CBC[:1])
    api = c.choose("api", ["decrypt", "alg", "factory", "class"])
    P = points(crv)[what]
    refused(c, alg, enc, crv, jwk(crv, *P), secrets(crv, P), api, what)


def bit_flips(step):
    def body(c):
        crv = c.choose("curve", J.CURVES)
        which = c.choose("coordinate", [0, 1])
        cv = ref.CURVES[crv]
        n = cv.p.bit_length()
        i = c.choose("bit", [b for b in range(cv.bytes * 8)
                             if (b * 7) % step[crv] == 0 or b < 8 or
                             b > n - 8])
        P = list(good(crv))
        P[which] ^= 1 << i
        if cv.on_curve(P):
            raise Prune()
        refused(c, "ECDH-ES", J.CBC[0], crv, jwk(crv, *P),
                secrets(crv, tuple(P)), "decrypt", "bit %d of %s" % (
                    i, "xy"[which]))
    return body


def small_order(c):
    """the classic attack: points of order 2 on other curves, for several
    private keys"""
    crv = c.choose("curve", J.CURVES)
    alg = c.choose("alg", ALGS)
    x = c.choose("x", [0, 1, 2, 3, 5, "p-1", "gx"])
    d = c.choose("private key", [1, 2, 3, 4, "n-1", "ordinary"])
    cv = ref.CURVES[crv]
    xx = {"p-1": cv.p - 1, "gx": cv.g[0]}.get(x, x)
    dd = {"n-1": cv.n - 1, "ordinary": K.MAT[K.ecname(crv, 3)][3]}.get(d, d)
    from jwkest.jwk import ECKey
    pub = cv.pub(dd)
    key = ECKey(crv=crv, x=pub[0], y=pub[1], d=dd)
    for z in secrets(crv, (xx, 0), dd)[:-1] + [ref.i2o(xx, cv.bytes)]:
        tok = forge(alg, J.CBC[0], jwk(crv, xx, 0), z)
        r = tries(tok, [key], "decrypt", alg)
        check(raised(r), "%s %s: point (%s, 0) accepted" % (alg, crv, x))
    c.done("refused")


def other_curve(c):
    """a valid point, of a curve that isn't the key's"""
    crv = c.choose("key on", J.CURVES)
    other = c.choose("epk on", [v for v in J.CURVES if v != crv])
    label = c.choose("named", ["epk curve", "key curve"])
    alg = c.choose("alg", ALGS)
    api = c.choose("api", ["decrypt", "alg", "factory", "class"])
    cv, co = ref.CURVES[crv], ref.CURVES[other]
    P = good(other)
    d = K.MAT[K.ecname(crv, 3)][3]
    zs = []
    for v in (cv, co):
        try:
            R = naive_mul(v.p, v.a, (P[0] % v.p, P[1] % v.p), d)
        except ValueError:
            continue
        if R is not None:
            zs.append(ref.i2o(R[0], v.bytes))
            zs.append(ref.i2o(R[0], max(cv.bytes, co.bytes)))
    zs.append(BOGUS * cv.bytes)
    epk = jwk(other, *P)
    if label == "key curve":
        epk["crv"] = crv
    refused(c, alg, J.CBC[0], crv, epk, zs, api, "on " + other)


def mixed(c):
    """several keys on different curves: the right one is used, with a point
    of another curve none"""
    from jwkest.jwe import JWE
    crv = c.choose("epk on", J.CURVES)
    have = c.choose("keys", [("P-256", "P-384", "P-521"), ("P-521", "P-384",
                             "P-256"), ("P-256", "P-384"), ("P-521", "P-256"),
                             ("P-384",), ("P-384", "P-521")])
    alg = c.choose("alg", ALGS)
    name = K.ecname(crv, 3)
    P = ref.CURVES[crv].pub(777)
    z = ref.ecdh_z(crv, 777, K.MAT[name][2])
    tok = forge(alg, J.CBC[0], jwk(crv, *P), z)
    r = attempt(JWE().decrypt, tok, [J.key(K.ecname(v, 3)) for v in have])
    if crv in have:
        check(r == PT, "%s, keys %s: %r" % (crv, have, r))
    else:
        check(raised(r), "%s, keys %s: %r" % (crv, have, r))
    c.done("decrypted" if crv in have else "refused")


def malformed_epks(crv):
    g = jwk(crv, *good(crv))
    x, y = g["x"], g["y"]

    def w(**kw):
        d = dict(g, **kw)
        return {k: v for k, v in d.items() if v is not Ellipsis}
    out = [("missing", Ellipsis), ("null", None), ("empty", {}),
           ("text", "abc"), ("list", []), ("list of", [g]), ("number", 1),
           ("true", True), ("json text", json.dumps(g)),
           ("no crv", w(crv=Ellipsis)), ("no x", w(x=Ellipsis)),
           ("no y", w(y=Ellipsis)), ("only kty", {"kty": "EC"}),
           ("only crv", {"crv": crv}), ("empty x", w(x="")),
           ("empty y", w(y="")), ("empty both", w(x="", y="")),
           ("zero octets", w(x="AA", y="AA")),
           ("unknown crv", w(crv="P-512")), ("crv lower", w(
               crv=crv.lower())), ("crv empty", w(crv="")),
           ("crv null", w(crv=None)), ("crv number", w(crv=256)),
           ("crv list", w(crv=[crv])), ("crv spaces", w(crv=crv + " ")),
           ("secp256k1", w(crv="secp256k1")), ("X25519", w(crv="X25519")),
           ("x null", w(x=None)), ("y null", w(y=None)),
           ("x number", w(x=good(crv)[0] + 1)), ("x list", w(x=[x])),
           ("x not base64", w(x="!" + x[1:])), ("y not base64", w(
               y=y[:-1] + "*")), ("x cut", w(x=x[:-2])), ("y cut", w(
                   y=y[:-2])), ("x longer", w(x=x + "AA")),
           ("y longer", w(y="AQ" + y)), ("x front cut", w(x=x[4:])),
           ("x y swapped", w(x=y, y=x)), ("x twice", w(y=x)),
           ("unicode", w(x=u"\u00e5" + x[1:])), ("okp", {
               "kty": "OKP", "crv": "X25519", "x": x}),
           ("rsa", {"kty": "RSA", "n": x, "e": "AQAB"}),
           ("oct", {"kty": "oct", "k": x}),
           ("compressed", w(y=Ellipsis, x=ref.b64e(
               b"\2" + ref.b64d(x)))),
           ("uncompressed in x", w(y=Ellipsis, x=ref.b64e(
               b"\4" + ref.b64d(x) + ref.b64d(y))))]
    return out


def malformed(c):
    crv = c.choose("curve", J.CURVES)
    alg = c.choose("alg", ALGS)
    what, epk = c.choose("epk", malformed_epks(crv))
    api = c.choose("api", ["decrypt", "alg", "factory", "class"])
    n = ref.CURVES[crv].bytes
    z = ref.ecdh_z(crv, K.MAT[K.ecname(crv, 3)][3], good(crv))
    zs = [z, bytes(n), b"", BOGUS * n]
    refused(c, alg, J.CBC[0], crv, epk, zs, api, what)


def control(c):
    """the construction is right: tokens made alike for valid points decrypt"""
    crv = c.choose("curve", J.CURVES)
    alg = c.choose("alg", ALGS)
    e = c.choose("ephemeral", [1, 2, 3, "n-1", "n-2", "big", "-good"])
    api = c.choose("api", ["decrypt", "alg", "factory", "class"])
    enc = c.choose("enc", J.CBC)
    cv = ref.CURVES[crv]
    P = good(crv) if e in ("big", "-good") else cv.pub(
        {"n-1": cv.n - 1, "n-2": cv.n - 2}.get(e, e))
    if e == "-good":
        P = (P[0], cv.p - P[1])
    zs = secrets(crv, P)
    name = K.ecname(crv, 3)
    r = tries(forge(alg, enc, jwk(crv, *P), zs[0]), [J.key(name)], api, alg)
    check(r == PT, "%s %s ephemeral %s: %r" % (alg, crv, e, r))
    c.done("decrypted")


def scopes(tier):
    th = tier == "thorough"
    step = dict.fromkeys(J.CURVES, 1) if th else {
        "P-256": 1, "P-384": 6, "P-521": 11}
    return [
        Scope("control", control, 2, "7 valid points x 3 curves x 4 algs"),
        Scope("off curve", off_curve, 2,
              "32 points x 3 curves x 4 algs x 4 APIs, tokens for the secret "
              "the point would give"),
        Scope("bit flips", bit_flips(step), 3,
              "bits of both coordinates (all: P-256; thorough: all curves)"),
        Scope("small order", small_order, 2, "7 points x 6 private keys"),
        Scope("other curve", other_curve, 2, "6 pairs of curves x 4 APIs"),
        Scope("mixed keys", mixed, 2, "keys on several curves"),
        Scope("malformed", malformed, 2, "46 malformed epk headers x 4 APIs"),
    ]
