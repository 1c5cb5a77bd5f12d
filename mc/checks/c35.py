"""C35: certificates yield their key, and thumbprints must match."""
import base64
import functools
import hashlib
import json
import os
import shutil
import tempfile

from mc.core import Scope, check, Prune
from mc import ref, keys as K
from mc.jose import *

D = os.path.join(K.D, "certs")
with open(os.path.join(D, "certs.json")) as f:
    NUMBERS = {n: (int(v[0], 16), v[1]) for n, v in json.load(f).items()}
CERTS = sorted(NUMBERS)
# v1 and v3, one and many extensions, RSA and EC signed, e = 3, 1024 and 3072
# bits, expired, DER lengths of 0, 1 and 2 mod 3
BADCERTS = ["bad-ec", "bad-ed"]


@functools.lru_cache(None)
def pem(name):
    with open(os.path.join(D, name + ".pem")) as f:
        return f.read()


@functools.lru_cache(None)
def der(name):
    return base64.b64decode("".join(pem(name).split("\n")[1:-2]))


def b64(name):
    return base64.b64encode(der(name)).decode()


def wrap(text, width, nl):
    return nl.join(text[i:i + width] for i in range(0, len(text), width))


def with_file(text, fn):
    d = tempfile.mkdtemp(prefix="c35-")
    try:
        p = os.path.join(d, "cert.pem")
        with open(p, "w", newline="") as f:
            f.write(text)
        return fn(p)
    finally:
        shutil.rmtree(d)


def load(name, how, extra=()):
    """-> something with n and e"""
    from jwkest import jwk
    x5c = [b64(name)]
    extra = dict(extra)
    spec = dict(extra, kty="RSA", x5c=x5c)
    if how == "RSAKey":
        return jwk.RSAKey(x5c=x5c, **extra)
    if how == "RSAKey octets":
        return jwk.RSAKey(x5c=[x.encode() for x in x5c], **extra)
    if how == "keyrep":
        return jwk.keyrep(spec)
    if how == "keyrep no enc":
        return jwk.keyrep(spec, enc=None)
    if how == "load_jwks":
        return list(jwk.KEYS().load_jwks(json.dumps({"keys": [spec]})))[0]
    if how == "load_dict":
        ks = jwk.KEYS()
        ks.load_dict({"keys": [spec]})
        return list(ks)[0]
    if how == "add":
        ks = jwk.KEYS()
        ks.add(spec)
        return list(ks)[0]
    if how == "deserialize":
        k = jwk.RSAKey(**extra)
        k.x5c = x5c
        k.deserialize()
        return k
    if how == "again":
        k = jwk.RSAKey(x5c=x5c, **extra)
        k.deserialize()
        return k
    if how == "public copy":
        return jwk.make_public_copy(jwk.RSAKey(x5c=x5c, **extra))
    if how == "lines":
        return jwk.RSAKey(x5c=[wrap(x5c[0], 64, "\n")], **extra)
    if how == "der2rsa":
        return jwk.der2rsa(der(name))
    if how == "der_cert2rsa":
        return jwk.der_cert2rsa(x5c[0])
    if how == "der_cert2rsa lines":
        return jwk.der_cert2rsa(wrap(x5c[0], 64, "\n") + "\n")
    if how == "der_cert2rsa crlf":
        return jwk.der_cert2rsa(" " + wrap(x5c[0], 76, "\r\n") + "\r\n")
    if how == "pem_cert2rsa":
        return with_file(pem(name), jwk.pem_cert2rsa)
    if how == "pem_cert2rsa crlf":
        return with_file(pem(name).replace("\n", "\r\n"), jwk.pem_cert2rsa)
    if how == "pem_cert2rsa end":
        return with_file(pem(name).rstrip("\n"), jwk.pem_cert2rsa)
    if how == "pem_cert2rsa blank lines":
        return with_file(pem(name) + "\n\n", jwk.pem_cert2rsa)
    if how == "import_rsa_key":
        return jwk.import_rsa_key(pem(name))
    if how == "from file":
        return with_file(pem(name), jwk.import_rsa_key_from_file)
    if how == "rsa_load":
        return with_file(pem(name), jwk.rsa_load)
    if how == "load":
        return with_file(pem(name), jwk.RSAKey(**extra).load)
    if how == "x509_rsa_load":
        (kty, k), = jwk.x509_rsa_load(pem(name))
        check(kty == "rsa", "type %r" % kty)
        return k
    raise ValueError(how)


JWK_LOADERS = ["RSAKey", "RSAKey octets", "keyrep", "keyrep no enc",
               "load_jwks", "load_dict", "add", "deserialize", "again",
               "public copy", "lines"]
RAW_LOADERS = ["der2rsa", "der_cert2rsa", "der_cert2rsa lines",
               "der_cert2rsa crlf", "pem_cert2rsa", "pem_cert2rsa crlf",
               "pem_cert2rsa end", "pem_cert2rsa blank lines",
               "import_rsa_key", "from file", "rsa_load", "x509_rsa_load"]
PRIV = {"v1-r0": "r0", "v3-r0": "r0", "v3-r1": "r1", "many-r1": "r1",
        "leaf-r2": "r2", "ecsigned-r2": "r2"}
META = [{}, {"kid": "K", "use": "sig"}, {"alg": "RS256", "kid": "\u00e5"}]


def loaded(c):
    name = c.choose("certificate", CERTS)
    how = c.choose("load", JWK_LOADERS + ["load"] + RAW_LOADERS)
    jwkform = how in JWK_LOADERS or how == "load"
    meta = c.choose("metadata", META if jwkform else [{}])
    try:
        k = load(name, how, meta)
    except Exception as e:
        check(False, "%s of %s: %r" % (how, name, e))
    right(k, name, meta, how)
    c.done("loaded")


def right(k, name, meta, how):
    from jwkest.jws import JWS
    n, e = NUMBERS[name]
    check((int(k.n), int(k.e)) == (n, e), "%s of %s has another key" % (
        how, name))
    if not hasattr(k, "kty"):
        check(not k.has_private(), "private")
        return
    check((int(k.key.n), int(k.key.e)) == (n, e), "RSA object")
    for m in ("kid", "use", "alg"):
        check(getattr(k, m) == meta.get(m, ""), "%s %r" % (m, getattr(k, m)))
    spec = k.serialize()
    check(spec["n"] == ref.uint_b64(n) and spec["e"] == ref.uint_b64(e) and
          spec["kty"] == "RSA" and "d" not in spec, "serialized %r" % spec)
    check("d" not in k.serialize(private=True), "private part")
    if name in PRIV and k.alg in ("", "RS256"):
        for r in ("r0", "r1", "r2"):
            t = ref.jws_make({"alg": "RS256"}, b"data", K.MAT[r])
            got = attempt(JWS().verify_compact, t, [k])
            check((got == "data") == (r == PRIV[name]),
                  "%s verifies %s: %r" % (name, r, got))


def chain(c, depth):
    """the first certificate counts"""
    pool = CERTS if depth < 3 else ["v3-r0", "many-r1", "leaf-r2", "ke3"]
    names = [c.choose("certificate %d" % i, pool + (
        BADCERTS + ["garbage"] if i else [])) for i in range(depth)]
    how = c.choose("load", ["RSAKey", "keyrep", "load_jwks"])
    t = c.choose("x5t", [None] + list(range(depth)))
    from jwkest import jwk
    x5c = [b64(n) if n != "garbage" else "AAAA" for n in names]
    spec = dict(kty="RSA", x5c=x5c)
    ok = True
    if t is not None:
        d = der(names[t]) if names[t] != "garbage" else b"\0\0\0"
        spec["x5t"] = ref.b64e(hashlib.sha1(d).digest())
        ok = d == der(names[0])
    if how == "RSAKey":
        r = attempt(jwk.RSAKey, **spec)
    elif how == "keyrep":
        r = attempt(jwk.keyrep, spec)
    else:
        r = attempt(jwk.load_jwks, json.dumps({"keys": [spec]}))
        r = r if raised(r) else r[0]
    check(raised(r) == (not ok), "%s of %r with x5t of %r: %r" % (
        how, names, t, r))
    if ok:
        right(r, names[0], {}, how)
    c.done("loaded" if ok else "refused")


@functools.lru_cache(None)
def thumbs(name):
    """what -> x5t that isn't the thumbprint of the certificate"""
    t = hashlib.sha1(der(name)).digest()
    out = {}
    for i in range(160):
        b = bytearray(t)
        b[i // 8] ^= 128 >> i % 8
        out["bit %d" % i] = ref.b64e(bytes(b))
    for i in range(1, 20):
        out["first %d" % i] = ref.b64e(t[:i])
        out["last %d" % i] = ref.b64e(t[-i:])
    for i in range(20):
        out["without %d" % i] = ref.b64e(t[:i] + t[i + 1:])
        out["twice %d" % i] = ref.b64e(t[:i] + t[i:i + 1] + t[i:])
    for j in range(1, 20):
        out["rotated %d" % j] = ref.b64e(t[j:] + t[:j])
    out["more"] = ref.b64e(t + b"\0")
    out["before"] = ref.b64e(b"\0" + t)
    out["doubled"] = ref.b64e(t + t)
    out["reversed"] = ref.b64e(t[::-1])
    out["hex"] = t.hex()
    out["hex encoded"] = ref.b64e(t.hex().encode())
    out["colons"] = ref.b64e(":".join("%02x" % x for x in t).encode())
    out["case"] = ref.b64e(t).swapcase()
    out["lower"] = ref.b64e(t).lower()
    out["SHA-256"] = ref.b64e(hashlib.sha256(der(name)).digest())
    out["MD5"] = ref.b64e(hashlib.md5(der(name)).digest())
    out["of the base64"] = ref.b64e(hashlib.sha1(b64(name).encode()).digest())
    out["of the PEM"] = ref.b64e(hashlib.sha1(pem(name).encode()).digest())
    n, e = NUMBERS[name]
    out["of the modulus"] = ref.b64e(hashlib.sha1(
        ref.i2o(n, (n.bit_length() + 7) // 8)).digest())
    out["zeros"] = ref.b64e(b"\0" * 20)
    out["empty SHA-1"] = ref.b64e(hashlib.sha1(b"").digest())
    for o in CERTS:
        if o != name:
            out["of " + o] = ref.b64e(hashlib.sha1(der(o)).digest())
    for i in range(27):     # characters, not bits
        x = ref.b64e(t)
        out["character %d" % i] = x[:i] + "A-_z"[i % 4] + x[i + 1:]
        out["cut %d" % i] = x[:i] if i else "!"
        out["space %d" % i] = x[:i] + "*" + x[i:]
    right_ = ref.b64e(t)
    out["same character twice"] = right_[0] + right_
    return {w: v for w, v in out.items() if v != right_ and not
            (len(v) == 27 and v[:26] == right_[:26])}


def x5t(c, names):
    from jwkest import jwk
    name = c.choose("certificate", names)
    how = c.choose("load", ["RSAKey", "octets", "keyrep", "load_jwks", "add",
                            "attribute"])
    what = c.choose("x5t", ["right"] + sorted(thumbs(name)))
    v = ref.b64e(hashlib.sha1(der(name)).digest()) if what == "right" \
        else thumbs(name)[what]
    spec = {"kty": "RSA", "x5c": [b64(name)], "x5t": v}
    ks = jwk.KEYS()

    def doit():
        if how == "RSAKey":
            return jwk.RSAKey(**spec)
        if how == "octets":
            return jwk.RSAKey(x5c=[b64(name).encode()], x5t=v.encode())
        if how == "keyrep":
            return jwk.keyrep(spec)
        if how == "load_jwks":
            ks.load_jwks(json.dumps({"keys": [spec]}))
            return list(ks)[0]
        if how == "add":
            ks.add(spec)
            return list(ks)[0]
        k = jwk.RSAKey()
        k.x5c, k.x5t = spec["x5c"], spec["x5t"]
        k.deserialize()
        return k
    r = attempt(doit)
    if what == "right":
        check(not raised(r), "the right thumbprint is refused: %r" % (r,))
        right(r, name, {}, how)
        check(r.x5t == v, "x5t becomes %r" % (r.x5t,))
        c.done("accepted")
        return
    check(raised(r), "thumbprint %s (%s) is accepted by %s" % (v, what, how))
    check(len(ks) == 0, "%d keys in the set" % len(ks))
    c.done("refused")


def unusable(c):
    """certificates of other keys, and what isn't a certificate"""
    from jwkest import jwk
    what = c.choose("what", ["bad-ec", "bad-ed", "empty", "AAAA", "spki",
                             "key", "tbs", "text", "pem", "number"] +
                    ["cut %d" % i for i in range(1, 41)] +
                    ["cut to %d" % i for i in range(1, 41)])
    how = c.choose("load", ["RSAKey", "keyrep", "load_jwks", "der2rsa",
                            "der_cert2rsa"])
    rsa = K.MAT["r0"][1]
    d = der("v3-r0")
    if what in BADCERTS:
        d = der(what)
    elif what == "empty":
        d = b""
    elif what == "AAAA":
        d = b"\0\0\0"
    elif what == "spki":
        d = rsa.public_key().export_key("DER")
    elif what == "key":
        d = rsa.export_key("DER")
    elif what == "tbs":
        d = d[4:4 + 4 + int.from_bytes(d[6:8], "big")]
    elif what == "text":
        d = b"no certificate at all, but text"
    elif what == "pem":
        d = pem("v3-r0").encode()
    elif what.startswith("cut to"):
        d = d[:int(what[7:]) * 16 - 9]
    elif what.startswith("cut"):
        d = d[:-int(what[4:])]
    x5c = base64.b64encode(d).decode()
    spec = {"kty": "RSA", "x5c": [x5c]}
    if what == "number":
        spec["x5c"] = [1]
    if how == "RSAKey":
        r = attempt(jwk.RSAKey, **spec)
    elif how == "keyrep":
        r = attempt(jwk.keyrep, spec)
    elif how == "load_jwks":
        r = attempt(jwk.load_jwks, json.dumps({"keys": [spec]}))
    elif how == "der2rsa":
        r = attempt(jwk.der2rsa, d)
    else:
        r = attempt(jwk.der_cert2rsa, x5c)
    if what == "number" and how.startswith("der"):
        raise Prune()
    check(raised(r), "%s: %s makes %r" % (how, what, r))
    c.done("refused")


def served(c):
    """certificates from a URL, seen before or not"""
    from jwkest import jwk
    from mc.server import Server, response
    names = [c.choose("certificate %d" % i, ["v3-r0", "v1-r0", "leaf-r2",
                                             "bad-ec"]) for i in range(2)]
    shared = c.flag("same dictionary")
    srv = Server({"/%d" % i: [response(200, pem(n).encode())]
                  for i, n in enumerate(names)})
    seen = {}
    try:
        for _ in range(2):
            for i, n in enumerate(names):
                got = jwk.load_x509_cert(srv.url("/%d" % i),
                                         seen if shared else {})
                if n == "bad-ec":
                    check(got == [], "key of an EC certificate: %r" % got)
                    continue
                (kty, k), = got
                check(kty == "rsa" and (int(k.n), int(k.e)) == NUMBERS[n],
                      "another key for %s" % n)
    finally:
        srv.close()
    c.done("loaded")


def scopes(tier):
    th = tier == "thorough"
    return [
        Scope("loaders", loaded, 1,
              "%d certificates x 24 loaders x metadata" % len(CERTS)),
        Scope("chains of two", lambda c: chain(c, 2), 1,
              "all pairs of certificates x 3 loaders x x5t"),
        Scope("chains of three", lambda c: chain(c, 3), 1,
              "4 x 7 x 7 certificates x 3 loaders x x5t"),
        Scope("thumbprints", lambda c: x5t(
            c, CERTS if th else ["v3-r0", "v1-r0", "many-r1"]), 2,
            "all 160 bits, truncations, extensions, encodings, other "
            "certificates x 6 loaders"),
        Scope("not RSA certificates", unusable, 1,
              "90 malformed certificates x 5 loaders"),
        Scope("served certificates", served, 1,
              "2 certificates from a server, twice"),
    ]
