"""C30: keys survive being written as JWK and read back."""
import functools
import json

from Cryptodome.PublicKey import RSA

from mc.core import Scope, check, Prune
from mc import ref, keys as K, jwe as J
from mc.jose import *


# --- key material: name -> (reference key, has private part) --------------------

def material(name):
    if name.startswith("d"):            # d<crv>:<number>
        crv, d = name[1:].split(":")
        cv = ref.CURVES["P-" + crv]
        d = int(d) % cv.n
        return ("EC", "P-" + crv, cv.pub(d), d)
    if name.startswith("e"):            # another public exponent
        return small_rsa(int(name[1:]))
    if name.startswith("o"):            # o<hex>
        return ("oct", bytes.fromhex(name[1:]))
    return K.MAT[name]


@functools.lru_cache(None)
def small_rsa(e):
    """the primes of r0 with another exponent"""
    k = K.MAT["r0"][1]
    phi = (k.p - 1) * (k.q - 1)
    import math
    while math.gcd(e, phi) != 1:
        e += 2
    return ("RSA", RSA.construct((k.n, e, pow(e, -1, phi), k.p, k.q)))


META = [{}, {"kid": "k1"}, {"use": "sig"}, {"use": "enc", "kid": "\u00e5\u20ac"},
        {"alg": "RS256", "kid": "0", "use": "sig"}, {"alg": "ES256"},
        {"kid": "a b/+=\"\\", "alg": "A128KW", "use": "enc"},
        {"kid": " k\n", "use": "own-use", "alg": "alg of its own"},
        {"kid": "k" * 300, "use": " sig", "alg": "rs256 "}]


def make(mat, form, private, meta):
    from jwkest import jwk
    kt = mat[0]
    cls = {"oct": jwk.SYMKey, "RSA": jwk.RSAKey, "EC": jwk.ECKey}[kt]
    if form == "native":
        if kt == "oct":
            return cls(key=mat[1], **meta)
        if kt == "RSA":
            return cls(key=mat[1] if private else mat[1].public_key(), **meta)
        return cls(crv=mat[1], x=mat[2][0], y=mat[2][1],
                   d=mat[3] if private else "", **meta)
    spec = ref.jwk_of(mat, private=private, **meta)
    if form == "keyrep":
        return jwk.keyrep(spec)
    if form == "class":
        return cls(**spec)
    if form == "no primes":
        for m in ("p", "q"):
            del spec[m]
        return jwk.keyrep(spec)
    raise ValueError(form)


def store(k, how):
    """-> JWK dict, with the private part?"""
    from jwkest import jwk
    if how == "private":
        return k.serialize(private=True), True
    if how == "public":
        return k.serialize(private=False), False
    if how == "default":
        return k.serialize(), False
    if how == "to_dict":
        return k.to_dict(), True
    if how == "json":
        return json.loads(json.dumps(k.serialize(private=True))), True
    ks = jwk.KEYS()
    ks.append(k)
    if how == "dump":
        return json.loads(ks.dump_jwks())["keys"][0], False
    if how == "str":
        return json.loads(str(ks))["keys"][0], False
    if how == "public copy":
        return jwk.make_public_copy(k).serialize(private=True), False
    raise ValueError(how)


STORES = ["private", "public", "default", "to_dict", "json", "dump", "str",
          "public copy"]
LOADS = ["keyrep", "no enc", "class", "jwks", "dict", "add", "add no enc",
         "load_jwks", "from_jwk_dict"]


def load(spec, how, private):
    from jwkest import jwk
    spec = dict(spec)
    if how == "keyrep":
        return jwk.keyrep(spec)
    if how == "no enc":
        return jwk.keyrep(spec, enc=None)
    if how == "class":
        return {"oct": jwk.SYMKey, "RSA": jwk.RSAKey,
                "EC": jwk.ECKey}[spec["kty"]](**spec)
    if how == "from_jwk_dict":
        if private and "d" not in spec and spec["kty"] != "oct" or \
                private and spec["kty"] == "RSA" and "p" not in spec:
            raise Prune()
        return jwk.key_from_jwk_dict(spec, private)
    if how == "load_jwks":
        return jwk.load_jwks(json.dumps({"keys": [spec]}))[0]
    ks = jwk.KEYS()
    if how == "jwks":
        ks.load_jwks(json.dumps({"keys": [spec]}))
    elif how == "dict":
        ks.load_dict({"keys": [spec]})
    elif how == "add":
        ks.add(spec)
    elif how == "add no enc":
        ks.add(spec, enc=None)
    return list(ks)[0]


def conform(spec, mat, private, meta):
    """The JWK is the one of RFC 7517/7518 for this key."""
    want = ref.jwk_of(mat, private=private, **meta)
    got = {k: v for k, v in spec.items()}
    if mat[0] == "RSA" and private:
        # p and q may be left out or come in any order, CRT values may be added
        k = mat[1]
        for m, v in (("dp", k.d % (k.p - 1)), ("dq", k.d % (k.q - 1)),
                     ("qi", pow(k.q, -1, k.p))):
            if m in got and got.get("p") == want["p"]:
                check(got.pop(m) == ref.uint_b64(v), "wrong %s" % m)
        if "p" not in got:
            del want["p"], want["q"]
        elif got.get("p") == want["q"]:
            want["p"], want["q"] = want["q"], want["p"]
    if mat[0] == "oct":
        want.setdefault("k", ref.b64e(mat[1]))
    check(got == want, "JWK is %r, not %r" % (got, want))


def same_key(k, mat, private, meta):
    """The key object denotes this key."""
    kt = mat[0]
    check(k.kty == kt, "kty %r" % (k.kty,))
    for m in ("kid", "use", "alg"):
        check(getattr(k, m) == meta.get(m, ""), "%s is %r, not %r" % (
            m, getattr(k, m), meta.get(m, "")))
    if kt == "oct":
        check(bytes(k.key) == mat[1], "octets %r" % (k.key,))
    elif kt == "RSA":
        check((k.n, k.e) == (mat[1].n, mat[1].e), "modulus or exponent")
        check(k.key.n == mat[1].n and k.key.e == mat[1].e, "RSA object")
        check(bool(k.d) == private and k.key.has_private() == private,
              "private part: %r" % (bool(k.d),))
        if private:
            check(k.d == mat[1].d and k.key.d == mat[1].d, "d")
    else:
        check(k.curve.name() == mat[1] and (k.x, k.y) == mat[2], "point")
        check(bool(k.d) == private and (not private or k.d == mat[3]),
              "private part: %r" % (k.d,))


SIGALG = {"RSA": "RS256", "oct": "HS256", "P-256": "ES256", "P-384": "ES384",
          "P-521": "ES512"}


def works(k, mat, private, meta):
    from jwkest.jws import JWS
    if meta.get("use") == "enc" or meta.get("alg"):
        return
    alg = SIGALG[mat[1] if mat[0] == "EC" else mat[0]]
    kid = {"kid": meta["kid"]} if "kid" in meta else {}
    if private or mat[0] == "oct":
        t = JWS(b"data", alg=alg).sign_compact([k])
        h, p = ref.jws_open(t, K.pub(mat), alg)
        check(p == b"data" and h.get("kid", "") == meta.get("kid", ""),
              "signed %r" % (h,))
    t = ref.jws_make(dict(kid, alg=alg), b"data", mat)
    check(attempt(JWS().verify_compact, t, [k]) == "data", "verification")


def trip(c, names, metas, forms, stores, loads, depth, use=True):
    """chains of storing and loading"""
    name = c.choose("key", names)
    meta = c.choose("metadata", metas)
    mat = material(name)
    private = c.choose("private", [True, False])
    if mat[0] == "oct" and not private:
        raise Prune()
    form = c.choose("form", forms)
    if form == "no primes" and (mat[0] != "RSA" or not private):
        raise Prune()
    chain = []
    for i in range(depth):
        s = c.choose("store %d" % i, stores)
        l = c.choose("load %d" % i, loads)
        lp = l != "from_jwk_dict" or c.flag("private")
        chain.append((s, l, lp))
        if s == "public copy" and mat[0] == "oct":
            raise Prune()
    first = k = make(mat, form, private, meta)
    for s, l, lp in chain:
        try:
            spec, withpriv = store(k, s)
        except Exception as e:
            check(False, "%s: can't be written: %r" % (s, e))
        before = json.dumps(spec, sort_keys=True)
        conform(spec, mat, private and withpriv, meta)
        private = private and withpriv
        if l == "from_jwk_dict" and lp and not private and mat[0] != "oct":
            raise Prune()
        private = private and lp
        try:
            k = load(spec, l, lp)
        except Exception as e:
            if isinstance(e, Prune):
                raise
            check(False, "%s: can't be read: %r %r" % (l, spec, e))
        check(json.dumps(spec, sort_keys=True) == before, "the JWK changed")
        same_key(k, mat, private, meta)
        check(k == first and first == k and hash(k) == hash(first),
              "the key read is not equal")
    if use:
        works(k, mat, private, meta)
    c.done("same key")


# --- JWKs made elsewhere ------------------------------------------------------------

def foreign(c, names):
    """conforming JWKs with all kinds of optional and unknown members"""
    from jwkest import jwk
    name = c.choose("key", names)
    mat = material(name)
    private = c.choose("private", [True, False])
    if mat[0] == "oct" and not private:
        raise Prune()
    extra = c.choose("other members", [
        {}, {"key_ops": ["sign", "verify"], "ext": True}, {"x-unknown": 5},
        {"use": "sig", "kid": "K", "alg": "none"}, {"nested": {"a": [1, None]}},
        {"x5u": "https://example.com/c.pem"}, {"exp": 12.5, "nbf": None},
        {"x5t#S256": "abc"}, {"comment": "\u00e5"}])
    order = c.choose("order", ["sorted", "reversed", "kty last"])
    crt = c.flag("CRT") if mat[0] == "RSA" and private else False
    how = c.choose("load", LOADS[:-1])
    spec = ref.jwk_of(mat, private=private, **extra)
    if crt:
        k = mat[1]
        spec.update(dp=ref.uint_b64(k.d % (k.p - 1)),
                    dq=ref.uint_b64(k.d % (k.q - 1)),
                    qi=ref.uint_b64(pow(k.q, -1, k.p)))
    items = sorted(spec.items(), reverse=order == "reversed")
    if order == "kty last":
        items = [i for i in items if i[0] != "kty"] + [("kty", spec["kty"])]
    k = load(dict(items), how, private)
    same_key(k, mat, private, extra)
    meta = {m: v for m, v in extra.items() if m in ("kid", "use", "alg",
                                                    "x5u")}
    out = k.serialize(private=True)
    conform(out, mat, private, meta)
    back = load(json.loads(json.dumps(out)), how, private)
    same_key(back, mat, private, extra)
    c.done("read")


def certmeta(which, kid, octets=False):
    """certificate members for the key r0"""
    import base64
    import hashlib
    m = {}
    chain = [K.cert_b64(0), K.cert_b64(1)]
    if "c" in which:
        m["x5c"] = chain[:which.count("c")]
        if octets:
            m["x5c"] = [x.encode() for x in m["x5c"]]
    if "t" in which:
        m["x5t"] = ref.b64e(hashlib.sha1(base64.b64decode(
            chain[0])).digest())
    if "u" in which:
        m["x5u"] = "https://example.com/c.pem?a=%20b"
    if kid:
        m["kid"] = "k1"
    return m


def certificates(c, depth):
    """certificate members are a part of the key that is written and read"""
    from jwkest import jwk
    which = c.choose("members", ["c", "t", "u", "cctu"] + (
        ["cc", "ct", "cu", "tu"] if depth > 1 else []))
    name = c.choose("key", ["r0", "p256.3"])
    mat = material(name)
    kid = c.flag("kid")
    meta = certmeta(which, kid)
    form = c.choose("made from", ["native", "class", "keyrep", "certificate",
                                  "octets"])
    private = c.flag("private")
    if form in ("certificate", "octets") and (name != "r0" or private or
                                              "c" not in which):
        raise Prune()
    if form == "certificate":
        k = jwk.RSAKey(**meta)
    elif form == "octets":
        k = jwk.RSAKey(**certmeta(which, kid, True))
    else:
        k = make(mat, form, private, meta)
    first = k
    for i in range(depth):
        s = c.choose("store %d" % i, STORES if not i else ["to_dict", "dump"])
        l = c.choose("load %d" % i, LOADS if not i else ["keyrep", "class",
                                                         "from_jwk_dict"])
        if s == "public copy" and mat[0] == "EC":
            raise Prune()       # copies what makes EC keys equal
        try:
            spec, withpriv = store(k, s)
            text = json.dumps(spec)
        except Exception as e:
            check(False, "%s: can't be written: %r" % (s, e))
        private = private and withpriv
        conform(spec, mat, private, meta)
        if l == "from_jwk_dict":
            private = private and c.flag("private key")
        k = load(json.loads(text), l, private)
        if "x5c" in spec and isinstance(spec["x5c"], list):
            spec["x5c"].append("other")     # what was written is ours
        same_key(k, mat, private, meta)
        for m in ("x5c", "x5t", "x5u"):
            check(getattr(k, m) == meta.get(m, [] if m == "x5c" else ""),
                  "%s is %r" % (m, getattr(k, m)))
        check(k == first and first == k and hash(k) == hash(first),
              "the key read is not equal: %s %s" % (s, l))
    c.done("same key")


# --- one RSAKey object, loaded again and again ------------------------------------------

ROPS = ["load_key r0", "load_key r1", "load_key r2 public", "load_key r0 public",
        "load file", "serialize", "hash"]


def reload(c, depth):
    import os
    from jwkest import jwk
    start = c.choose("made", ["empty", "r1 jwk", "r0 crt"])
    ops = [c.choose("op %d" % i, ROPS) for i in range(depth)]
    if start == "empty" and not ops[0].startswith("load"):
        raise Prune()
    k0 = K.MAT["r0"][1]
    if start == "empty":
        k, cur = jwk.RSAKey(kid="k"), None
    elif start == "r1 jwk":
        k = jwk.RSAKey(**ref.jwk_of(K.MAT["r1"], private=True, kid="k"))
        cur = (K.MAT["r1"], True)
    else:
        k = jwk.RSAKey(dp=ref.uint_b64(k0.d % (k0.p - 1)),
                       dq=ref.uint_b64(k0.d % (k0.q - 1)),
                       **ref.jwk_of(K.MAT["r0"], private=True, kid="k"))
        cur = (K.MAT["r0"], True)
    for op in ops:
        if op.startswith("load_key"):
            m = K.MAT[op.split()[1]]
            priv = not op.endswith("public")
            k.load_key(m[1] if priv else m[1].public_key())
            cur = (m, priv)
        elif op == "load file":
            k.load(os.path.join(K.D, "rsa2.pem"))
            cur = (K.MAT["r2"], True)
        elif op == "serialize":
            conform(k.serialize(), cur[0], False, {"kid": "k"})
        else:
            hash(k)
        same_key(k, cur[0], cur[1], {"kid": "k"})
        conform(k.serialize(private=True), cur[0], cur[1], {"kid": "k"})
    works(k, cur[0], cur[1], {"kid": "k"})
    c.done("same key")


def sets(c):
    """whole key sets, in order, more than once"""
    from jwkest import jwk
    pool = ["h0.32", "p256.3", "r0", "p521.9", "o00"]
    sel = [c.choose("key %d" % i, [None] + pool) for i in range(3)]
    times = c.choose("times", [1, 2])
    ks = jwk.KEYS()
    want = []
    for i, n in enumerate(sel):
        if n:
            meta = {"kid": "k%d" % i}
            ks.append(make(material(n), "native", True, meta))
            want.append((material(n), meta))
    for _ in range(times):
        ks = jwk.KEYS().load_jwks(ks.dump_jwks())
    got = list(ks)
    check(len(got) == len(want), "%d keys, not %d" % (len(got), len(want)))
    for k, (m, meta) in zip(got, want):
        same_key(k, m, False, meta)
    c.done("%d keys" % len(want))


# --- less usual ways to make a key --------------------------------------------------

def steps(c):
    """an empty key object, its members set one after another, then used"""
    from jwkest import jwk
    name = c.choose("key", ["p256.3", "p521.9", "d256:1", "r0", "e3", "h0.32",
                            "o00ff"])
    mat = material(name)
    kt = mat[0]
    private = c.choose("private", [True, False])
    if kt == "oct" and not private:
        raise Prune()
    types = c.choose("values", ["str", "bytes", "int"])
    if types == "int" and kt != "EC":
        raise Prune()
    spec = ref.jwk_of(mat, private=private)
    first = c.choose("first", ["encryption_key", "deserialize", "get_key",
                               "serialize", "jwk_wrap"])
    cls = {"oct": jwk.SYMKey, "RSA": jwk.RSAKey, "EC": jwk.ECKey}[kt]
    k = cls(kid="k")
    for m, v in sorted(spec.items(), reverse=c.flag("reversed")):
        if m == "kty":
            continue
        if types == "int" and m != "crv":
            v = ref.o2i(ref.b64d(v))
        elif types == "bytes" or kt == "oct":
            v = v.encode()
        setattr(k, m, v)
    if first == "encryption_key" and kt == "EC":
        raise Prune()
    if first in ("get_key", "serialize", "jwk_wrap"):
        r = attempt(k.get_key) if first == "get_key" else \
            attempt(k.serialize)
        if kt != "EC":
            check(raised(r) or not r or first == "serialize" and
                  r == dict(spec, kid="k"), "%s before the key is read: %r" % (
                      first, r))
    r = attempt(k.encryption_key, alg="A128KW") \
        if first == "encryption_key" else attempt(k.deserialize)
    check(not raised(r), "%s: %r" % (first, r))
    same_key(k, mat, private, {"kid": "k"})
    conform(k.serialize(private=True), mat, private, {"kid": "k"})
    other = make(mat, "native", private, {"kid": "k"})
    check(k == other and hash(k) == hash(other), "not equal")
    works(k, mat, private, {"kid": "k"})
    c.done("same key")


def generated(c):
    """EC keys made from a curve; keys wrapped; lists of raw keys"""
    from jwkest import jwk
    from jwkest.ecc import NISTEllipticCurve
    how = c.choose("how", ["ECKey(key=curve)", "load_key", "jwk_wrap",
                           "keyitems2keyreps", "KEYS.wrap_add"])
    kt = c.choose("type", ["P-256", "P-384", "P-521", "oct", "RSA"])
    upper = c.choose("case", [str.upper, str.lower, str.title])
    kid = c.choose("kid", ["", "k"])
    raw = {"oct": "\u00e5secret", "RSA": K.MAT["r0"][1]}.get(kt)
    if raw is None:
        raw = NISTEllipticCurve.by_name(kt)
    meta = {"kid": kid} if kid else {}
    if how == "ECKey(key=curve)" or how == "load_key":
        if kt[0] != "P":
            raise Prune()
        k = jwk.ECKey(key=raw, kid=kid) if how[0] == "E" else \
            jwk.ECKey(kid=kid).load_key(raw)
    elif how == "jwk_wrap":
        k = jwk.jwk_wrap(raw, kid=kid)
    elif how == "KEYS.wrap_add":
        ks = jwk.KEYS()
        ks.wrap_add(raw, kid=kid)
        k = list(ks)[0]
    else:
        if kid:
            raise Prune()
        items = {upper("ec" if kt[0] == "P" else kt): [raw, raw]}
        ks = jwk.keyitems2keyreps(items)
        check(len(ks) == 2, "%d keys" % len(ks))
        k = ks[c.choose("which", [0, 1])]
    if kt == "oct":
        mat = ("oct", raw.encode("utf-8"))
    elif kt == "RSA":
        mat = ("RSA", raw)
    else:
        cv = ref.CURVES[kt]
        check(isinstance(k.d, int) and 0 < k.d < cv.n, "d is %r" % (k.d,))
        mat = ("EC", kt, cv.pub(k.d), k.d)
    same_key(k, mat, True, meta)
    spec = k.serialize(private=True)
    conform(spec, mat, True, meta)
    back = load(json.loads(json.dumps(spec)), c.choose("load", LOADS[:-1]),
                True)
    same_key(back, mat, True, meta)
    check(back == k and hash(back) == hash(k), "not equal")
    works(k, mat, True, meta)
    works(back, mat, True, meta)
    c.done("same key")


def refused(c):
    """text that is no key is not read as one"""
    from jwkest import jwk
    name = c.choose("key", ["p256.3", "p521.9", "r0", "e3"])
    mat = material(name)
    how = c.choose("load", [l for l in LOADS if l != "from_jwk_dict"])
    spec = ref.jwk_of(mat, private=c.flag("private"))
    if mat[0] == "EC":
        m = c.choose("member", ["crv", "x", "y", "kty", "kid"])
        other = ref.CURVES[mat[1]]
        bad = {"crv": ["P-192", "P-224", "secp256k1", "", "p-256", "Ed25519"],
               "x": ["", None, "AA", "A", spec["y"], 1, []],
               "y": ["", None, "AA", "A", spec["x"], 1,
                     ref.b64e(ref.i2o(other.p - mat[2][1] + 1,
                                      other.bytes))],
               "kty": [None], "kid": [5, ["a"], {"a": 1}, 1.5]}[m]
    else:
        m = c.choose("member", ["n", "e", "kty"])
        bad = {"n": ["", None, "A"], "e": ["", None, "A"], "kty": [None]}[m]
    v = c.choose("value", bad)
    if v is None:
        del spec[m]
    else:
        spec[m] = v
    if m == "crv" and v == "" and how in ("class", "no enc", "add no enc"):
        # an object without a curve, to be filled in later
        k = attempt(load, spec, how, True)
        check(raised(k) or raised(attempt(k.serialize)), "a key without crv")
        return c.done("refused")
    k = attempt(load, spec, how, True)
    if raised(k):
        return c.done("refused")
    # an object may come back, but it is of no use
    alg = "ES256" if mat[0] == "EC" and mat[1] == "P-256" else \
        "ES512" if mat[0] == "EC" else "RS256"
    from jwkest.jws import JWS
    t = ref.jws_make({"alg": alg}, b"x", mat)
    r = attempt(JWS().verify_compact, t, [k])
    check(raised(r), "%s = %r: verifies" % (m, v))
    r = attempt(JWS(b"x", alg=alg).sign_compact, [k])
    check(raised(r), "%s = %r: signs %r" % (m, v, r))
    if m in ("x", "y", "crv", "n", "e"):
        from jwkest.jwe import JWE
        r = attempt(JWE(b"x", alg="ECDH-ES" if mat[0] == "EC" else "RSA-OAEP",
                        enc="A128CBC-HS256").encrypt, [k])
        check(raised(r), "%s = %r: encrypts" % (m, v))
    c.done("of no use")


def unknown_type(c):
    from jwkest import jwk
    kty = c.choose("kty", ["foo", "", "ec", "rsa", "OCT", "OKP", None, 5])
    how = c.choose("how", ["from_jwk_dict", "from_jwk_dict public"])
    spec = ref.jwk_of(material(c.choose("members of", ["p256.3", "r0",
                                                       "h0.32"])), True)
    spec["kty"] = kty
    r = attempt(jwk.key_from_jwk_dict, spec, how == "from_jwk_dict")
    check(raised(r), "a key of type %r: %r" % (kty, r))
    c.done("refused")


def scopes(tier):
    th = tier == "thorough"
    ec = ["p256.3", "p384.3", "p521.3"] + sorted(
        list(K.ZX.values()) + list(K.ZY.values())) + [
        "d256:1", "d256:%d" % (1 << 240), "d521:5", "d384:%d" % (1 << 375),
        "d521:%d" % (1 << 512), "d256:-1"]
    oct_ = ["h0.%d" % n for n in ([1, 2, 3, 4, 5, 16, 31, 32, 33, 64, 65, 200]
                                  if not th else range(1, 100))] + [
        "o00", "o0000", "o00ff", "offfefbfbef", "o" + "00" * 32, "o3d3d",
        "o" + "ff" * 64, "o610a", "o0a", "o20", "o2061200d0a", "o2b2f3d3d",
        "h0.257", "h0.4097"]
    rsa = ["r0", "r1", "r2", "e3", "e65539", "e%d" % ((1 << 64) + 13)]
    few = [META[0], META[3], META[4]]
    return [
        Scope("EC", lambda c: trip(c, ec, META, ["native", "keyrep", "class"],
                                   STORES, LOADS, 1, th), 2,
              "15 EC keys (coordinates and d with leading zeros, d = 1, -1) x "
              "7 metadata x 3 forms x 8 ways to write x 9 to read"),
        Scope("oct", lambda c: trip(c, oct_, META, ["native", "keyrep",
                                                    "class"],
                                    STORES[:-1], LOADS, 1, True), 2,
              "%d symmetric keys x 7 metadata x 3 forms x 7 x 9" % len(oct_)),
        Scope("RSA", lambda c: trip(
            c, rsa if th else rsa[:2] + rsa[3:5],
            META if th else [META[3], META[7]], ["native", "class",
                                                  "no primes"],
            STORES if th else STORES[:1] + STORES[2:4] + STORES[5:],
            LOADS if th else LOADS[:5] + LOADS[-1:], 1, True), 5,
            "RSA keys with several exponents, with and without primes"),
        Scope("EC chains", lambda c: trip(
            c, ["p256.70", "d521:5"] if not th else ec[:9], few, ["native"],
            STORES, LOADS, 2, False), 3,
            "chains of two"),
        Scope("oct chains", lambda c: trip(
            c, ["o00ff"], [META[3]], ["keyrep"], STORES[:-1], LOADS,
            3 if th else 2, True), 5, "chains of %d" % (3 if th else 2)),
        Scope("RSA chains", lambda c: trip(
            c, ["r0"], [META[3]], ["native"],
            ["private", "default", "dump", "public copy"],
            ["keyrep", "class", "from_jwk_dict"] if not th else LOADS,
            2, True), 5, "chains of two"),
        Scope("made elsewhere", lambda c: foreign(
            c, (["p256.3", "p521.9", "h0.32", "o00", "r0", "e3"])), 3,
            "6 keys x 9 sets of other members x 3 orders x CRT x 8 loaders"),
        Scope("certificate members", lambda c: certificates(
            c, 2 if th else 1), 3,
              "4 sets (8 in thorough) of certificate members x 2 keys x 5 "
              "forms x 8 x 9 ways to write and read (and 6 more in thorough)"),
        Scope("reloaded RSA keys", lambda c: reload(c, 4 if th else 3), 2,
              "3 starts x all sequences of 7 operations"),
        Scope("key sets", sets, 1, "all lists of up to 3 of 5 keys"),
        Scope("in steps", steps, 2, "7 keys x types of values x first use"),
        Scope("generated and wrapped", generated, 2,
              "5 ways x 5 types x 8 loaders"),
        Scope("no keys", refused, 2, "JWKs without a usable value"),
        Scope("unknown types", unknown_type, 1, "8 types"),
    ]
