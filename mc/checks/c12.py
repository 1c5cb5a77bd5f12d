"""C12: decryption finds the key, and fails alike for wrong keys."""
import functools
import itertools

from Cryptodome.PublicKey import RSA

from mc.core import Scope, check, Prune
from mc import ref, keys as K, jwe as J
from mc.jose import *

PT = b"for the right key"
ALGS = ref.RSA_ALGS + ref.KW_ALGS + ref.EC_ALGS
RIGHT = {"R": "r0", "A": "h0.32", "E": "p256.3"}
KINDS = ["right", "wrong", "wrong 2", "type a", "type b", "curve", "public",
         "none"]


@functools.lru_cache(None)
def token(alg, enc, kid=""):
    h = {"alg": alg, "enc": enc}
    if kid:
        h["kid"] = kid
    return ref.jwe_make(h, PT, J.mat(alg, RIGHT[alg[0]]),
                        J.octs("k", ref.CEKLEN[enc]),
                        J.octs("i", ref.IVLEN[enc]), epk_d=424243)


def key(alg, kind, **ex):
    t = alg[0]
    name = {"right": RIGHT[t], "public": RIGHT[t],
            "wrong": {"R": "r1", "A": "h1.32", "E": "p256.4"}[t],
            "wrong 2": {"R": "r2", "A": "h0.31", "E": "p256.5"}[t],
            "type a": {"R": "p256.3", "A": "r0", "E": "h0.32"}[t],
            "type b": {"R": "h0.32", "A": "p256.3", "E": "r0"}[t],
            "curve": {"E": "p384.3"}.get(t)}.get(kind)
    if name is None or (kind == "public" and t == "A"):
        raise Prune()
    return J.key(name, kind != "public", **ex)


def own(r):
    from jwkest import JWKESTException
    return raised(r) and isinstance(r.e, JWKESTException)


def lists(maxn, encs, algs=ALGS, kinds=KINDS[:-1]):
    def body(c):
        from jwkest import jwe
        from jwkest.jwe import JWE
        alg = c.choose("alg", algs)
        enc = c.choose("enc", encs)
        n = c.choose("keys", range(maxn + 1))
        ks = [c.choose("key %d" % i, kinds) for i in range(n)]
        api = c.choose("api", ["decrypt", "factory"]) if n < 3 else "decrypt"
        keys = [key(alg, k) for k in ks]
        t = token(alg, enc)
        if n == 0:
            keys = c.choose("no keys", [[], None])
        before = list(keys) if keys else keys
        if api == "decrypt":
            r = attempt(JWE().decrypt, t, keys)
        else:
            r = attempt(jwe.factory(t).decrypt, None, keys)
        check(keys == before, "key list changed")
        if "right" in ks:
            check(isinstance(r, bytes) and r == PT, "%s %s, keys %s: %r" % (
                alg, enc, ks, r))
            c.done("decrypted")
        else:
            check(raised(r), "%s %s, keys %s: %r" % (alg, enc, ks, r))
            check(own(r), "%s %s, keys %s: fails with %r" % (alg, enc, ks, r))
            c.done(r.name)
    return body


def many(c):
    """the right key anywhere in a long list"""
    from jwkest import jwe
    from jwkest.jwe import JWE
    alg = c.choose("alg", ALGS)
    n = c.choose("keys", [4, 5, 8, 9, 16, 17, 33, 65])
    at = c.choose("right key", ["first", "second", "middle", "last", "none"])
    other = c.choose("others", ["wrong", "type a", "type b", "mixed"])
    kid = c.choose("kid", ["", "every key", "numbered"])
    api = c.choose("api", ["decrypt", "factory"])
    if (kid or api == "factory") and n not in (9, 33):
        raise Prune()
    i = {"first": 0, "second": 1, "middle": n // 2, "last": n - 1,
         "none": None}[at]
    keys = []
    for j in range(n):
        what = "right" if j == i else other if other != "mixed" else \
            ["type b", "wrong", "type a", "wrong 2"][j % 4]
        ex = {"kid": {"every key": "a", "numbered": "a" if j == i else
                      "k%d" % j}[kid]} if kid else {}
        keys.append(key(alg, what, **ex))
    t = token(alg, J.CBC[0], "a" if kid else "")
    r = attempt(JWE().decrypt, t, keys) if api == "decrypt" else \
        attempt(jwe.factory(t).decrypt, None, keys)
    if i is not None:
        check(r == PT, "%s: key %d of %d (%s): %r" % (alg, i, n, other, r))
        c.done("decrypted")
    else:
        check(own(r), "%s: %d wrong keys: %r" % (alg, n, r))
        c.done(r.name)


def pinned(c):
    """the caller names the algorithm"""
    from jwkest import jwe
    from jwkest.jwe import JWE
    alg = c.choose("token", ALGS)
    pin = c.choose("pin", ALGS + ["dir", "RSA", "ECDH-ES+", "A128GCM", "none",
                                  alg.lower()])
    enc = c.choose("enc", [J.CBC[0], J.CBC[2]])
    ks = c.choose("keys", [("right",), ("wrong", "right"),
                           ("right", "type a", "type b")])
    api = c.choose("api", ["decrypt", "factory"])
    kid = c.choose("kid", ["", "a"])
    t = token(alg, enc, kid)
    ex = {"kid": kid} if kid else {}
    keys = [key(alg, k, **ex) for k in ks]
    j = JWE() if api == "decrypt" else jwe.factory(t)
    r = attempt(j.decrypt, t if api == "decrypt" else None, keys, pin)
    if pin == alg:
        check(r == PT, "%s pinned: %r" % (alg, r))
        c.done("decrypted")
    else:
        check(raised(r), "%s token decrypted although %s was asked for" % (
            alg, pin))
        check(own(r), "fails with %r" % r)
        c.done(r.name)


def raw_rsa(m, key):
    return ref.i2o(pow(m, key.e, key.n), key.size_in_bytes())


def em(kind, cek, k, pad=b"\x5a"):
    """an encoded message of k octets"""
    n = k - 3 - len(cek)
    return {
        "good": b"\0\2" + pad * n + b"\0" + cek,
        "type 1": b"\0\1" + b"\xff" * n + b"\0" + cek,
        "type 0": b"\0\0" + pad * n + b"\0" + cek,
        "first octet": b"\1\2" + pad * n + b"\0" + cek,
        "no separator": b"\0\2" + pad * (k - 2),
        "short padding": b"\0\2" + pad * 3 + b"\0" + pad * (k - 6 - len(cek))
        + cek if k - 6 - len(cek) >= 0 else None,
        "7 octets padding": b"\0\2" + pad * 7 + b"\0" +
        pad * (k - 10 - len(cek)) + cek,
        "no padding": b"\0\2\0" + pad * (k - 3 - len(cek)) + cek,
        "empty cek": b"\0\2" + pad * (k - 3) + b"\0",
        "cek one short": b"\0\2" + pad * (n + 1) + b"\0" + cek[1:],
        "cek one long": b"\0\2" + pad * (n - 1) + b"\0" + cek + b"\0",
        "cek half": b"\0\2" + pad * (n + len(cek) // 2) + b"\0" +
        cek[:len(cek) // 2],
        "cek double": b"\0\2" + pad * (n - len(cek)) + b"\0" + cek + cek,
        "cek 32": b"\0\2" + pad * (k - 35) + b"\0" + J.octs("q", 32),
        "other cek": b"\0\2" + pad * n + b"\0" + J.octs("q", len(cek)),
        "zero": bytes(k), "one": bytes(k - 1) + b"\1",
        "all ones": b"\0" + b"\xff" * (k - 1),
    }[kind]


EMS = ["type 1", "type 0", "first octet", "no separator", "short padding",
       "7 octets padding", "no padding", "empty cek", "cek one short",
       "cek one long", "cek half", "cek double", "cek 32", "other cek",
       "zero", "one", "all ones"]
RAWS = ["empty", "short", "long", "leading zero", "n", "n+1", "garbage",
        "double"]
REST = ["tag", "iv", "ciphertext", "tag cut"]


def outcome(r):
    return (r.name, str(r.e)) if raised(r) else r


def oracle(encs):
    """what the recipient of an RSA1_5 token says about it doesn't depend on
    why the token is bad (RFC 7516 section 11.5)"""
    def body(c):
        from jwkest import jwe
        from jwkest.jwe import JWE
        enc = c.choose("enc", encs)
        kind = c.choose("flaw", [("em", x) for x in EMS] +
                        [("raw", x) for x in RAWS] +
                        [("rest", x) for x in REST])
        ks = c.choose("keys", [("right",), ("wrong", "right"),
                               ("right", "wrong")])
        pin = c.choose("pin", [None, "RSA1_5"])
        api = c.choose("api", ["decrypt", "factory"])
        rk = K.MAT["r0"][1]
        t = token("RSA1_5", enc)
        ps = t.split(".")
        cek = J.octs("k", ref.CEKLEN[enc])
        size = rk.size_in_bytes()

        def run(p):
            keys = [key("RSA1_5", k) for k in ks]
            tok = ".".join(p)
            if api == "decrypt":
                return attempt(JWE().decrypt, tok, keys, pin)
            return attempt(jwe.factory(tok).decrypt, None, keys, pin)
        bad = list(ps)
        bad[4] = b64flip(ps[4], 0, 0)
        reference = run(bad)
        check(raised(reference), "wrong tag accepted")
        # the construction is right
        good = list(ps)
        good[1] = ref.b64e(raw_rsa(ref.o2i(em("good", cek, size)), rk))
        check(run(good) == PT, "good encoded message refused")
        what, how = kind
        p = list(ps)
        if what == "em":
            m = ref.o2i(em(how, cek, size))
            if m >= rk.n:
                m %= rk.n
            p[1] = ref.b64e(raw_rsa(m, rk))
        elif what == "raw":
            ek = ref.b64d(ps[1])
            p[1] = ref.b64e({
                "empty": b"", "short": ek[1:], "long": ek + b"\0",
                "leading zero": b"\0" + ek, "n": ref.i2o(rk.n, size),
                "n+1": ref.i2o(rk.n + 1, size), "garbage": J.octs("g", size),
                "double": ek + ek}[how])
            if how == "garbage":
                p[1] = ref.b64e(b"\0" + J.octs("g", size - 1))
        elif how == "tag":
            p[4] = b64flip(ps[4], 5, 5)
        elif how == "iv":
            p[2] = b64flip(ps[2], 5, 5)
        elif how == "ciphertext":
            p[3] = b64flip(ps[3], 5, 5)
        elif how == "tag cut":
            p[4] = ref.b64e(ref.b64d(ps[4])[:-1])
        r = run(p)
        check(raised(r), "%s %s accepted: %r" % (enc, kind, r))
        check(outcome(r) == outcome(reference),
              "%s %s: the failure is %r, for a wrong tag %r" % (
                  enc, kind, outcome(r), outcome(reference)))
        c.done(r.name)
    return body


def failures(c):
    """malformed tokens fail for every family with an exception, and a token
    that follows on the same object is decrypted"""
    from jwkest.jwe import JWE
    alg = c.choose("alg", ALGS)
    enc = c.choose("enc", J.CBC)
    p = c.choose("part", range(1, 5))
    new = c.choose("new value", [b"", b"\0", bytes(8), bytes(16), bytes(24),
                                 b"x" * 40, b"x" * 256, b"x" * 257])
    j = JWE()
    t = token(alg, enc)
    ps = t.split(".")
    if ref.b64d(ps[p]) == new:
        raise Prune()
    ps[p] = ref.b64e(new)
    keys = [key(alg, "wrong"), key(alg, "right")]
    r = attempt(j.decrypt, ".".join(ps), keys)
    check(raised(r), "%s %s part %d %r: %r" % (alg, enc, p, new, r))
    g = attempt(j.decrypt, t, keys)
    check(g == PT, "%s %s after a failure: %r" % (alg, enc, g))
    c.done(r.name)


def scopes(tier):
    th = tier == "thorough"
    return [
        Scope("lists", lists(3, [J.CBC[0]]), 3,
              "all lists of up to 3 of 7 kinds of keys x 10 algs"),
        Scope("lists enc", lists(2, J.CBC), 3,
              "all lists of up to 2 keys x 3 enc"),
        Scope("lists GCM", lists(2, J.GCM if th else ["A128GCM"], [
            "RSA1_5", "A128KW", "ECDH-ES", "ECDH-ES+A128KW"],
            ["right", "wrong", "type a"] if not th else KINDS[:-1]), 4,
            "all lists of up to 2 keys, GCM"),
        Scope("many keys", many, 2,
              "10 algs x lists of 4 to 65 keys x place of the right one"),
        Scope("pinned", pinned, 2, "10 token algs x 16 pins"),
        Scope("RSA1_5", oracle(J.CBC), 2, "29 flaws x key lists"),
        Scope("RSA1_5 GCM", oracle(J.GCM), 2, "29 flaws x key lists")
        if th else
        Scope("failures", failures, 2, "parts replaced, 10 algs x 3 enc"),
    ] + ([Scope("failures", failures, 2, "parts replaced, 10 algs x 3 enc")]
         if th else [])
