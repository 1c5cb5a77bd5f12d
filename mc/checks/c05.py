"""C05: the right key is used, and only keys fit for the purpose."""
import functools
import itertools
import json

from mc.core import Scope, check, Prune
from mc import ref, keys as K
from mc.jose import *

# a key of the alphabet: (material, use, alg, kid); material relative to the
# algorithm: the right key, another one, another type, another curve
MATS = ["right", "wrong", "type", "curve"]
USES = ["", "sig", "enc", "SIG"]
KALG = ["", "same", "other"]
KIDS = ["", "a", "b"]
ASKED = [None, "a", "b"]
NEAR = ["a", "A", " a", "a ", "aa", "a\n", "a\0", "\u00e5", "a\u030a", "\u0430",
        "1", "01", "a/b", "b", "ab"]
FULL = list(itertools.product(MATS, USES, KALG, KIDS))
SMALL = [("right", "", "", ""), ("right", "", "", "a"),
         ("right", "sig", "", "b"), ("right", "enc", "", "a"),
         ("right", "", "other", "a"), ("right", "", "same", "b"),
         ("wrong", "", "", ""), ("wrong", "", "", "a"),
         ("wrong", "sig", "same", "b"), ("type", "", "", "a"),
         ("type", "", "same", ""), ("curve", "", "", "a")]
TINY = [SMALL[i] for i in (0, 1, 2, 3, 7, 9)]


def matname(rel, alg, n=0):
    """name of the key material"""
    if alg in SIG_ALGS:
        kt = ktype(alg)
        if rel == "right":
            return keyname(alg, 0)
        if rel == "wrong":
            return keyname(alg, 1)
        if rel == "curve":
            if kt != "EC":
                return None
            return K.ecname({"P-256": "P-384", "P-384": "P-521",
                             "P-521": "P-256"}[ref.ES[alg][0]], 3)
        return {"oct": "r0", "RSA": "p256.3", "EC": "h0.32"}[kt]
    kt = jwe_type(alg)
    if rel == "curve":
        return "p384.3" if kt == "EC" else None
    i = "0" if rel == "right" else "1"
    nm = {"RSA": "r" + i, "oct": "h%s.32" % i, "EC": "p256." + str(3 + int(i))}
    if rel == "type":
        return nm[{"RSA": "oct", "oct": "EC", "EC": "RSA"}[kt]].replace(
            "h1", "h0").replace("r1", "r0").replace("p256.4", "p256.3")
    return nm[kt]


def jwe_type(alg):
    return {"R": "RSA", "A": "oct", "E": "EC"}[alg[0]]


OTHER = {"HS256": "HS512", "RS256": "PS256", "PS256": "RS256",
         "ES256": "ES384", "RS512": "RS256", "ES384": "ES256",
         "PS512": "PS384", "HS512": "HS256", "ES512": "ES384",
         "HS384": "HS256", "RS384": "RS256", "PS384": "RS384",
         "RSA-OAEP": "RSA1_5", "RSA1_5": "RSA-OAEP", "A128KW": "A256KW",
         "RSA-OAEP-256": "RSA-OAEP", "A192KW": "A128KW", "A256KW": "A128KW",
         "ECDH-ES": "ECDH-ES+A128KW", "ECDH-ES+A128KW": "ECDH-ES",
         "ECDH-ES+A192KW": "ECDH-ES", "ECDH-ES+A256KW": "ECDH-ES"}


def make(spec, alg, private):
    rel, use, kalg, kid = spec
    name = matname(rel, alg)
    if name is None:
        raise Prune()
    ex = {}
    if use:
        ex["use"] = use
    if kalg:
        ex["alg"] = alg if kalg == "same" else OTHER[alg]
    if kid:
        ex["kid"] = kid
    return K.build(name, "object" if name[0] == "r" else "keyrep", private, **ex)


def model_pick(specs, alg, kid, use):
    """indices of the keys that may be used"""
    out = []
    for i, (rel, u, a, k) in enumerate(specs):
        if rel in ("type",):
            continue
        if rel == "curve" and alg in ref.ES:
            continue
        if kid and k != kid:
            continue
        if use and u and u != use:
            continue
        if a == "other":
            continue
        out.append(i)
    return out


def keylist(c, alphabet, n):
    return [c.choose("key %d" % i, alphabet) for i in range(n)]


def container(c, keys):
    from jwkest.jwk import KEYS
    kind = c.choose("container", ["list", "KEYS"])
    if kind == "list":
        return keys
    ks = KEYS()
    for k in keys:
        ks.append(k)
    return ks


def signing(alphabet, n, algs, kinds=True, kids=ASKED):
    def body(c):
        from jwkest.jws import JWS
        alg = c.choose("alg", algs)
        specs = keylist(c, alphabet, n)
        kid = c.choose("kid asked for", kids)
        keys = [make(s, alg, True) for s in specs]
        ks = container(c, keys) if kinds else keys
        kw = {"alg": alg}
        if kid:
            kw["kid"] = kid
        r = attempt(JWS("m", **kw).sign_compact, ks)
        cand = model_pick(specs, alg, kid, "sig")
        what = "alg %s, kid %s, keys %s" % (alg, kid, specs)
        if not cand:
            check(raised(r), "signed without a qualified key: %s -> %s" % (
                what, r))
            c.done("refused")
            return
        if raised(r):
            # a qualified key that can't make this signature
            check(all(specs[i][0] != "right" and specs[i][0] != "wrong"
                      for i in cand), "not signed: %s -> %r" % (what, r))
            c.done("unusable")
            return
        hdr = json.loads(ref.b64d(r.split(".")[0]))
        used = set()
        for i, s in enumerate(specs):
            try:
                ref.jws_open(r, K.MAT[matname(s[0], alg)], alg)
                used.add(i)
            except ref.Reject:
                pass
        check(used & set(cand), "signed with a key that doesn't qualify: %s" %
              what)
        check(hdr.get("kid", "") in [specs[i][3] for i in used & set(cand)],
              "kid %r isn't that of the key used: %s" % (hdr.get("kid"), what))
        c.done("signed")
    return body


def verifying(alphabet, n, algs, kinds=True, kids=ASKED):
    def body(c):
        from jwkest.jws import JWS
        alg = c.choose("alg", algs)
        specs = keylist(c, alphabet, n)
        hkid = c.choose("kid in token", kids)
        ckid = c.choose("kid asked for", kids)
        keys = [make(s, alg, False) for s in specs]
        ks = container(c, keys) if kinds else keys
        tok = token(alg, hkid)
        j = JWS(alg=alg, kid=ckid) if ckid else JWS()
        r = attempt(j.verify_compact_verbose, tok, ks)
        want = ckid or hkid
        cand = model_pick(specs, alg, want, "")
        # for verification use=enc is left open
        sure = [i for i in cand if specs[i][0] == "right" and
                specs[i][1] in ("", "sig")]
        can = [i for i in cand if specs[i][0] == "right"]
        what = "alg %s, token kid %s, asked %s, keys %s" % (
            alg, hkid, ckid, specs)
        if raised(r):
            check(not sure, "rejected: %s -> %r" % (what, r))
            c.done("rejected")
        else:
            check(can, "accepted: %s" % what)
            check(any(r["key"] is keys[i] for i in can),
                  "wrong key reported: %s" % what)
            c.done("accepted")
    return body


@functools.lru_cache(None)
def token(alg, kid):
    hdr = {"alg": alg}
    if kid:
        hdr["kid"] = kid
    return ref.jws_make(hdr, b"m", K.MAT[matname("right", alg)])


def encrypting(alphabet, n, algs, kids=ASKED):
    def body(c):
        from jwkest.jwe import JWE
        alg = c.choose("alg", algs)
        specs = keylist(c, alphabet, n)
        kid = c.choose("kid asked for", kids)
        keys = [make(s, alg, c.flag("private") if n == 1 else False)
                for s in specs]
        ks = container(c, keys)
        kw = {"alg": alg, "enc": "A128CBC-HS256"}
        if kid:
            kw["kid"] = kid
        r = attempt(JWE("m", **kw).encrypt, ks)
        cand = model_pick(specs, alg, kid, "enc")
        what = "alg %s, kid %s, keys %s" % (alg, kid, specs)
        if not cand:
            check(raised(r), "encrypted without a qualified key: %s" % what)
            c.done("refused")
            return
        check(not raised(r), "not encrypted: %s -> %r" % (what, r))
        used = {i for i, s in enumerate(specs) if opens(r, s, alg)}
        check(used & set(cand), "encrypted to a key that doesn't qualify: %s"
              % what)
        hdr = json.loads(ref.b64d(r.split(".")[0]))
        check(hdr.get("kid", "") in [specs[i][3] for i in used & set(cand)],
              "kid %r isn't that of the key used: %s" % (hdr.get("kid"), what))
        c.done("encrypted")
    return body


def refmat(rel, alg):
    m = K.MAT[matname(rel, alg)]
    return ("oct", ref.oidc_kek(m[1], alg)) if m[0] == "oct" else m


def opens(tok, spec, alg):
    if spec[0] == "type":
        return False
    try:
        ref.jwe_open(tok, refmat(spec[0], alg))
        return True
    except (ref.Reject, ValueError):
        return False


@functools.lru_cache(None)
def jwe_token(alg, kid):
    hdr = {"alg": alg, "enc": "A128CBC-HS256"}
    if kid:
        hdr["kid"] = kid
    return ref.jwe_make(hdr, b"m", refmat("right", alg), b"c" * 32,
                        b"i" * 16, epk_d=99)


def decrypting(alphabet, n, algs, kids=ASKED):
    def body(c):
        from jwkest import jwe
        from jwkest.jwe import JWE
        alg = c.choose("alg", algs)
        specs = keylist(c, alphabet, n)
        hkid = c.choose("kid in token", kids)
        how = c.choose("instance", ["JWE()", "factory"] +
                       ["kid " + k for k in kids if k])
        keys = [make(s, alg, True) for s in specs]
        ks = container(c, keys)
        tok = jwe_token(alg, hkid)
        if how == "factory":
            j = jwe.factory(tok)
            r = attempt(j.decrypt, None, ks)
            must, may = hkid, hkid
        elif how == "JWE()":
            r = attempt(JWE().decrypt, tok, ks)
            # whether the token's kid is a must or a hint is left open
            must, may = hkid, None
        else:
            kid = how[4:]
            r = attempt(JWE(alg=alg, kid=kid).decrypt, tok, ks)
            must = may = kid
        sure = [i for i in model_pick(specs, alg, must, "enc")
                if specs[i][0] == "right"]
        can = [i for i in model_pick(specs, alg, may, "enc")
               if specs[i][0] == "right"]
        what = "alg %s, token kid %s, %s, keys %s" % (alg, hkid, how, specs)
        if raised(r):
            check(not sure, "not decrypted: %s -> %r" % (what, r))
            c.done("rejected")
        else:
            check(r == b"m", "wrong plaintext")
            check(can, "decrypted: %s" % what)
            c.done("decrypted")
    return body


def many(c):
    """long lists of keys: the right one may be anywhere in them"""
    from jwkest.jws import JWS
    from jwkest.jwe import JWE
    op = c.choose("operation", ["sign", "verify", "verify json", "encrypt",
                                "decrypt"])
    sig = op in ("sign", "verify", "verify json")
    alg = c.choose("alg", ["HS256", "RS256"] if sig else
                   ["A128KW", "RSA-OAEP"])
    n = c.choose("keys", MANY)
    pos = c.choose("position", sorted({0, 1, 2, n // 2, n - 2, n - 1}))
    # others: keys that don't fit, or that fit but for their kid
    how = c.choose("others", ["wrong", "type", "use", "kid"])
    if how == "wrong" and op in ("sign", "encrypt"):
        raise Prune()       # any of them will do
    specs = [({"wrong": "wrong", "type": "type", "kid": "wrong",
               "use": "right"}[how],
              "" if how != "use" else "enc" if sig else "sig", "",
              "k%d" % i if how == "kid" else "") for i in range(n)]
    if how == "use" and op in ("verify", "verify json"):
        raise Prune()       # left open
    specs[pos] = ("right", "", "", "k%d" % pos if how == "kid" else "")
    kid = specs[pos][3] or None
    keys = container(c, [cached(s, alg) for s in specs])
    what = "%s %s, %d keys, the right one at %d, others: %s" % (
        op, alg, n, pos, how)
    if op == "sign":
        kw = {"kid": kid} if kid else {}
        r = attempt(JWS("m", alg=alg, **kw).sign_compact, keys)
        check(not raised(r), "%s: %r" % (what, r))
        check(ref.jws_open(r, K.MAT[matname("right", alg)], alg)[1] == b"m",
              what)
    elif op[:6] == "verify":
        t = token(alg, kid)
        if op == "verify":
            r = attempt(JWS().verify_compact, t, keys)
        else:
            h, p, s = t.split(".")
            r = attempt(JWS().verify_json, json.dumps(
                {"payload": p, "protected": h, "signature": s}), keys)
        check(r == "m", "%s: %r" % (what, r))
    elif op == "encrypt":
        kw = {"kid": kid} if kid else {}
        r = attempt(JWE("m", alg=alg, enc="A128CBC-HS256", **kw).encrypt, keys)
        check(not raised(r), "%s: %r" % (what, r))
        check(opens(r, specs[pos], alg), what)
    else:
        r = attempt(JWE().decrypt, jwe_token(alg, kid), keys)
        check(r == b"m", "%s: %r" % (what, r))
    c.done(op)


MANY = [4, 7, 9, 17, 33, 65]


@functools.lru_cache(None)
def cached(spec, alg):
    return make(spec, alg, True)


def scopes(tier):
    t = tier == "thorough"
    near = [("right", "", "", k) for k in [""] + NEAR]
    kms = ["RSA-OAEP", "A128KW", "ECDH-ES", "ECDH-ES+A128KW"]
    out = [
        Scope("sign 1", signing(FULL, 1, SIG_ALGS), 2,
              "12 algorithms x one key out of 144 variants x kid"),
        Scope("sign 2", signing(SMALL, 2, ["HS256", "RS256", "ES256", "PS512",
                                           "ES384"], t), 2,
              "5 algorithms x ordered pairs of 12 variants x kid"),
        Scope("sign 3", signing(TINY, 3, ["HS256"], False), 2,
              "ordered triples of 6 variants x kid"),
        Scope("verify 1", verifying(FULL, 1, SIG_ALGS), 2,
              "as sign 1 x kid in token"),
        Scope("verify 2", verifying(SMALL, 2, ["HS256", "RS256", "ES256"], t),
              2, "as sign 2 x kid in token"),
        Scope("verify 3", verifying(TINY, 3, ["HS256"], False), 2,
              "ordered triples of 6 variants x kids"),
        Scope("encrypt 1", encrypting(FULL, 1, kms), 2, "4 algorithms x one "
              "key out of 144 variants"),
        Scope("encrypt 2", encrypting(SMALL, 2, kms), 2, "4 algorithms x "
              "ordered pairs of 12 variants x kid"),
        Scope("decrypt 1", decrypting(FULL, 1, kms), 2, "4 algorithms x one "
              "key out of 144 variants x kid in token x 4 instances"),
        Scope("decrypt 2", decrypting(SMALL if t else TINY, 2, kms), 2,
              "4 algorithms x ordered pairs of 6 (thorough 12) variants x kid "
              "in token x 4 instances"),
        Scope("sign, near kids", signing(near, 1, ["HS256"], False,
                                         [None] + NEAR), 2,
              "16 x 16 kids that resemble each other"),
        Scope("verify, near kids", verifying(near, 1, ["HS256"], False,
                                             [None] + NEAR), 2,
              "16 kids of the key, of the token, asked for"),
        Scope("encrypt, near kids", encrypting(near, 1, ["A128KW"],
                                               [None] + NEAR), 2,
              "16 x 16 kids that resemble each other"),
        Scope("decrypt, near kids", decrypting(near, 1, ["A128KW"],
                                               [None] + NEAR), 2,
              "16 kids of the key, of the token, asked for"),
        Scope("many keys", many, 2, "lists of %s keys, the one that serves at "
              "6 positions" % MANY),
    ]
    if t:
        out += [
            Scope("sign 3 all", signing(SMALL, 3, ["HS256", "ES256"], False),
                  2, "ordered triples of 12 variants"),
            Scope("verify 3 all", verifying(SMALL, 3, ["HS256", "RS512"],
                                            False), 2,
                  "ordered triples of 12 variants"),
            Scope("decrypt 3", decrypting(TINY, 3, kms), 2,
                  "ordered triples of 6 variants"),
        ]
    return out
