"""C32: thumbprints are those of RFC 7638."""
import functools
import hashlib
import json

from mc.core import Scope, check, Prune, Violation
from mc import ref, keys as K
from mc.jose import *
from mc.checks.c30 import material, make

HASHES = ["SHA-256", "SHA-384", "SHA-512"]
KNOWN = "the thumbprint of an EC key leaves kty out"


def without_kty(spec, h):
    j = json.dumps({m: spec[m] for m in ("crv", "x", "y")}, sort_keys=True,
                   separators=(",", ":"))
    return hashlib.new("sha" + h[4:], j.encode()).digest()


def expected(mat, h, k=None):
    """What the thumbprint may be.  That EC thumbprints are not those of the
    RFC is a known finding (reported by the scope below); apart from that they
    have to be the digest over exactly crv, x and y."""
    spec = ref.jwk_of(mat, private=False)
    want = [ref.thumbprint(spec, h)]
    if mat[0] == "EC":
        want.append(without_kty(spec, h))
    return want


def right(k, mat, h, what):
    try:
        got = k.thumbprint(h)
    except Exception as e:
        check(False, "%s: no thumbprint: %r" % (what, e))
    check(got in expected(mat, h), "%s: %s thumbprint is %s" % (
        what, h, got.hex()))
    # naming the members of the RFC gives the RFC's value for all types
    rfc = k.thumbprint(h, members=ref.THUMB[mat[0]])
    check(rfc == ref.thumbprint(ref.jwk_of(mat, private=False), h),
          "%s: thumbprint over the RFC's members is wrong" % what)


def finding(c, names):
    """EC thumbprints with the default members"""
    mat = material(c.choose("key", names))
    h = c.choose("hash", HASHES)
    k = make(mat, "native", False, {})
    got = k.thumbprint(h)
    spec = ref.jwk_of(mat, private=False)
    if got == without_kty(spec, h):
        raise Violation("EC thumbprint lacks kty", KNOWN)
    check(got == ref.thumbprint(spec, h), "thumbprint %s" % got.hex())
    c.done("RFC")


META = [{}, {"kid": "k1"}, {"use": "sig", "alg": "RS256", "kid": "\u00e5"},
        {"use": "enc"}, {"key_ops": ["sign"], "ext": True, "n2": "x"},
        {"x5u": "https://example.com/"}]


def forms(c, names):
    name = c.choose("key", names)
    mat = material(name)
    private = c.choose("private", [True, False])
    pool = (K.PRIV_FORMS if private else K.PUB_FORMS)[mat[0]]
    if name in K.MAT:
        form = c.choose("form", pool)
    else:
        form = c.choose("form", ["native", "keyrep", "class"])
    meta = c.choose("metadata", META)
    h = c.choose("hash", HASHES)
    if form == "wrap" and set(meta) - {"kid", "use", "alg"}:
        raise Prune()
    if name in K.MAT:
        k = K.build(name, form, private, **meta)
    else:
        k = make(mat, form, private, meta)
    right(k, mat, h, "%s %s" % (name, form))
    c.done(h)


OPS = ["serialize private", "thumbprint", "hash", "get_hash", "add_kid",
       "deserialize", "public copy", "reload", "str", "set kid", "sign",
       "compare", "load other"]


def operate(k, op, mat, name):
    """-> the key object to go on with and its reference key"""
    from jwkest import jwk, jws
    if op == "serialize private":
        k.serialize(private=True)
    elif op == "thumbprint":
        k.thumbprint("SHA-512")
    elif op == "hash":
        hash(k)
    elif op == "get_hash":
        k.get_hash("SHA-384")
    elif op == "add_kid":
        k.add_kid()
        check(k.kid in [ref.b64e(t) for t in expected(mat, "SHA-256")],
              "add_kid makes %r" % (k.kid,))
    elif op == "deserialize":
        try:
            k.deserialize()
        except Exception:
            if mat[0] != "oct":     # not made from a JWK
                raise
    elif op == "public copy" and mat[0] != "oct":
        k = jwk.make_public_copy(k)
    elif op == "reload":
        k = jwk.keyrep(json.loads(json.dumps(k.serialize(private=True))))
    elif op == "str":
        str(k)
        k.keys()
    elif op == "set kid":
        k.kid, k.use, k.alg = "other", "sig", ""
    elif op == "sign":
        alg = {"oct": "HS256", "RSA": "RS256"}.get(mat[0]) or \
            ref.ES_OF[mat[1]]
        attempt(jws.JWS("x", alg=alg).sign_compact, [k])
    elif op == "compare":
        k == make(material("r2"), "native", False, {})
        k == make(mat, "native", False, {})
    elif op == "load other" and mat[0] == "RSA":
        mat = material("r2" if mat[1].n != material("r2")[1].n else "r1")
        k.load_key(mat[1])
    return k, mat


def history(c, names, depth):
    name = c.choose("key", names)
    mat = material(name)
    form = c.choose("form", ["native", "keyrep"])
    ops = [c.choose("op %d" % i, OPS) for i in range(depth)]
    k = make(mat, form, True, {})
    for op in ops:
        k, mat = operate(k, op, mat, name)
        before = json.dumps(k.serialize(private=True), sort_keys=True)
        for h in HASHES:
            right(k, mat, h, "after " + ", ".join(ops))
        check(json.dumps(k.serialize(private=True), sort_keys=True) == before,
              "a thumbprint changes the key")
    c.done("same")


def distinct(c, names):
    """neighbouring keys, that differ in one number only"""
    a = c.choose("key", names)
    b = c.choose("other", names)
    h = c.choose("hash", HASHES)
    ta, tb = [make(material(n), "native", n[0] != "r", {}).thumbprint(h)
              for n in (a, b)]
    check((ta == tb) == (a == b), "thumbprints of %s and %s are %s" % (
        a, b, "equal" if ta == tb else "different"))
    c.done("different" if a != b else "same")


def scopes(tier):
    th = tier == "thorough"
    ref.ES_OF = {"P-256": "ES256", "P-384": "ES384", "P-521": "ES512"}
    ec = ["p256.3", "p384.3", "p521.3"] + sorted(
        list(K.ZX.values()) + list(K.ZY.values())) + [
        "d256:1", "d384:2", "d521:-1"]
    octs = ["o" + "00" * n for n in (1, 2, 16)] + ["offfefbfbef"] + [
        "h0.%d" % n for n in (range(1, 40) if th else (1, 2, 3, 16, 32, 64))]
    rsa = ["r0", "r1", "e3", "e65539"]
    pool = ["h0.%d" % n for n in range(1, 9)] + ["o00", "o0000", "off"] + [
        "d256:%d" % n for n in (1, -1, 2, -2, 3)] + ["d384:1", "d384:-1",
                                                     "d521:1", "d521:-1"] + [
        "r0", "r1", "r2", "e3", "e65539"]
    return [
        Scope("EC per RFC", lambda c: finding(c, ec), 1,
              "12 EC keys x 3 hash functions"),
        Scope("RSA forms", lambda c: forms(c, rsa if th else rsa[:3]), 3,
              "RSA keys x 7 private and 9 public forms x 6 metadata x 3 "
              "hash functions"),
        Scope("EC forms", lambda c: forms(c, ec), 2,
              "12 EC keys x forms x metadata x hash functions"),
        Scope("oct forms", lambda c: forms(c, octs), 2,
              "symmetric keys x forms x metadata x hash functions"),
        Scope("histories", lambda c: history(
            c, ["p256.70", "r0", "o00ff"], 3 if th else 2), 3,
            "all histories of %d of 13 operations" % (3 if th else 2)),
        Scope("different keys", lambda c: distinct(c, pool), 1,
              "all pairs of %d keys" % len(pool)),
    ]
