"""C33: key equality is an equivalence, consistent with hashing."""
import functools
import json

from mc.core import Scope, check, Prune
from mc import ref, keys as K
from mc.jose import *
from mc.checks.c30 import material, make

METAS = [{}, {"kid": "a"}, {"kid": "b"}, {"use": "sig"}, {"use": "enc"},
         {"alg": "X"}, {"kid": "a", "use": "sig"}, {"kid": "sig"},
         {"kid": "", "use": "", "alg": ""}]


def model(mat, meta, certs=()):
    """equal keys are those for which this is equal"""
    if mat[0] == "RSA":
        pub = (mat[1].n, mat[1].e)
    elif mat[0] == "EC":
        pub = (mat[1],) + tuple(mat[2])
    else:
        pub = mat[1]
    return (mat[0], pub, tuple(meta.get(m) or "" for m in
                               ("kid", "use", "alg")), tuple(certs))


@functools.lru_cache(None)
def elements(names, metas, forms=None):
    """(description, how to make it, model)"""
    out = []
    for n in names:
        mat = material(n)
        for private, pool in ((True, K.PRIV_FORMS), (False, K.PUB_FORMS)):
            if mat[0] == "oct" and not private:
                continue
            pool = pool[mat[0]] if n in K.MAT else ["native", "keyrep",
                                                    "class"]
            for f in pool:
                if forms and f not in forms:
                    continue
                for i in metas:
                    certs = (K.cert_b64(int(n[1])),) if f == "x5c" else ()
                    out.append(((n, f, private, i),
                                model(mat, METAS[i], certs)))
    return out


@functools.lru_cache(None)
def cached(e):
    return fresh(e)


def fresh(e):
    n, f, private, i = e
    if n in K.MAT:
        return K.build(n, f, private, **METAS[i])
    return make(material(n), f, private, METAS[i])


def compare(a, b, ea, eb, equal):
    """both comparisons and the hashes"""
    for x, y, ex, ey in ((a, b, ea, eb), (b, a, eb, ea)):
        try:
            eq, ne = (x == y), (x != y)
        except Exception as e:
            check(False, "%s == %s: %r" % (ex, ey, e))
        check(bool(eq) == equal and bool(ne) != equal,
              "%s == %s is %r, != is %r" % (ex, ey, eq, ne))
    if equal:
        check(hash(a) == hash(b), "%s and %s are equal, not their hashes"
              % (ea, eb))
        check(len({a, b}) == 1 and {a: 1}.get(b) == 1 and b in [a],
              "%s is not found as %s" % (ea, eb))
    check(len({a, b}) == (1 if equal else 2), "set of %s and %s" % (ea, eb))


def pairs(c, els):
    ea, ma = c.choose("key", els)
    eb, mb = c.choose("other", els)
    compare(cached(ea), cached(eb), ea, eb, ma == mb)
    c.done("equal" if ma == mb else "different")


# --- the model is an equivalence, so pairs that match it are one ------------------

def near(c):
    """keys that differ in as little as possible"""
    from jwkest import jwk
    kind = c.choose("kind", ["RSA e", "RSA n", "EC crv", "EC y", "oct", "kty",
                             "x5t", "x5u", "x5c", "other class", "swap",
                             "case", "x5c order", "x5c more"])
    p = K.MAT["p256.3"]
    r = ref.jwk_of(K.MAT["r0"])
    o = {"kty": "oct", "k": ref.b64e(b"\0a")}

    def both(a, b):
        i = c.choose("load", ["keyrep", "class", "mixed"])

        def one(s, how):
            cls = {"RSA": jwk.RSAKey, "EC": jwk.ECKey, "oct": jwk.SYMKey}
            return jwk.keyrep(s) if how == "keyrep" or s["kty"] not in cls \
                else cls[s["kty"]](**s)
        x = one(a, "keyrep" if i != "class" else "class")
        y = one(b, "class" if i != "keyrep" else "keyrep")
        compare(x, y, a, b, False)
        compare(x, one(a, "class"), a, a, True)
        compare(y, one(b, "keyrep"), b, b, True)
    if kind == "RSA e":
        both(r, dict(r, e="Aw"))
    elif kind == "RSA n":
        n = K.MAT["r0"][1].n
        bit = c.choose("bit", [0, 1, 7, 8, 1023, 2046])
        both(r, dict(r, n=ref.uint_b64(n ^ (1 << bit) | 1 << 2047 | 1)
                     if bit else ref.uint_b64(n + 2)))
    elif kind == "EC crv":
        both(ref.jwk_of(p), ref.jwk_of(K.MAT["p384.3"]))
    elif kind == "EC y":
        cv = ref.CURVES["P-256"]
        q = ("EC", "P-256", (p[2][0], cv.p - p[2][1]), None)
        both(ref.jwk_of(p), ref.jwk_of(q))
    elif kind == "oct":
        v = c.choose("octets", [b"\0", b"a", b"\0a\0", b"a\0", b"\0A", b"\0b",
                                b"\0\0a"])
        both(o, {"kty": "oct", "k": ref.b64e(v)})
    elif kind == "kty":
        both(o, {"kty": "foo", "k": o["k"]})
    elif kind in ("x5t", "x5u"):
        a = c.choose("a", ["", "abcd"])
        both(dict(r, **({kind: a} if a else {})), dict(r, **{kind: "abce"}))
    elif kind == "x5c":
        both(r, dict(r, x5c=[K.cert_b64(0)]))
    elif kind == "x5c order":
        a, b = K.cert_b64(0), K.cert_b64(1)
        both(dict(r, x5c=[a, a, b]), dict(r, x5c=[a, b, a]))
    elif kind == "x5c more":
        both(dict(r, x5c=[K.cert_b64(0)]),
             dict(r, x5c=[K.cert_b64(0), K.cert_b64(1)]))
    elif kind == "other class":
        both(r, ref.jwk_of(p))
    elif kind == "swap":
        both(dict(o, kid="a", use="sig"), dict(o, kid="sig", use="a"))
    elif kind == "case":
        both(dict(o, kid="a"), dict(o, kid="A"))
    c.done("different")


EXTRA = [{}, {"key_ops": ["sign"]}, {"key_ops": ["verify"]}, {"exp": 1},
         {"exp": 2}, {"foo": {"a": [1]}}, {"foo": {"a": [1]}, "exp": 1},
         {"ext": True}, {"x": None}]


def extras(c):
    """members the library doesn't know are no part of what a key is"""
    from jwkest import jwk
    name = c.choose("key", ["r0", "p256.3", "h0.32", "unknown"])
    how = c.choose("load", [("keyrep", "keyrep"), ("keyrep", "class"),
                            ("class", "class"), ("set", "keyrep")])
    other = c.flag("another key")
    pair = c.choose("members", EXTRA), c.choose("other members", EXTRA)

    def one(i):
        if name == "unknown":
            s = {"kty": "foo", "kid": "b" if other and i else "a"}
        else:
            n = name
            if other and i:
                n = {"r0": "r1", "p256.3": "p256.4", "h0.32": "h1.32"}[n]
            s = ref.jwk_of(K.MAT[n])
        s.update((m, v) for m, v in pair[i].items() if m not in s)
        if how[i] == "set":
            ks = jwk.KEYS()
            ks.load_dict({"keys": [s]})
            return list(ks)[0]
        cls = {"RSA": jwk.RSAKey, "EC": jwk.ECKey, "oct": jwk.SYMKey}
        return cls[s["kty"]](**s) if how[i] == "class" and s["kty"] in cls \
            else jwk.keyrep(s)
    compare(one(0), one(1), pair[0], pair[1], not other)
    c.done("different" if other else "equal")


def strangers(c):
    """things that aren't keys"""
    e = c.choose("key", [("h0.32", "k", True, 1), ("r0", "object", True, 0),
                         ("p256.3", "ints", False, 2), "unknown"])
    what = c.choose("other", ["none", "dict", "str", "int", "list", "rsa",
                              "class", "lookalike"])
    from jwkest import jwk
    k = jwk.keyrep({"kty": "foo", "kid": "x"}) if e == "unknown" else fresh(e)
    mat = K.MAT[e[0]] if e != "unknown" else ("x", 1)

    class Look(object):
        pass
    look = Look()
    look.__dict__.update(vars(k))
    o = {"none": None, "dict": k.serialize(True), "str": str(k), "int": 0,
         "list": [k], "rsa": mat[1], "class": type(k), "lookalike": look}[what]
    check((k == o) is False and (k != o) is True, "== %s" % what)
    if what != "rsa":       # that's for pycryptodome to answer
        check((o == k) is False and (o != k) is True, "%s ==" % what)
    check(k == k and not k != k, "not equal to itself")
    c.done("different")


# --- histories -----------------------------------------------------------------------

OPS = ["compare equal", "compare other", "hash", "set", "get_hash 512",
       "thumbprint", "add_kid", "serialize", "str", "deserialize", "load 1",
       "load 2", "sign", "kid"]


def operate(k, op, mat, meta):
    from jwkest import jws
    if op == "compare equal":
        k == make(mat, "native", False, {})
    elif op == "compare other":
        k == make(material("o00"), "native", False, {})
        make(material("p521.9"), "native", False, {}) == k
        k == None      # noqa: E711
    elif op == "hash":
        hash(k)
    elif op == "set":
        {k: k, None: 1}
    elif op == "get_hash 512":
        k.get_hash("SHA-512")
    elif op == "thumbprint":
        k.thumbprint("SHA-384")
    elif op == "add_kid":
        k.add_kid()
        meta = dict(meta, kid=k.kid)
    elif op == "serialize":
        k.serialize(private=True)
    elif op == "str":
        str(k)
    elif op == "deserialize" and mat[0] != "oct":
        k.deserialize()
    elif op in ("load 1", "load 2") and mat[0] == "RSA":
        mat = material("r" + op[-1])
        k.load_key(mat[1] if op == "load 1" else mat[1].public_key())
    elif op == "sign":
        alg = {"oct": "HS256", "RSA": "RS256"}.get(mat[0], "ES256")
        attempt(jws.JWS("x", alg=alg).sign_compact, [k])
    elif op == "kid":
        k.kid = "new"
        meta = dict(meta, kid="new")
    return mat, meta


def history(c, names, depth):
    name = c.choose("key", names)
    form = c.choose("form", ["native", "keyrep"])
    i = c.choose("metadata", [0, 6])
    mat, meta = material(name), METAS[i]
    ops = [c.choose("op %d" % j, OPS) for j in range(depth)]
    k = make(mat, form, True, meta)
    for op in ops:
        mat, meta = operate(k, op, mat, meta)
    what = "after %s" % (", ".join(ops),)
    before = {m: v for m, v in vars(k).items() if m[0] != "_"}
    for m in [mat] + [material(n) for n in names + ["r1", "r2"]]:
        for mt in (meta, {}, METAS[1]):
            o = make(m, "native", False, mt)
            compare(k, o, what, "fresh", model(mat, meta) == model(m, mt))
    after = {m: v for m, v in vars(k).items() if m[0] != "_"}
    check(set(before) == set(after) and all(
        before[m] is after[m] or before[m] == after[m] for m in before),
        "comparing or hashing changes the key " + what)
    c.done("same")


# --- jwk.key_eq and rsa_eq: the keys inside -----------------------------------------

RAW = ["r0", "r0 public", "r1", "r1 public", "e3", "e3 public", "r0 again",
       "r0 from JWK", "'a'", "'a' again", "'b'", "''", "'\u00e5'", "none"]


def raw(n):
    """(the key, what it is)"""
    if n == "none":
        return None, None
    if n[0] == "'":
        # a new object every time
        t = "".join(list(n.split("'")[1]))
        return t, t
    mat = material(n.split()[0])
    pub = (mat[1].n, mat[1].e)
    if n.endswith("JWK"):
        return make(mat, "keyrep", True, {}).key, pub
    if n.endswith("public"):
        return mat[1].public_key(), pub
    if n.endswith("again"):
        from Cryptodome.PublicKey import RSA
        return RSA.import_key(mat[1].export_key()), pub
    return mat[1], pub


def raw_keys(c):
    from jwkest import jwk
    a = c.choose("key", RAW)
    b = c.choose("other", RAW)
    (x, mx), (y, my) = raw(a), raw(b)
    if x is None and y is None:
        raise Prune()
    want = type(mx) is type(my) and mx == my
    got = attempt(jwk.key_eq, x, y)
    check(got is want, "key_eq(%s, %s) is %r" % (a, b, got))
    if isinstance(mx, tuple) and isinstance(my, tuple):
        got = attempt(jwk.rsa_eq, x, y)
        check(got is want, "rsa_eq(%s, %s) is %r" % (a, b, got))
    c.done("equal" if want else "different")


def scopes(tier):
    th = tier == "thorough"
    zx = K.ZX["P-256"]
    all_m = tuple(range(len(METAS)))
    few = (0, 1, 6) if not th else all_m
    return [
        Scope("RSA", lambda c: pairs(c, elements(("r0", "r1"), few)), 1,
              "all pairs of 2 keys x 16 forms x %d metadata" % len(few)),
        Scope("EC", lambda c: pairs(c, elements(
            ("p256.3", zx, "p521.9"), few)), 1,
            "all pairs of 3 keys x 11 forms x %d metadata" % len(few)),
        Scope("oct", lambda c: pairs(c, elements(
            ("h0.32", "h1.32", "h0.33", "o00", "o0000"), all_m)), 1,
            "all pairs of 5 keys x forms x 9 metadata"),
        Scope("all types", lambda c: pairs(c, elements(
            ("h0.32", "r0", "p256.3", "d256:1", "d256:-1", "e3", "d521:1",
             "o00"), few, ("object", "keyrep", "ints", "octets", "class",
                           "native", "copy"))), 1,
            "all pairs of 8 keys x forms x %d metadata" % len(few)),
        Scope("nearly equal", near, 1, "keys that differ in one member"),
        Scope("unknown members", extras, 1,
              "4 keys x 4 ways to load x all pairs of 9 sets of members"),
        Scope("raw keys", raw_keys, 1, "key_eq, rsa_eq: all pairs of 14 keys"),
        Scope("not keys", strangers, 1, "4 keys x 8 other things"),
        Scope("histories", lambda c: history(
            c, ["r0", "p256.3", "h0.32"], 3 if th else 2), 3,
            "all histories of %d of 14 operations" % (3 if th else 2)),
    ]
