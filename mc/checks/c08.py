"""C08: using an object again does not change what it does."""
import copy
import functools
import json

from mc.core import Scope, check, Prune
from mc.rng import RNG
from mc import ref, net, keys as K
from mc.jose import *


def norm(x):
    if raised(x):
        return "raised"
    return repr(x)


def out(fn):
    """outcome of an operation with the environment in a known state"""
    RNG.reset("op")
    return norm(attempt(fn))


@functools.lru_cache(None)
def tok(kind):
    if kind == "none":
        return ref.jws_make({"alg": "none"}, b"none", None)
    if kind == "kid":
        return ref.jws_make({"alg": "HS256", "kid": "a"}, b"kid",
                            K.MAT["h0.32"])
    if kind == "kid b":
        return ref.jws_make({"alg": "HS256", "kid": "b"}, b"kidb",
                            K.MAT["h0.32"])
    if kind == "bad":
        t = ref.jws_make({"alg": "HS256", "kid": "zz"}, b"bad",
                         K.MAT["h0.32"]).split(".")
        return ".".join([t[0], t[1], b64flip(t[2], 3, 3)])
    if kind == "bad r":
        t = ref.jws_make({"alg": "RS256"}, b"bad", K.MAT["r0"]).split(".")
        return ".".join([t[0], t[1], b64flip(t[2], 3, 3)])
    name = {"HS256": "h0.32", "RS256": "r0", "ES256": "p256.3",
            "PS256": "r0", "HS512": "h0.32"}[kind]
    return ref.jws_make({"alg": kind}, b"msg " + kind.encode(), K.MAT[name])


def jdoc(*kinds, **kw):
    es = []
    for k in kinds:
        t = tok(k).split(".")
        e = {"protected": t[0], "signature": t[2]}
        e.update(kw)
        es.append(e)
    return json.dumps({"payload": tok(kinds[0]).split(".")[1],
                       "signatures": es})


@functools.lru_cache(None)
def jwkdoc():
    """keyless: the key is in the token"""
    h = {"alg": "HS256", "jwk": ref.jwk_of(K.MAT["h0.32"])}
    t = ref.jws_make(h, b"selfmade", K.MAT["h0.32"]).split(".")
    return json.dumps(dict(protected=t[0], payload=t[1], signature=t[2]))


def vkeys():
    return [K.build("h0.32", "octets"), K.build("r0", "object", False),
            K.build("p256.3", "ints", False)]


def hk(**kw):
    return [K.build("h0.32", "octets", **kw)]


# name -> (function of the instance, does success set the message)
JWS_OPS = {
    "sign": lambda j: j.sign_compact(hk()),
    "sign alg key": lambda j: j.sign_compact(hk(alg="HS512")),
    "sign kid a": lambda j: j.sign_compact(hk(kid="a")),
    "sign rsa": lambda j: j.sign_compact([K.build("r0", "object",
                                                  alg="RS256")]),
    "sign nothing": lambda j: j.sign_compact(),
    "sign protected": lambda j: j.sign_compact(
        hk(kid="a"), protected={"x": 1, "kid": "mine"}),
    "sign json": lambda j: j.sign_json(hk(), [({"alg": "HS256"}, {"u": 1})]),
    "verify HS256": lambda j: j.verify_compact(tok("HS256"), vkeys()),
    "verify RS256": lambda j: j.verify_compact(tok("RS256"), vkeys()),
    "verify ES256": lambda j: j.verify_compact(tok("ES256"), vkeys()),
    "verify kid": lambda j: j.verify_compact(tok("kid"), hk(kid="a")),
    "verify kid b": lambda j: j.verify_compact(tok("kid b"), hk(kid="b")),
    "verify other kid": lambda j: j.verify_compact(tok("kid"), hk(kid="b")),
    "verify bad": lambda j: j.verify_compact(tok("bad"), vkeys()),
    "verify bad r": lambda j: j.verify_compact(tok("bad r"), vkeys()),
    "verify garbage": lambda j: j.verify_compact("a.b", vkeys()),
    "verify no keys": lambda j: j.verify_compact(tok("HS256"), None),
    "verify none": lambda j: j.verify_compact(tok("none"), vkeys()),
    "allow none": lambda j: j.verify_compact(tok("none"), vkeys(), True),
    "allow none, bad": lambda j: j.verify_compact(tok("bad"), vkeys(), True),
    "sigalg RS256": lambda j: j.verify_compact(tok("RS256"), vkeys(), False,
                                               "RS256"),
    "sigalg HS": lambda j: j.verify_compact(tok("RS256"), vkeys(), False,
                                            "HS256"),
    "json": lambda j: j.verify_json(jdoc("HS256"), vkeys()),
    "json bad": lambda j: j.verify_json(jdoc("bad"), vkeys()),
    "json no keys": lambda j: j.verify_json(jdoc("HS256"), None),
    "json jwk": lambda j: j.verify_json(jwkdoc(), None),
    "json kid": lambda j: j.verify_json(jdoc("kid", header={"kid": "a"}),
                                        hk(kid="a")),
    "is_jws": lambda j: j.is_jws(tok("kid")),
    "is_jws none": lambda j: j.is_jws(tok("none")),
    "is_jws bad": lambda j: j.is_jws("x.y.z"),
}
SETTINGS = [{}, {"alg": "HS256"}, {"alg": "RS256"},
            {"alg": "HS256", "kid": "a"}, {"alg": "none"},
            {"typ": "JWT", "alg": "HS256"}]
SHORT = ["sign", "sign alg key", "sign nothing", "sign protected",
         "verify HS256", "verify RS256", "verify kid b", "verify bad",
         "verify none", "allow none", "json", "json jwk", "is_jws"]


@functools.lru_cache(None)
def expected(si, op, msg):
    """the operation on its own"""
    from jwkest.jws import JWS
    j = JWS(msg, **SETTINGS[si])
    o = out(lambda: JWS_OPS[op](j))
    return o, (None if j.msg == msg else j.msg)


def jws_history(ops, depth):
    def body(c):
        from jwkest.jws import JWS
        si = c.choose("settings", range(len(SETTINGS)))
        hist = [c.choose("op %d" % i, ops) for i in range(depth)]
        j = JWS("m", **SETTINGS[si])
        msg = "m"
        n = 0
        for i, op in enumerate(hist):
            want, newmsg = expected(si, op, msg)
            got = out(lambda: JWS_OPS[op](j))
            check(got == want, "JWS(%r), %s: %s gives %s, on its own %s" % (
                SETTINGS[si], hist[:i], op, got, want))
            if newmsg is not None:
                msg = newmsg        # of the token that was verified
            check(j.msg == msg, "JWS(%r), %s: message is %r, not %r" % (
                SETTINGS[si], hist[:i + 1], j.msg, msg))
            n += want != "raised"
        c.done("%d succeed" % n)
    return body


# --- JWE ----------------------------------------------------------------------

ENC = "A128CBC-HS256"
JALG = {"r": "RSA-OAEP", "s": "A128KW", "e": "ECDH-ES+A128KW", "d": "ECDH-ES"}
JNAME = {"r": "r0", "s": "h0.32", "e": "p256.3", "d": "p256.3"}


@functools.lru_cache(None)
def jtok(t, what="good"):
    alg = JALG[t]
    m = K.MAT[JNAME[t]]
    if m[0] == "oct":
        m = ("oct", ref.oidc_kek(m[1], alg))
    hdr = {"alg": alg, "enc": ENC}
    if what == "kid":
        hdr["kid"] = "a"
    k = ref.jwe_make(hdr, b"token " + t.encode(), m, bytes(range(32)),
                     b"i" * 16, epk_d=99)
    if what == "bad":
        ps = k.split(".")
        ps[4] = b64flip(ps[4], 0, 0)
        k = ".".join(ps)
    return k


def jkey(t, **kw):
    nm = JNAME[t]
    return [K.build(nm, "object" if nm == "r0" else "keyrep", True, **kw)]


JWE_OPS = {}
for _t in "rsed":
    JWE_OPS["decrypt " + _t] = lambda j, t=_t: j.decrypt(jtok(t), jkey(t))
JWE_OPS.update({
    "encrypt": lambda j: j.encrypt(jkey("r") + jkey("s") + jkey("e")),
    "encrypt kid": lambda j: j.encrypt(jkey("r", kid="a") + jkey(
        "s", kid="a") + jkey("e", kid="a")),
    "encrypt no key": lambda j: j.encrypt([]),
    "encrypt use sig": lambda j: j.encrypt(
        jkey("r", use="sig") + jkey("s", use="sig")),
    "decrypt bad": lambda j: j.decrypt(jtok("s", "bad"), jkey("s")),
    "decrypt bad r": lambda j: j.decrypt(jtok("r", "bad"), jkey("r")),
    "decrypt bad e": lambda j: j.decrypt(jtok("e", "bad"), jkey("e")),
    "decrypt wrong key": lambda j: j.decrypt(jtok("s"), [
        K.build("h1.32", "octets")]),
    "decrypt no key": lambda j: j.decrypt(jtok("r"), jkey("e")),
    "decrypt garbage": lambda j: j.decrypt("a.b.c.d.e", jkey("e")),
    "decrypt cek": lambda j: j.decrypt(jtok("s"), jkey("s"), None,
                                       bytes(range(32))),
})
JSET = [{"alg": a, "enc": ENC} for a in JALG.values()] + [
    {"alg": "A128KW", "enc": ENC, "kid": "a"},
    {"alg": "RSA-OAEP", "enc": ENC, "zip": "DEF"}, {}]


@functools.lru_cache(None)
def jexpected(si, op):
    from jwkest.jwe import JWE
    j = JWE("m", **JSET[si])
    return out(lambda: JWE_OPS[op](j))


def jwe_history(depth):
    def body(c):
        from jwkest.jwe import JWE
        si = c.choose("settings", range(len(JSET)))
        hist = [c.choose("op %d" % i, sorted(JWE_OPS)) for i in range(depth)]
        j = JWE("m", **JSET[si])
        n = 0
        for i, op in enumerate(hist):
            want = jexpected(si, op)
            got = out(lambda: JWE_OPS[op](j))
            check(got == want, "JWE(%r), %s: %s gives %s, on its own %s" % (
                JSET[si], hist[:i], op, got[:200], want[:200]))
            n += want != "raised"
        c.done("%d succeed" % n)
    return body


# --- keys -----------------------------------------------------------------------

def _keys_of(k):
    from jwkest.jwk import KEYS
    ks = KEYS()
    ks.append(k)
    return ks


def _public(k):
    from jwkest.jwk import make_public_copy
    return make_public_copy(k).to_dict()


SALG = {"RSA": "RS256", "EC": "ES256", "oct": "HS256"}
EALG = {"RSA": "RSA-OAEP", "EC": "ECDH-ES+A128KW", "oct": "A128KW"}


def _sign(k):
    from jwkest.jws import JWS
    return JWS("m", alg=SALG[k.kty]).sign_compact([k])


def _verify(k):
    from jwkest.jws import JWS
    return JWS().verify_compact(tok(SALG[k.kty]), [k])


def _verify_bad(k):
    from jwkest.jws import JWS
    return JWS().verify_compact(tok("bad" if k.kty == "oct" else "bad r"),
                                [k])


def _encrypt(k):
    from jwkest.jwe import JWE
    return JWE("m", alg=EALG[k.kty], enc=ENC).encrypt([k])


def _decrypt(k):
    from jwkest.jwe import JWE
    return JWE().decrypt(jtok({"RSA": "r", "EC": "e", "oct": "s"}[k.kty]),
                         [k])


def _decrypt_bad(k):
    from jwkest.jwe import JWE
    return JWE().decrypt(jtok({"RSA": "r", "EC": "e", "oct": "s"}[k.kty],
                              "bad"), [k])


KEY_OPS = {
    "sign": _sign, "verify": _verify, "verify bad": _verify_bad,
    "encrypt": _encrypt, "decrypt": _decrypt, "decrypt bad": _decrypt_bad,
    "serialize": lambda k: sorted(k.serialize().items()),
    "serialize private": lambda k: sorted(k.serialize(private=True).items()),
    "to_dict": lambda k: sorted(k.to_dict().items()),
    "str": lambda k: sorted(str(k)),
    "hash": lambda k: hash(k),
    "thumbprint": lambda k: k.thumbprint("SHA-256"),
    "eq self": lambda k: k == k,
    "dump": lambda k: sorted(_keys_of(k).dump_jwks()),
    "public copy": lambda k: sorted(_public(k).items()),
    "keys": lambda k: sorted(k.keys()),
    "verify()": lambda k: k.verify(),
    "in header": lambda k: sorted(__import__(
        "jwkest.jws", fromlist=["JWS"]).JWS("m", alg=SALG[k.kty], jwk=k)
        .headers().get("jwk", {}).items()),
}
KEY_MADE = [("r0", "object"), ("r0", "keyrep"), ("p256.3", "keyrep"),
            ("p256.3", "ints"), ("h0.32", "octets"), ("h0.32", "keyrep")]
KFORMS = [(n, f, p, e) for n, f in KEY_MADE for p in (True, False)
          for e in ((), (("kid", "a"),)) if p or n[0] != "h"]
PROTO = {}


def kmake(i):
    n, f, p, e = KFORMS[i]
    if f == "keyrep" and n == "r0" and p:
        # constructing it takes 60 ms: a copy of a pristine one
        if i not in PROTO:
            PROTO[i] = K.build(n, f, p, **dict(e))
        return copy.copy(PROTO[i])
    return K.build(n, f, p, **dict(e))


@functools.lru_cache(None)
def kexpected(i, op):
    return out(lambda: KEY_OPS[op](kmake(i)))


def key_history(depth, forms):
    def body(c):
        i = c.choose("key", forms)
        hist = [c.choose("op %d" % d, sorted(KEY_OPS)) for d in range(depth)]
        k = kmake(i)
        for d, op in enumerate(hist):
            want = kexpected(i, op)
            got = out(lambda: KEY_OPS[op](k))
            check(got == want, "key %s, %s: %s gives %s, on its own %s" % (
                KFORMS[i], hist[:d], op, got[:200], want[:200]))
        c.done("agrees")
    return body


# --- different objects: nothing is left behind in the module ---------------------

def _kd(spec):
    from jwkest.jwk import keyrep
    return keyrep(spec)


def _aes(n):
    from jwkest.aes_gcm import AES_GCM
    g = AES_GCM(b"k" * n)
    return g.encrypt(5, b"text", b"aad")


GLOBAL = {
    "rsa key": lambda: sorted(K.build("r1", "object").to_dict()),
    "rsa pub": lambda: sorted(K.build("r0", "keyrep", False).to_dict()),
    "rsa x5c": lambda: sorted(K.build("r0", "x5c", False).to_dict()),
    "ec key": lambda: sorted(K.build("p384.3", "keyrep").to_dict().items()),
    "ec bad": lambda: _kd({"kty": "EC", "crv": "P-256", "x": "AA", "y": "AA"}),
    "ec unknown": lambda: _kd({"kty": "EC", "crv": "P-1", "x": "AA",
                               "y": "AA"}),
    "other key": lambda: sorted(_kd({"kty": "xyz", "a": "b"}).to_dict()
                                .items()),
    "oct": lambda: sorted(K.build("h3.16", "k").to_dict().items()),
    "rsa thumb": lambda: K.build("r0", "object").thumbprint("SHA-256"),
    "ec thumb": lambda: K.build("p256.3", "ints").thumbprint("SHA-512"),
}
for _i, _o in enumerate(["sign", "sign rsa", "verify HS256", "verify RS256",
                         "verify ES256", "verify bad", "verify none",
                         "allow none", "json", "json jwk", "verify kid"]):
    GLOBAL["jws " + _o] = lambda o=_o: JWS_OPS[o](_J())
for _o in JWE_OPS:
    GLOBAL["jwe " + _o] = lambda o=_o: JWE_OPS[o](_E())
for _n, _f in KEY_MADE:
    for _o in ("hash", "serialize private", "public copy", "dump"):
        GLOBAL["%s %s %s" % (_n, _f, _o)] = lambda n=_n, f=_f, o=_o: \
            KEY_OPS[o](kmake(KFORMS.index((n, f, True, ()))))


def _J():
    from jwkest.jws import JWS
    return JWS("m", alg="HS256")


def _E():
    from jwkest.jwe import JWE
    return JWE("m", alg="A128KW", enc=ENC)


BASE = {}


def baseline():
    net.install()
    for name in sorted(GLOBAL):
        BASE[name] = out(GLOBAL[name])
    # in the other order, to notice what the order changes
    for name in sorted(GLOBAL, reverse=True):
        if out(GLOBAL[name]) != BASE[name]:
            BASE[name] = BASE[name] + " or " + out(GLOBAL[name])


def pairs(c):
    a = c.choose("first", sorted(GLOBAL))
    b = c.choose("then", sorted(GLOBAL))
    out(GLOBAL[a])
    got = out(GLOBAL[b])
    check(got == BASE[b], "%s after %s (different objects): %s, before %s" % (
        b, a, got[:200], BASE[b][:200]))
    c.done("same")


# --- the caller's arguments ---------------------------------------------------------

def freeze(x):
    from jwkest.jwk import Key
    if isinstance(x, dict):
        return ("d", [(k, freeze(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return ("l", [freeze(v) for v in x])
    if isinstance(x, Key):
        return ("k", id(x), sorted((k, repr(v)) for k, v in
                                   x.__dict__.items() if k != "_hash"))
    return repr(x)


def arguments(c):
    from jwkest import jwk
    from jwkest.jws import JWS
    from jwkest.jwe import JWE
    nm = c.choose("key", ["h0.32", "r0", "p256.3"])
    priv = K.build(nm, "object" if nm == "r0" else "keyrep", True, kid="a")
    alg, ealg = SALG[priv.kty], EALG[priv.kty]
    keys = [K.build("h5.32", "octets", use="enc", kid="q"), priv,
            K.build("p384.3", "ints", False)]
    spec = ref.jwk_of(K.MAT[nm], True, kid="a", use="sig", x="y")
    pspec = ref.jwk_of(K.MAT[nm], False, kid="a")
    prot = {"x": [1], "n": {"m": 1}}
    heads = [({"x": [1]}, {"u": {"v": 1}}), (None, {"a": 1})]
    heads2 = [({"x": [1], "alg": alg}, {"u": {"v": 1}})]
    jws_doc = {"keys": [spec, pspec]}
    msg = {"a": [1, {"b": 2}]}
    crit = ["x"]
    dct = {"EC": [], "RSA": [K.MAT["r0"][1]]}
    key1 = {k: v for k, v in pspec.items()}
    jt = {"RSA": "r", "EC": "e", "oct": "s"}[priv.kty]
    ops = {
        "sign": (lambda: JWS(msg, alg=alg).sign_compact(keys), [msg, keys]),
        "sign protected": (lambda: JWS(msg, alg=alg).sign_compact(
            keys, protected=prot), [msg, keys, prot]),
        "sign_json": (lambda: JWS(msg, alg=alg).sign_json(keys, heads2),
                      [msg, keys, heads2]),
        "sign_json flat": (lambda: JWS(msg, alg=alg).sign_json(
            keys, heads2, flatten=True), [msg, keys, heads2]),
        "sign_json no alg": (lambda: JWS(msg, alg=alg).sign_json(
            keys, heads), [msg, keys, heads]),
        "verify": (lambda: JWS().verify_compact(tok(alg), keys), [keys]),
        "verify verbose": (lambda: JWS().verify_compact_verbose(
            tok(alg), keys), [keys]),
        "verify bad": (lambda: JWS().verify_compact(tok("bad"), keys),
                       [keys]),
        "verify json": (lambda: JWS().verify_json(jdoc(alg), keys), [keys]),
        "encrypt": (lambda: JWE("m", alg=ealg, enc=ENC).encrypt(keys),
                    [keys]),
        "decrypt": (lambda: JWE().decrypt(jtok(jt), keys), [keys]),
        "decrypt bad": (lambda: JWE().decrypt(jtok(jt, "bad"), keys),
                        [keys]),
        "keyrep": (lambda: jwk.keyrep(spec), [spec]),
        "keyrep public": (lambda: jwk.keyrep(pspec), [pspec]),
        "load_dict": (lambda: jwk.KEYS().load_dict(jws_doc), [jws_doc]),
        "KEYS.add": (lambda: jwk.KEYS().add(spec), [spec]),
        "JWS jwk": (lambda: JWS("m", alg=alg, jwk=key1).sign_compact(keys),
                    [key1, keys]),
        "JWS jwk key": (lambda: JWS("m", alg=alg, jwk=priv).sign_compact(
            keys), [priv, keys]),
        "JWS crit": (lambda: JWS("m", alg=alg, crit=crit).sign_compact(keys),
                     [crit, keys]),
        "public copy": (lambda: jwk.make_public_copy(priv), [priv]),
        "serialize": (lambda: priv.serialize(private=True), [priv]),
        "dump": (lambda: _keys_of(priv).dump_jwks(), [priv]),
        "keyitems": (lambda: jwk.keyitems2keyreps(dct), [dct]),
        "eq": (lambda: [k == priv for k in keys], [keys]),
        "hash": (lambda: hash(priv), [priv]),
        "key_from_jwk_dict": (lambda: jwk.key_from_jwk_dict(spec), [spec]),
    }
    op = c.choose("operation", sorted(ops))
    fn, args = ops[op]
    # what was returned must not be a live part of the arguments either
    before = [freeze(a) for a in args]
    r = attempt(fn)
    r2 = None
    after = [freeze(a) for a in args]
    check(before == after, "%s with %s changes its arguments: %s -> %s" % (
        op, nm, before, after),
        "sign_json adds alg to the protected headers it is given"
        if op == "sign_json no alg" else None)
    if op not in ("verify bad", "decrypt bad"):
        check(not raised(r), "%s fails: %r" % (op, r))
    if isinstance(r, dict):
        # changing the result doesn't change the key
        for k in list(r):
            r[k] = "changed"
        r2 = [freeze(a) for a in args]
        check(before == r2, "the result of %s is part of the arguments" % op)
    c.done("unchanged")


def shared_lists(c):
    """x5c, members and other lists are not shared between keys"""
    from jwkest import jwk
    a = K.build("r0", "x5c", False)
    b = K.build("r1", "x5c", False)
    classes = [jwk.Key, jwk.RSAKey, jwk.ECKey, jwk.SYMKey]
    before = [(list(k.members), list(k.public_members), list(k.required),
               list(k.longs)) for k in classes]
    op = c.choose("op", ["to_dict", "serialize", "public", "thumb", "dump"])
    k = c.choose("key", [a, b, K.build("p256.3", "ints"),
                         K.build("h0.32", "k")])
    attempt({"to_dict": k.to_dict, "serialize": k.serialize,
             "public": lambda: jwk.make_public_copy(k),
             "thumb": lambda: k.thumbprint("SHA-256"),
             "dump": lambda: _keys_of(k).dump_jwks()}[op])
    after = [(list(k.members), list(k.public_members), list(k.required),
              list(k.longs)) for k in classes]
    check(before == after, "class level lists changed by %s" % op)
    p = jwk.Key(kty="x")
    q = jwk.Key(kty="x")
    p.x5c.append("1")
    check(q.x5c == [] and jwk.Key(kty="x").x5c == [], "x5c list is shared")
    c.done("unchanged")


def scopes(tier):
    t = tier == "thorough"
    out_ = [
        Scope("JWS 2", jws_history(sorted(JWS_OPS), 2), 2,
              "30 operations, depth 2, 6 settings", init=net.install),
        Scope("JWS 3", jws_history(sorted(JWS_OPS) if t else SHORT, 3), 2,
              "13 (thorough 30) operations, depth 3, 6 settings",
              init=net.install),
        Scope("JWE", jwe_history(3 if t else 2), 2, "15 operations, depth 2 "
              "(thorough 3), 7 settings", init=net.install),
        Scope("keys", key_history(2, range(len(KFORMS))), 2,
              "18 operations, depth 2, 20 keys"),
        Scope("different objects", pairs, 1, "all ordered pairs of 49 "
              "operations", init=baseline),
        Scope("arguments", arguments, 1, "26 operations x 3 key types"),
        Scope("class level", shared_lists, 1, ""),
    ]
    if t:
        out_.append(Scope("keys 3", key_history(3, range(len(KFORMS))), 2,
                          "18 operations, depth 3, 20 keys"))
        out_.append(Scope("JWS 4", jws_history(SHORT, 4), 3,
                          "13 operations, depth 4", init=net.install))
    return out_
