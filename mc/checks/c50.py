"""C50: threads that share keys do not disturb each other."""
import functools
import hashlib
import json

from mc.core import Scope, check, Prune
from mc.rng import RNG
from mc import ref, sched, keys as K, jwe as J
from mc.jose import *

CBC = "A128CBC-HS256"
CLAIMS = [{"iss": "x", "n": 1}, {"iss": "somebody else"}]
PT = [b"the plain text", b"something that is longer than the other, yes"]


class World(object):
    """What the threads share."""

    def __init__(self):
        from jwkest import jwk
        self.rsa = jwk.RSAKey(key=K.MAT["r0"][1], kid="rsa")
        self.rsa2 = jwk.RSAKey(key=K.MAT["r1"][1].public_key(), kid="rsa2",
                               alg="RS256")
        self.ec = K.build("p256.3", "ints", True, kid="ec")
        self.ec3 = K.build("p384.3", "ints", True, kid="ec3", use="sig")
        self.sym = jwk.SYMKey(key=K.MAT["h0.32"][1], kid="sym")
        self.kw = K.build("h0.16", "k", True, kid="kw", use="enc")
        self.ks = jwk.KEYS()
        for k in (self.rsa2, self.sym, self.ec3, self.rsa, self.ec, self.kw):
            self.ks.append(k)

    def state(self):
        return repr([sorted((k, str(v)) for k, v in x.serialize(True).items())
                     for x in self.ks]) + self.ks.dump_jwks()


class View(object):
    """What one thread sees: the world, and data of its own."""

    def __init__(self, w, d):
        self.w = w
        self.d = d

    def __getattr__(self, n):
        return getattr(self.w, n)


def make():
    RNG.reset("world")
    return World()


@functools.lru_cache(None)
def tok(alg, kid, d=0):
    h = {"alg": alg}
    if kid:
        h["kid"] = kid
    n = {"RS256": "r0", "PS256": "r0", "ES256": "p256.3", "ES384": "p384.3",
         "HS256": "h0.32"}[alg]
    return ref.jws_make(h, json.dumps(CLAIMS[d]).encode(), K.MAT[n],
                        k=987654321 + d)


@functools.lru_cache(None)
def etok(alg, name, enc=CBC, d=0):
    return ref.jwe_make({"alg": alg, "enc": enc}, PT[d], J.mat(alg, name),
                        J.octs("k%d" % d + alg, ref.CEKLEN[enc]),
                        J.octs("i%d" % d + alg, ref.IVLEN[enc]),
                        epk_d=424242 + d)


def sign(alg, kid=None):
    def f(w):
        from jwkest.jws import JWS
        kw = {"kid": kid} if kid else {}
        t = JWS(CLAIMS[w.d], alg=alg, **kw).sign_compact(w.ks.keys())
        name = {"RS256": "r0", "PS256": "r0", "ES256": "p256.3",
                "ES384": "p384.3", "HS256": "h0.32"}[alg]
        h, p = ref.jws_open(t, K.MAT[name], alg)
        return repr(sorted(h.items())), json.loads(p)
    return f


def verify(alg, kid=None, keys="ks"):
    def f(w):
        from jwkest.jws import JWS
        return JWS().verify_compact(tok(alg, kid, w.d), keys=w.ks.keys())
    return f


def bad(alg):
    def f(w):
        from jwkest.jws import JWS
        t = tok(alg, None, w.d).split(".")
        r = attempt(JWS().verify_compact,
                    ".".join([t[0], t[1], b64flip(t[2], 9, 3)]),
                    keys=w.ks.keys())
        return "refused" if raised(r) else r
    return f


def sign_json(w):
    from jwkest.jws import JWS
    j = JWS(CLAIMS[w.d], alg="HS256").sign_json(
        w.ks.keys(), [({"alg": "HS256"}, None),
                      ({"alg": "RS256", "kid": "rsa"}, None)])
    d = json.loads(j)
    for s, n in zip(d["signatures"], ("h0.32", "r0")):
        ref.jws_open(".".join([s["protected"], d["payload"], s["signature"]]),
                     K.MAT[n], json.loads(ref.b64d(s["protected"]))["alg"])
    return len(d["signatures"])


def verify_json(w):
    from jwkest.jws import JWS
    es = []
    for a in ("HS256", "ES256"):
        h, p, s = tok(a, None, w.d).split(".")
        es.append({"protected": h, "signature": s})
    return JWS().verify_json(json.dumps({"payload": p, "signatures": es}),
                             keys=w.ks.keys())


def encrypt(alg, name, enc=CBC):
    def f(w):
        from jwkest.jwe import JWE
        t = JWE(PT[w.d], alg=alg, enc=enc).encrypt(
            w.ks.by_kid({"h": "kw", "r": "rsa", "p": "ec"}[name[0]]))
        h, pt, cek, iv = ref.jwe_open(t, J.mat(alg, name))
        return pt, h["enc"], h["alg"]
    return f


def decrypt(alg, name, enc=CBC):
    def f(w):
        from jwkest.jwe import JWE
        return JWE().decrypt(etok(alg, name, enc, w.d), keys=w.ks.keys())
    return f


def bad_jwe(w):
    from jwkest.jwe import JWE
    t = etok("A128KW", "h0.16", CBC, w.d).split(".")
    t[3] = b64flip(t[3], 0, 0)
    r = attempt(JWE().decrypt, ".".join(t), keys=w.ks.keys())
    return "refused" if raised(r) else r


def factory(w):
    from jwkest import jws
    r = jws.factory(tok("HS256", "sym", w.d))
    return r.verify_compact(tok("HS256", "sym", w.d), keys=w.ks.keys()), \
        sorted(r.jwt.headers.items())


def jwefactory(w):
    from jwkest import jwe
    t = etok("RSA-OAEP", "r0", CBC, w.d)
    return jwe.factory(t).decrypt(t, keys=w.ks.keys())


def jwt(w):
    from jwkest.jwt import JWT
    t = JWT(alg="HS256", kid="é" * (w.d + 1)).pack([{"a": w.d}, b"x"])
    u = JWT().unpack(t)
    return t, u.headers, u.payload(), u.part


def left(w):
    from jwkest import jws
    return jws.left_hash("%djHkWEdUXMU1BwAsC4vtUsZwnNvTIxEl0z9K3vx5KF0Y" % w.d), \
        jws.left_hash(b"x" * (99 + w.d), "HS512")


def pbkdf(w):
    from jwkest.PBKDF2 import PBKDF2, crypt
    return PBKDF2("pw%d" % w.d, "salt", 3).read(50), crypt("pw", "salt%d" % w.d, 2)


def kwrap(w):
    from jwkest.aes_key_wrap import aes_wrap_key, aes_unwrap_key
    x = aes_wrap_key(b"kl"[w.d:][:1] * 16, b"abcdefgh" * (3 + w.d))
    return x, aes_unwrap_key(b"kl"[w.d:][:1] * 16, x)


def curve(w):
    from jwkest.ecc import P256
    mine, other = [K.MAT["p256.%d" % i] for i in ((3, 5), (5, 3))[w.d]]
    z = P256.dh_z(mine[3], other[2])
    h = ref.o2i(hashlib.sha256(b"m%d" % w.d).digest())
    s = P256.sign(h, mine[3])
    return z, P256.verify(h, s, mine[2]), P256.verify(h + 1, s, mine[2])


def loadks(w):
    from jwkest.jwk import KEYS
    k = KEYS().load_jwks(w.ks.dump_jwks())
    return [x.kid for x in k], k.dump_jwks()


def newkeys(w):
    """a key set of one's own"""
    from jwkest import jwk
    k = jwk.KEYS()
    k.load_dict({"keys": [ref.jwk_of(K.MAT["h%d.32" % (1 + w.d)], kid="n"),
                          ref.jwk_of(K.MAT["p256.5"], kid="m"),
                          ref.jwk_of(K.MAT["r2"], kid="o")]})
    k.wrap_add(K.MAT["r1"][1], kid="p")
    return k.kids(), k.dump_jwks(), len(jwk.KEYS())


def cert(w):
    from jwkest import jwk
    k = jwk.keyrep({"kty": "RSA", "x5c": [K.cert_b64(w.d)],
                    "x5t": K.x5t(w.d)})
    return k.n, k == w.rsa2, k.serialize()


def hashes(w):
    return [hash(k) for k in w.ks], len(set(w.ks))


def keyhash(w):
    return w.rsa.get_hash(), w.ec.get_hash(("SHA-384", "SHA-512")[w.d])


def thumb(w):
    return [k.thumbprint("SHA-256") for k in w.ks], \
        w.rsa.thumbprint("SHA-512")


def dump(w):
    return w.ks.dump_jwks(), str(w.ks)


def serial(w):
    return [k.serialize() for k in w.ks], [k.serialize(private=True)
                                           for k in w.ks]


def todict(w):
    return [k.to_dict() for k in w.ks], [sorted(k.keys()) for k in w.ks]


def equal(w):
    return [[a == b for a in w.ks] for b in w.ks]


def public(w):
    from jwkest import jwk
    return [sorted(jwk.make_public_copy(k).serialize().items())
            for k in (w.rsa, w.ec, w.ec3)]


def lookups(w):
    return ([k.kid for k in w.ks["RSA"]], [k.kid for k in w.ks["EC"]],
            [k.kid for k in w.ks.by_kid("ec")], w.ks.kids(), len(w.ks),
            sorted(w.ks.key_types()),
            sorted((a, [k.kid for k in b]) for a, b in
                   w.ks.as_dict().items()))


def getkeys(w):
    return (w.ec.get_key(private=True), w.ec.get_key(private=False),
            w.ec.encryption_key(private=False), w.ec.decryption_key(),
            w.sym.encryption_key(alg=("A128KW", "A256KW")[w.d]),
            w.kw.encryption_key(alg="A256KW"),
            w.rsa.encryption_key().n, w.rsa2.get_key().n)


OPS = {}
for _a in ("HS256", "RS256", "ES256", "ES384", "PS256"):
    OPS["verify " + _a] = verify(_a)
for _a in ("HS256", "ES256", "RS256", "PS256"):
    OPS["sign " + _a] = sign(_a, {"R": "rsa", "P": "rsa"}.get(_a[0]))
OPS.update({
    "sign kid": sign("HS256", "sym"), "verify kid": verify("HS256", "sym"),
    "verify rsa kid": verify("RS256", "rsa"),
    "bad HS256": bad("HS256"), "bad ES256": bad("ES256"),
    "bad RS256": bad("RS256"),
    "sign_json": sign_json, "verify_json": verify_json,
    "encrypt A128KW": encrypt("A128KW", "h0.16"),
    "encrypt RSA-OAEP": encrypt("RSA-OAEP", "r0"),
    "encrypt RSA1_5": encrypt("RSA1_5", "r0"),
    "encrypt ECDH-ES": encrypt("ECDH-ES", "p256.3"),
    "encrypt ECDH-ES+A128KW": encrypt("ECDH-ES+A128KW", "p256.3"),
    "decrypt A128KW": decrypt("A128KW", "h0.16"),
    "decrypt RSA-OAEP": decrypt("RSA-OAEP", "r0"),
    "decrypt ECDH-ES": decrypt("ECDH-ES", "p256.3"),
    "decrypt ECDH-ES+A128KW": decrypt("ECDH-ES+A128KW", "p256.3"),
    "decrypt A128GCM": decrypt("A128KW", "h0.16", "A128GCM"),
    "bad JWE": bad_jwe, "jws.factory": factory, "jwe.factory": jwefactory,
    "JWT": jwt, "left_hash": left, "PBKDF2": pbkdf, "key wrap": kwrap,
    "curve": curve, "load own": loadks, "new keys": newkeys, "x5c": cert,
    "hash": hashes, "get_hash": keyhash, "thumbprint": thumb, "dump": dump,
    "serialize": serial, "to_dict": todict, "equal": equal, "public": public,
    "lookups": lookups, "get_key": getkeys})
NAMES = sorted(OPS)


# --- operations that change the key set -------------------------------------------

def add_jwks(w):
    w.ks.load_jwks(json.dumps({"keys": [
        ref.jwk_of(K.MAT["h1.32"], kid="n1"),
        ref.jwk_of(K.MAT["p256.5"], kid="n2")]}))
    return len(w.ks) >= 8


def add_more(w):
    w.ks.load_dict({"keys": [ref.jwk_of(K.MAT["h2.32"], kid="n3"),
                             ref.jwk_of(K.MAT["h3.32"], kid="n4")]})
    return len(w.ks) >= 8


def bad_jwks(w):
    r = attempt(w.ks.load_dict, {"keys": [
        ref.jwk_of(K.MAT["h1.32"], kid="n1"),
        {"kty": "EC", "crv": "P-256", "x": "AA", "y": "AA"}]})
    return raised(r)


def append(w):
    w.ks.append(K.build("h1.32", "octets", True, kid="n5"))
    return True


def wrap(w):
    w.ks.wrap_add("text", kid="n6")
    return True


def add(w):
    w.ks.add(ref.jwk_of(K.MAT["h3.32"], kid="n7"))
    return True


def served(self, request, **kw):
    """what the server answers, without a network"""
    import requests
    r = requests.Response()
    r.status_code = 200
    r.url = request.url
    r.request = request
    r.encoding = "utf-8"
    r._content = json.dumps({"keys": [
        ref.jwk_of(K.MAT["h1.32"], kid="n8"),
        ref.jwk_of(K.MAT["h2.32"], kid="n9")]}).encode()
    return r


def from_url(w):
    from requests.adapters import HTTPAdapter
    HTTPAdapter.send = served
    w.ks.load_from_url("http://127.0.0.1:9/")
    return True


def sizes(w):
    return len(w.ks)


WRITERS = {"load_jwks": add_jwks, "load_dict": add_more,
           "bad load": bad_jwks, "append": append, "wrap_add": wrap,
           "add": add, "load_from_url": from_url}
# one look at the key set each: these are linearizable
READERS1 = {
    "dump": lambda w: w.ks.dump_jwks(), "kids": lambda w: w.ks.kids(),
    "len": lambda w: len(w.ks), "oct": lambda w: [k.kid for k in w.ks["oct"]],
    "iter": lambda w: [k.kid for k in w.ks],
    "as_dict": lambda w: sorted((a, [k.kid for k in b]) for a, b in
                                w.ks.as_dict().items()),
    "by_kid": lambda w: [k.kid for k in w.ks.by_kid("n1")],
    "load_jwks": add_jwks, "load_dict": add_more, "bad load": bad_jwks,
    "append": append, "wrap_add": wrap, "add": add,
    "load_from_url": from_url}

TOKENS = {k: OPS[k] for k in ("verify HS256", "verify kid", "decrypt A128KW",
                              "sign kid", "encrypt A128KW")}
_ALONE = {}
_SAVED = None


def setup():
    global _SAVED
    # import everything and make the tokens before the state is saved
    import jwkest.PBKDF2, jwkest.aes_key_wrap, jwkest.jws, jwkest.jwe  # noqa
    w = make()
    _SAVED = sched.Shared([]).save()
    for n, f in OPS.items():
        sched.restore(_SAVED)
        RNG.reset("op")
        try:
            f(View(make(), 0))
        except Exception:
            pass        # judged in the executions
    sched.restore(_SAVED)


def fresh(ops):
    sched.restore(_SAVED)
    w = make()
    RNG.reset("op")
    return w, [functools.partial(f, View(w, d)) for f, d in ops]


def alone(ops, name, d):
    if (name, d) not in _ALONE:
        w, (f,) = fresh([(ops[name], d)])
        r = f()
        _ALONE[name, d] = repr(r), w.state()
    return _ALONE[name, d]


_WRITER = {}


def writer(name):
    if name not in _WRITER:
        def mk():
            w, fns = fresh([(OPS[name], 0)])
            return fns, [w]
        _WRITER[name] = sched.writes(mk)
    return _WRITER[name]


def pair(c, bound, names_a, names_b):
    a = c.choose("first", names_a)
    b = c.choose("second", names_b)
    want = [alone(OPS, a, 0), alone(OPS, b, 1)]
    state = fresh([])[0].state()
    if not writer(a) and not writer(b):
        # neither writes anything: all interleavings are equivalent to the
        # two on their own
        for x, y in zip((a, b), want):
            check(y[1] == state, "%s changes the keys" % x)
        c.done("agrees, neither writes")
        return
    ws = []

    def mk():
        w, fns = fresh([(OPS[a], 0), (OPS[b], 1)])
        ws.append(w)
        return fns, [w]

    def judge(r, schedule):
        for n, got, (exp, _) in zip((a, b), r.results, want):
            check(repr(got) == exp, "%s || %s, preempted at %r: %s gives %s, "
                  "alone %s" % (a, b, schedule, n, repr(got)[:300],
                                exp[:300]))
        s = ws.pop().state()
        check(s == state, "%s || %s, preempted at %r, leave the keys as %s" %
              (a, b, schedule, s))
    st = sched.explore(mk, bound, judge)
    c.evals += st["schedules"]
    sched.restore(_SAVED)
    c.done("agrees in all schedules")


# with more schedules of one preemption than that, two are left to the thorough
# tier (currently no pair has)
MANY = 48


def changing(c, bound, others, limit=None):
    """one thread changes the key set: the results are those of an order"""
    a = c.choose("writer", sorted(WRITERS))
    b = c.choose("other", sorted(others))
    swap = c.flag("other first")
    fs = [(WRITERS[a], 0), (others[b], 1)]
    if swap:
        fs.reverse()
    allowed = []
    for order in ((0, 1), (1, 0)):
        w, fns = fresh(fs)
        res = [None, None]
        for i in order:
            res[i] = repr(attempt(fns[i]))
        allowed.append((res[0], res[1], sorted(w.ks.kids()), len(w.ks)))
    ws = []

    def mk():
        w, fns = fresh(fs)
        ws.append(w)
        return fns, [w]

    def judge(r, schedule):
        w = ws.pop()
        got = (repr(r.results[0]), repr(r.results[1]), sorted(w.ks.kids()),
               len(w.ks))
        check(got in allowed, "%s || %s preempted at %r: %r, but in order %r"
              % (a, b, schedule, got, allowed))
    st = sched.explore(mk, 1, judge)
    c.evals += st["schedules"]
    sched.restore(_SAVED)
    if bound > 1 and (not limit or st["schedules"] <= limit):
        c.evals += sched.explore(mk, bound, judge)["schedules"]
        sched.restore(_SAVED)
    elif bound > 1:
        c.done("serializable, bound 1")
        return
    c.done("serializable")


def scopes(tier):
    th = tier == "thorough"
    b = 2 if th else 1
    return [
        Scope("pairs", lambda c: pair(c, b, NAMES, NAMES), 2,
              "all ordered pairs of %d operations on shared keys, preemption "
              "bound %d" % (len(NAMES), b), init=setup),
        Scope("changing key sets", lambda c: changing(
            c, 2, READERS1, None if th else MANY), 3,
              "7 operations that change a key set || 14 operations on it, "
              "preemption bound 2 (1 if that gives more than 48 schedules)", init=setup),
        Scope("tokens and changing key sets", lambda c: changing(
            c, b, TOKENS), 3,
              "7 operations that change a key set || 5 that use the keys, "
              "preemption bound %d" % b, init=setup),
    ]
