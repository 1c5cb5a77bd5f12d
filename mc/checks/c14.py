"""C14: fresh, unpredictable keys, IVs and nonces for every token."""
import functools
import hashlib
import random

from mc.core import Scope, check, Prune
from mc.rng import RNG
from mc import ref, keys as K, jwe as J
from mc.jose import *

ENC = "A128CBC-HS256"


def values(kind, tok, alg, name):
    """-> {what: value that must be fresh}"""
    if kind == "jws":
        h, p, s = tok.split(".")
        if alg[:2] == "ES":
            sig = ref.b64d(s)
            return {("r", alg): sig[:len(sig) // 2]}
        if alg[:2] == "PS":
            return {("pss", alg): pss_salt(ref.b64d(s), K.MAT[name][1],
                                           alg[2:])}
        return {}
    hdr, pt, cek, iv = ref.jwe_open(tok, J.mat(alg, name))
    check(len(cek) == ref.CEKLEN[hdr["enc"]], "CEK of %d octets" % len(cek))
    check(len(iv) == ref.IVLEN[hdr["enc"]], "IV of %d octets" % len(iv))
    out = {"cek": cek, "iv": iv}
    if "epk" in hdr:
        out["epk"] = hdr["epk"]["x"]
    if alg in ("RSA-OAEP", "RSA-OAEP-256", "RSA1_5"):
        out["ek"] = ref.b64d(tok.split(".")[1])
    return out


def pss_salt(sig, key, bits):
    """the salt in a PSS signature (RFC 8017 9.1.2)"""
    n = key.size_in_bytes()
    em = ref.i2o(pow(ref.o2i(sig), key.e, key.n), n)
    hl = int(bits) // 8
    db, h = em[:-hl - 1], em[-hl - 1:-1]
    mask = b""
    i = 0
    while len(mask) < len(db):
        mask += ref.HLIB[bits](h + ref.i2o(i, 4)).digest()
        i += 1
    db = bytes(a ^ b for a, b in zip(db, mask))
    return db[-hl:]


# --- histories ----------------------------------------------------------------

EALGS = [("RSA-OAEP", "r0"), ("RSA1_5", "r0"), ("A128KW", "h0.16"),
         ("ECDH-ES", "p256.3"), ("ECDH-ES+A128KW", "p256.3")]
SALGS = [("ES256", "p256.3"), ("ES512", "p521.3"), ("PS256", "r0")]


@functools.lru_cache(None)
def foreign(alg, name, enc=ENC):
    return ref.jwe_make({"alg": alg, "enc": enc}, b"foreign",
                        J.mat(alg, name), J.octs("f" + alg, ref.CEKLEN[enc]),
                        J.octs("fi" + alg, ref.IVLEN[enc]), epk_d=5551212)


OPS = []
for _a, _n in EALGS:
    OPS += [("enc", "shared", _a, _n), ("enc", "fresh", _a, _n),
            ("dec", "shared", _a, _n)]
OPS += [("enc", "cek", "A128KW", "h0.16"), ("enc", "cek", "RSA-OAEP", "r0")]
for _a, _n in SALGS:
    OPS += [("sign", "shared", _a, _n), ("sign", "fresh", _a, _n)]
OPS += [("verify", "shared", "ES256", "p256.3"), ("keygen", "", "P-256", ""),
        ("keygen", "", "P-521", ""), ("newkey", "", "P-256", "")]
SHORT = [o for o in OPS if o[2] not in ("ES512", "P-521", "RSA1_5")]
QUICK = [o for o in SHORT if o[1] in ("shared", "cek") and o[0] != "verify" or
         o == ("enc", "fresh", "A128KW", "h0.16") or o[0] == "keygen"]


class World(object):
    """the shared objects, and every value seen so far"""

    def __init__(self, c, enc=ENC):
        self.c = c
        self.enc = enc
        self.seen = {}
        self.je = {}
        self.js = {}
        self.keys = {}
        self.one = None

    def key(self, name):
        if name not in self.keys:
            self.keys[name] = J.key(name)
        return self.keys[name]

    def fresh(self, what, v, op):
        old = self.seen.get((what, v))
        check(old is None, "%s of %s was used before, in %s: %r" % (
            what, op, old, v))
        self.seen[what, v] = op

    def do(self, op, oneobj):
        from jwkest.jwe import JWE
        from jwkest.jws import JWS
        from jwkest.ecc import NISTEllipticCurve
        from jwkest.jwk import ECKey
        kind, how, alg, name = op
        enc = self.enc
        if kind in ("enc", "dec"):
            if how == "fresh":
                j = JWE(b"msg", alg=alg, enc=enc)
            elif oneobj:
                # one object for everything
                if self.one is None:
                    self.one = JWE(b"msg", alg=alg, enc=enc)
                j = self.one
                j["alg"] = alg
            else:
                j = self.je.setdefault(alg, JWE(b"msg", alg=alg, enc=enc))
        if kind == "enc":
            if how == "cek":
                t = attempt(j.encrypt, [self.key(name)], b"\x07" *
                            ref.CEKLEN[enc])
                if raised(t):
                    return
                ps = t.split(".")
                self.fresh("iv", ref.b64d(ps[2]), op)
                self.seen["cek", b"\x07" * ref.CEKLEN[enc]] = op
                return
            t = attempt(j.encrypt, [self.key(name)])
            check(not raised(t), "%s: %r" % (op, t))
            for what, v in values("jwe", t, alg, name).items():
                self.fresh(what, v, op)
        elif kind == "dec":
            t = foreign(alg, name, enc)
            r = attempt(j.decrypt, t, [self.key(name)])
            check(r == b"foreign", "%s: %r" % (op, r))
            h, _, cek, iv = ref.jwe_open(t, J.mat(alg, name))
            self.seen["cek", cek] = op
            self.seen["iv", iv] = op
            if "epk" in h:
                self.seen["epk", h["epk"]["x"]] = op
        elif kind == "sign":
            j = JWS(b"msg", alg=alg) if how == "fresh" else \
                self.js.setdefault(alg, JWS(b"msg", alg=alg))
            t = attempt(j.sign_compact, [self.key(name)])
            check(not raised(t), "%s: %r" % (op, t))
            for what, v in values("jws", t, alg, name).items():
                self.fresh(what, v, op)
        elif kind == "verify":
            j = self.js.setdefault(alg, JWS(b"msg", alg=alg))
            t = ref.jws_make({"alg": alg}, b"msg", K.MAT[name])
            check(attempt(j.verify_compact, t, [self.key(name)]) == "msg",
                  "verify")
            self.seen[("r", alg), ref.b64d(t.split(".")[2])[:32]] = op
        elif kind == "keygen":
            d, pub = NISTEllipticCurve.by_name(alg).key_pair()
            check(0 < d < ref.CURVES[alg].n, "private key out of range")
            self.fresh("d", d, op)
        else:
            k = ECKey().load_key(NISTEllipticCurve.by_name(alg))
            self.fresh("d", k.d, op)


def histories(ops, depth, encs=(ENC,)):
    def body(c):
        enc = c.choose("enc", list(encs))
        one = c.choose("objects", ["one per algorithm", "one"]) == "one"
        w = World(c, enc)
        hist = [c.choose("op %d" % i, ops) for i in range(depth)]
        for op in hist:
            w.do(op, one)
        c.done("%d values" % len(w.seen))
    return body


# --- where the values come from --------------------------------------------------

class Stream(object):
    """an addressable stream of random octets"""

    def __init__(self, seed, flip=None, mask=0):
        self.seed = seed
        self.pos = 0
        self.flip = flip
        self.mask = mask

    def __call__(self, n):
        out = bytearray()
        for i in range(self.pos, self.pos + n):
            b = hashlib.sha256(b"%d|%d" % (self.seed, i)).digest()[0]
            if i == self.flip:
                b ^= self.mask
            out.append(b)
        self.pos += n
        return bytes(out)


def produce(kind, alg, name, enc, script, rseed=0, how="JWE"):
    """values of one operation with the given randomness"""
    from jwkest.jwe import JWE, JWE_SYM, JWE_RSA
    from jwkest.jws import JWS
    from jwkest.ecc import NISTEllipticCurve
    random.seed(rseed)
    RNG.script = script
    try:
        if kind == "jwe":
            if how == "class":
                m = K.MAT[name]
                if m[0] == "oct":
                    t = JWE_SYM(b"m", alg=alg, enc=enc).encrypt(
                        J.mat(alg, name)[1])
                else:
                    t = JWE_RSA(b"m", alg=alg, enc=enc).encrypt(m[1])
            else:
                t = JWE(b"m", alg=alg, enc=enc).encrypt([J.key(name)])
        elif kind == "jws":
            t = JWS(b"m", alg=alg).sign_compact([J.key(name)])
        elif kind == "json":
            from jwkest import jws
            import json
            d = json.loads(JWS(b"m", alg=alg).sign_json([J.key(name)]))
            e = d["signatures"][0]
            t = ".".join([e["protected"], d["payload"], e["signature"]])
            kind = "jws"
        else:
            d, _ = NISTEllipticCurve.by_name(alg).key_pair()
            return {"d": d}
    finally:
        RNG.script = None
    return values(kind, t, alg, name)


PROD = [("jwe", a, n) for a, n in J.KM] + \
    [("jws", a, keyname(a)) for a in ES + PS] + \
    [("json", a, keyname(a)) for a in ES + PS[:1]] + \
    [("key", crv, "") for crv in J.CURVES]


def seeds(c):
    """same state of Python's generator, other random octets: all the values
    are others"""
    kind, alg, name = c.choose("operation", PROD)
    enc = c.choose("enc", J.CBC) if kind == "jwe" else None
    rseed = c.choose("random.seed", [0, 1, "x"])
    a = produce(kind, alg, name, enc, Stream(1), rseed)
    b = produce(kind, alg, name, enc, Stream(2), rseed)
    check(a.keys() == b.keys() and a, "no values")
    for what in a:
        check(a[what] != b[what], "%s %s: %s doesn't depend on the system's "
              "random generator" % (alg, enc, what))
    c.done(kind)


def need(kind, alg, enc):
    """octets of randomness that must go into each value"""
    if kind == "key":
        return {"d": ref.CURVES[alg].n.bit_length() // 8}
    if kind in ("jws", "json"):
        if alg[:2] == "ES":
            return {("r", alg): ref.CURVES[ref.ES[alg][0]].n.bit_length()
                    // 8}
        return {("pss", alg): int(alg[2:]) // 8}
    out = {"iv": ref.IVLEN[enc]}
    if alg != "ECDH-ES":
        out["cek"] = ref.CEKLEN[enc]
    return out


def influence(prods, encs):
    """every octet of the stream is changed in turn: enough of them make a
    difference"""
    def body(c):
        kind, alg, name = c.choose("operation", prods)
        enc = c.choose("enc", encs) if kind == "jwe" else None
        how = c.choose("api", ["JWE", "class"]) \
            if kind == "jwe" and alg[0] != "E" else "JWE"
        s = Stream(3)
        base = produce(kind, alg, name, enc, s, 0, how)
        n = s.pos
        want = dict(need(kind, alg, enc))
        if "epk" in base:
            want["epk"] = ref.CURVES[K.MAT[name][1]].n.bit_length() // 8
        cnt = dict.fromkeys(want, 0)
        union = 0           # octets on which any of the values depends
        for i in range(n):
            hit = set()
            for mask in (0x01, 0x80):
                v = produce(kind, alg, name, enc, Stream(3, i, mask), 0, how)
                hit |= {w for w in want if v[w] != base[w]}
                if len(hit) == len(want):
                    break
            for w in hit:
                cnt[w] += 1
            union += bool(hit)
            if all(cnt[w] >= want[w] for w in want) and \
                    union >= sum(want.values()):
                break
        for what, k in want.items():
            check(cnt[what] >= k, "%s %s: %s depends on %d octets of "
                  "randomness, not %d" % (alg, enc, what, cnt[what], k))
        check(union >= sum(want.values()), "%s %s: %s together depend on %d "
              "octets of randomness, not %d" % (
                  alg, enc, " and ".join(map(str, want)), union,
                  sum(want.values())))
        c.done(kind)
    return body


class Broken(OSError):
    pass


def faults(c):
    """the system's generator fails at any of the draws: no token is made"""
    kind, alg, name = c.choose("operation", PROD)
    enc = ENC if kind == "jwe" else None
    log = []
    s = Stream(4)

    def count(n):
        log.append(n)
        return s(n)
    produce(kind, alg, name, enc, count)
    i = c.choose("draw that fails", range(len(log)))
    s2 = Stream(4)
    left = [i]

    def fail(n):
        if left[0] == 0:
            raise Broken("no entropy")
        left[0] -= 1
        return s2(n)
    r = attempt(produce, kind, alg, name, enc, fail)
    check(raised(r), "%s: went on without random numbers" % alg)
    c.done(r.name)


def persistent_fault(c):
    kind, alg, name = c.choose("operation", PROD)

    def fail(n):
        raise Broken("no entropy")
    r = attempt(produce, kind, alg, name, ENC, fail)
    check(raised(r), "%s: went on without random numbers" % alg)
    c.done(r.name)


def scopes(tier):
    th = tier == "thorough"
    small = [p for p in PROD if p[1] in (
        "A128KW", "ECDH-ES", "ECDH-ES+A128KW", "ES256", "ES384", "PS256",
        "PS384", "PS512", "P-256", "P-384", "P-521", "RSA1_5", "RSA-OAEP",
        "RSA-OAEP-256") and not (p[0] == "jwe" and p[2] in ("p384.3",
                                                            "p521.3"))]
    return [
        Scope("histories 2", histories(OPS, 2), 3,
              "all pairs of 27 operations, shared and fresh objects"),
        Scope("histories 3", histories(SHORT if th else QUICK, 3), 3,
              "all triples of 14/20 operations"),
        Scope("histories GCM", histories(
            [o for o in OPS if o[2] in ("A128KW", "RSA-OAEP", "ECDH-ES")]
            if th else [o for o in OPS if o[2] in ("A128KW",)],
            2, J.GCM if th else ["A128GCM", "A256GCM"]), 4,
            "pairs of operations with AES-GCM"),
        Scope("seeds", seeds, 2, "39 operations x 3 enc x 3 seeds"),
        Scope("influence", influence(PROD if th else small,
                                     J.CBC if th else [J.CBC[0]]), 1,
              "every octet of the random stream changed"),
        Scope("influence enc", influence([("jwe", "A128KW", "h0.16")],
                                         J.CBC), 3, "every octet changed"),
        Scope("influence GCM", influence(
            [("jwe", "A128KW", "h0.16"), ("jwe", "RSA-OAEP", "r0"),
             ("jwe", "ECDH-ES+A128KW", "p256.3"),
             ("jwe", "ECDH-ES", "p256.3")] if th else
            [("jwe", "A128KW", "h0.16"), ("jwe", "RSA-OAEP", "r0"),
             ("jwe", "ECDH-ES", "p256.3")],
            J.GCM if th else ["A128GCM", "A256GCM"]), 3,
            "every octet changed"),
        Scope("faults", faults, 1, "every draw fails in turn"),
        Scope("no entropy", persistent_fault, 1, "all draws fail"),
    ] + ([Scope("histories 4", histories([o for o in SHORT if o[1] in (
        "shared", "cek") and o[2] != "PS256"], 4), 3,
        "all quadruples of 10 operations")] if th else [])
