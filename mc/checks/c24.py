"""C24: key derivation follows the standards."""
import functools
import hashlib
import struct

from mc.core import Scope, check, Prune
from mc import ref, keys as K, jwe as J
from mc.jose import *

PAT = {"digest": J.octs, "zeros": lambda l, n: b"\0" * n,
       "ones": lambda l, n: b"\xff" * n}


def kdf(z, bits, other):
    out = b""
    i = 0
    while len(out) * 8 < bits:
        i += 1
        out += hashlib.sha256(struct.pack(">I", i) + z + other).digest()
    return out[:bits // 8]


def concat(c, zs, ks, os_):
    from jwkest.extra import concat_sha256
    zl = c.choose("secret length", zs)
    kl = c.choose("key octets", ks)
    pat = c.choose("octets", list(PAT))
    z = PAT[pat]("z", zl)
    for ol in os_:
        o = PAT[pat]("o", ol)
        r = attempt(concat_sha256, z, kl * 8, o)
        check(same(r, kdf(z, kl * 8, o)), "concat_sha256 of %d octets, %d "
              "bits, %d octets other info: %r" % (zl, kl * 8, ol, r))
    c.evals = len(os_)
    c.done("SP 800-56A")


@functools.lru_cache(None)
def special(crv, zeros):
    """(private key, public key) whose shared secret starts with zero octets;
    zeros = 0: an ordinary one"""
    cv = ref.CURVES[crv]
    d = K.MAT[K.ecname(crv, 3)][3]
    k = 1000
    while True:
        P = cv.pub(k)
        z = ref.i2o(cv.mul(P, d)[0], cv.bytes)
        if (z[0] == 0) == (zeros > 0) and (crv != "P-521" or zeros < 2 or
                                           z[1] == 0):
            return d, k, P
        k += 1


ALGS = [b"A128GCM", b"A256CBC-HS512", b"A128KW", b"", b"x" * 300]


def ecdh(c, kls, infos):
    from jwkest.extra import ecdh_derive_key
    from jwkest.ecc import NISTEllipticCurve
    crv = c.choose("curve", list(ref.CURVES))
    zero = c.choose("leading zeros", [0, 1] if crv != "P-521" else [0, 1, 2])
    kl = c.choose("key octets", kls)
    alg = c.choose("alg", ALGS)
    apu = c.choose("apu", infos)
    apv = c.choose("apv", infos)
    d, k, P = special(crv, zero)
    cv = ref.CURVES[crv]
    e = NISTEllipticCurve.by_name(crv)
    z = ref.ecdh_z(crv, d, P)
    u, v = J.octs("u", apu), J.octs("v", apv)
    want = ref.concat_kdf(z, alg, u, v, kl * 8)
    got = attempt(ecdh_derive_key, e, d, P, u, v, alg, kl * 8)
    check(same(got, want), "%s %r apu %d apv %d, %d bits: %r, not %r" % (
        crv, alg, apu, apv, kl * 8, got, want))
    other = attempt(ecdh_derive_key, e, k, cv.pub(d), u, v, alg, kl * 8)
    check(other == want, "the other party derives %r" % (other,))
    c.done("RFC 7518 4.6")


def secrets(c, count):
    """the shared secret itself"""
    from jwkest.ecc import NISTEllipticCurve
    crv = c.choose("curve", list(ref.CURVES))
    cv = ref.CURVES[crv]
    n = cv.n
    d = c.choose("private", [1, 2, 3, n - 1, n - 2, 1 << 100, n // 2,
                             (1 << n.bit_length() - 1) - 1])
    k = c.choose("other", list(range(1, count)) + [n - 1, n - 5])
    e = NISTEllipticCurve.by_name(crv)
    want = cv.mul(cv.g, d * k)
    z = attempt(e.dh_z, d, cv.pub(k))
    check(same(z, ref.i2o(want[0], cv.bytes)), "%s dh_z(%d, %d*G) = %r" % (
        crv, d, k, z))
    c.done("agrees")


def left(c, top):
    from jwkest.jws import left_hash
    alg = c.choose("alg", HS)
    n = c.choose("length", range(top))
    import string
    text = (string.ascii_letters + string.digits + "-_.") * 5
    h = ref.HLIB[alg[2:]]
    for m in (text[:n], text[n:2 * n], "\u20ac" * n, b"\xff\0" * n,
              text[:n].encode()):
        o = m.encode("utf-8") if isinstance(m, str) else m
        d = h(o).digest()
        want = ref.b64e(d[:len(d) // 2])
        r = attempt(left_hash, m, alg)
        check(r == want, "left_hash(%r, %s) = %r, not %r" % (m, alg, r, want))
        if alg == "HS256":
            check(attempt(left_hash, m) == want, "left_hash(%r)" % (m,))
    c.done("left half")


LEN = {"A128KW": 16, "A192KW": 24, "A256KW": 32, "HS256": 32, "HS384": 48,
       "HS512": 64}


def derived(c, lens):
    alg = c.choose("alg", list(LEN))
    n = c.choose("key length", lens)
    form = c.choose("form", K.PUB_FORMS["oct"])
    again = c.choose("used before", [None] + list(LEN))
    name = "h1.%d" % n
    key = K.build(name, form)
    if again:
        key.encryption_key(alg=again)
    L = LEN[alg]
    h = {16: "256", 24: "256", 32: "256", 48: "384", 64: "512"}[L]
    want = ref.HLIB[h](K.MAT[name][1]).digest()[:L]
    r = attempt(key.encryption_key, alg=alg)
    check(same(r, want), "%s from %d octets (%s): %r" % (alg, n, form, r))
    check(bytes(key.key) == K.MAT[name][1], "the key itself changed")
    c.done("left octets")


def long_info(c):
    """party information and secrets of any length"""
    concat(c, [0, 32, 4097, 65537], [16, 32, 100],
           [0, 16, 255, 256, 257, 65535, 65536, 65537, 70001])


def scopes(tier):
    th = tier == "thorough"
    return [
        Scope("Concat KDF", lambda c: concat(
            c, range(0, 140) if th else list(range(0, 70, 3)) + [66],
            list(range(1, 200)) + [512, 8160, 8192, 8224] if th else
            list(range(1, 100)) + [128, 8192],
            range(0, 130, 1 if th else 13)), 1,
            "secret lengths x key lengths 8..1600 bits x other info lengths"),
        Scope("long Concat KDF", long_info, 2, "party info up to 70001 "
              "octets"),
        Scope("ECDH derive", lambda c: ecdh(
            c, [16, 24, 31, 32, 33, 48, 64, 65, 100] if th else
            [16, 32, 33, 64],
            list(range(0, 40)) + [255, 256, 257, 65536] if th else
            [0, 1, 3, 32, 256]), 3,
            "3 curves x secrets with leading zeros x key lengths x 5 alg ids "
            "x apu x apv lengths, both parties"),
        Scope("shared secrets", lambda c: secrets(c, 300 if th else 40), 2,
              "3 curves x 8 private keys x public keys k*G"),
        Scope("left hash", lambda c: left(c, 300 if th else 140), 1,
              "3 hashes x all lengths x 5 kinds of text"),
        Scope("symmetric keys", lambda c: derived(
            c, range(1, 200) if th else list(range(1, 70)) + [127, 128, 129]),
            1, "6 algorithms x key lengths x forms x previous use"),
    ]
