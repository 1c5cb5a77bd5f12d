"""C22: elliptic curve arithmetic and ECDSA are right everywhere."""
import functools
import hashlib

from mc.core import Scope, check, Prune, HarnessError
from mc.rng import RNG
from mc import ref, keys as K
from mc.jose import *

# (p, a, b, order): complete groups of prime order, smaller and larger than p
SMALL = [(7, -3, 1, 5), (7, -3, 6, 11), (11, -3, 10, 7), (11, 1, 5, 11),
         (11, 1, 6, 13), (13, -3, 1, 19), (17, 2, 2, 19), (17, -3, 3, 23),
         (19, -3, 9, 19), (23, -3, 15, 17), (23, -3, 8, 31), (31, -3, 15, 29),
         (43, -3, 10, 37), (47, -3, 25, 53), (103, 1, 24, 109)]


class Tiny(ref.Curve):
    def __init__(self, p, a, b, n):
        self.name, self.p, self.a, self.b, self.n = "tiny", p, a % p, b, n
        self.points = [(x, y) for x in range(p) for y in range(p)
                       if self.on_curve((x, y))]
        if len(self.points) + 1 != n:
            raise HarnessError("order")
        self.g = self.points[0]
        self.bytes = 1
        self.bits = p.bit_length()
        self.log = {}
        R = None
        for k in range(n):
            self.log[R] = k
            R = self.add(R, self.g)
        self.exp = {v: k for k, v in self.log.items()}

    def mul(self, P, k):
        return self.exp[self.log[P] * k % self.n]


@functools.lru_cache(None)
def tiny(spec):
    return Tiny(*spec)


def pq(cv):
    """elliptic.py writes y^2 = x^3 - p*x - q"""
    return -cv.a % cv.p, -cv.b % cv.p


def eq(got, want, n):
    """points with coordinates reduced"""
    return got is None and want is None or (
        got is not None and want is not None and tuple(got) == want)


def proj(P, z, n):
    return None if P is None else (
        P[0] * z * z % n, P[1] * z ** 3 % n, z, z * z % n, z ** 3 % n)


def affine(jp, n):
    if jp is None:
        return None
    zi = pow(jp[2], -1, n)
    check((jp[3] - jp[2] ** 2) % n == 0 and (jp[4] - jp[2] ** 3) % n == 0,
          "inconsistent projective point %r" % (jp,))
    return jp[0] * zi * zi % n, jp[1] * zi ** 3 % n


def arith(c, curves):
    """group law: all pairs of points, all scalars"""
    from jwkest import elliptic as E
    spec = c.choose("curve", curves)
    cv = tiny(spec)
    p, q = pq(cv)
    n = cv.p
    allp = [None] + cv.points
    P = c.choose("P", allp)
    what = c.choose("operation", ["add", "projective", "mul", "misc"])
    ev = 0
    if what == "add":
        for Q in allp:
            ev += 1
            got = E.add(p, q, n, P, Q)
            check(eq(got, cv.add(P, Q), n), "add %r+%r = %r" % (P, Q, got))
    elif what == "projective":
        zs = range(1, n) if n < 20 else [1, 2, 3, n - 1, n // 2]
        for z1 in zs:
            jp = proj(P, z1, n)
            check(affine(E.doublef(p, q, n, jp), n) == cv.add(P, P),
                  "doublef(%r)" % (jp,))
            check(affine(E.neg(jp, n), n) == neg(P, n), "neg(%r)" % (jp,))
            check(eq(E.from_projective(jp, n), P, n),
                  "from_projective(%r)" % (jp,))
            for Q in allp:
                for z2 in zs:
                    ev += 1
                    jq = proj(Q, z2, n)
                    got = E.addf(p, q, n, jp, jq)
                    check(affine(got, n) == cv.add(P, Q),
                          "addf(%r, %r) = %r" % (jp, jq, got))
                if P is None:
                    break
    elif what == "mul":
        for k in range(3 * cv.n + 4):
            ev += 1
            want = cv.mul_slow(P, k)
            for f in (E.mul, E.mulp):
                got = f(p, q, n, P, k)
                check(eq(got, want, n), "%s(%r, %d) = %r, not %r" % (
                    f.__name__, P, k, got, want))
            got = affine(E.mulf(p, q, n, proj(P, 1, n), k), n)
            check(got == want, "mulf(%r, %d) = %r" % (P, k, got))
    else:
        check(E.neg(P, n) == neg(P, n), "neg(%r)" % (P,))
        check(E.element(P, p, q, n), "element(%r)" % (P,))
        if P:
            check(E.curve_q(P[0], P[1], p, n) == q, "curve_q")
            if n % 4 == 3:
                for s in (0, 1):
                    got = E.y_from_x(P[0], p, q, n, s)
                    check(got % 2 == s and (P[0], got) in cv.log,
                          "y_from_x(%d, %d) = %r" % (P[0], s, got))
                check(E.y_from_x(P[0], p, q, n, E.sign_bit(P)) == P[1],
                      "the sign bit of %r" % (P,))
            for y in range(n):
                check(bool(E.element((P[0], y), p, q, n)) ==
                      ((P[0], y) in cv.log), "element(%d, %d)" % (P[0], y))
        else:
            for x in range(n):
                check(x == 0 or E.inv(x, n) * x % n == 1, "inv(%d)" % x)
                check(x == 0 or E.inv(x - n, n) * x % n == 1,
                      "inv(%d)" % (x - n))
    c.evals = ev + 1
    c.done(what)


def neg(P, n):
    return None if P is None else (P[0], -P[1] % n)


def muladd(c, curves, full):
    """c1*P + c2*Q for all points and scalars"""
    from jwkest import elliptic as E
    spec = c.choose("curve", curves)
    cv = tiny(spec)
    p, q = pq(cv)
    allp = [None] + cv.points
    P = c.choose("P", allp if full else [cv.g])
    Q = c.choose("Q", allp)
    N = cv.n
    ev = 0
    top = N + 2 if full else 2 * N + 2
    for c1 in range(top):
        A = cv.mul(P, c1)
        for c2 in range(top):
            ev += 1
            want = cv.add(A, cv.mul(Q, c2))
            got = E.muladdp(p, q, cv.p, P, c1, Q, c2)
            check(eq(got, want, cv.p), "muladdp(%d*%r + %d*%r) = %r, not %r" % (
                c1, P, c2, Q, got, want))
    c.evals = ev
    c.done("group law")


# --- ECDSA on small curves ---------------------------------------------------------

def instance(cv):
    """A NISTEllipticCurve over the small domain."""
    from jwkest import curves, ecc
    old = curves.DOMAINS.get(cv.bits)
    curves.DOMAINS[cv.bits] = (cv.p, cv.n, cv.b, cv.g[0], cv.g[1])
    try:
        e = ecc.NISTEllipticCurve(cv.bits)
    finally:
        if old is None:
            del curves.DOMAINS[cv.bits]
        else:
            curves.DOMAINS[cv.bits] = old
    return e


def trunc(cv, h, hbits):
    return h >> max(0, hbits - cv.n.bit_length())


def hashes(cv, wide):
    """(integer, bits of the digest): all that fit into the order's bits, and
    longer digests whose first bit is set"""
    nb = cv.n.bit_length()
    hs = [(h, nb) for h in range(1 << nb)]
    for extra in (1, 3, 250):
        hs += [((1 << nb - 1 | t) << extra | e, nb + extra)
               for t in (range(1 << nb - 1) if wide else (0, 1, 3))
               for e in (0, (1 << extra) - 1)]
    return hs


def spec_verify(cv, z, r, s, Q):
    if not (0 < r < cv.n and 0 < s < cv.n):
        return False
    w = pow(s, -1, cv.n)
    R = cv.add(cv.mul(cv.g, z * w), cv.mul(Q, r * w))
    return R is not None and R[0] % cv.n == r


def small_verify(c, curves, wide):
    spec = c.choose("curve", curves)
    cv = tiny(spec)
    Q = c.choose("public key", cv.points)
    e = instance(cv)
    ev = 0
    top = list(range(0, min(256, 2 * cv.n + 3))) + [254, 255]
    for h, hb in hashes(cv, wide):
        z = trunc(cv, h, hb)
        longh = hb > cv.n.bit_length()
        for r in (top if not longh else range(1, cv.n)):
            for s in (top if not longh else (1, 2, cv.n - 1)):
                ev += 1
                got = e.verify(h, bytes([r, s]), Q)
                want = spec_verify(cv, z, r, s, Q)
                check(bool(got) == want, "verify(h=%d, r=%d, s=%d, %r) on %r "
                      "says %r" % (h, r, s, Q, spec, got))
    for ln in list(range(2)) + [3, 4, 5]:
        for v in (0, 1, 2, 255):
            got = attempt(e.verify, 1, bytes([v]) * ln, Q)
            check(raised(got) or got is False, "signature of %d octets" % ln)
    c.evals = ev
    c.done("agrees")


def signable(cv, z, d):
    """some nonce gives r and s other than 0 (on every real curve)"""
    xs = {x % cv.n for x, y in cv.points} - {0}
    return any((z + r * d) % cv.n for r in xs)


def small_sign(c, curves):
    spec = c.choose("curve", curves)
    cv = tiny(spec)
    d = c.choose("private key", range(1, cv.n))
    e = instance(cv)
    Q = cv.mul(cv.g, d)
    check(tuple(e.public_key_for(d)) == Q, "public_key_for(%d)" % d)
    ev = 0
    for h, hb in hashes(cv, False):
        z = trunc(cv, h, hb)
        if not signable(cv, z, d):
            continue
        for k in range(1, cv.n):
            ev += 1
            r = cv.mul(cv.g, k)[0] % cv.n
            s = pow(k, -1, cv.n) * (z + r * d) % cv.n
            got = e.sign(h, d, k)
            check(len(got) == 2, "signature of %d octets" % len(got))
            if r and s:
                check(got == bytes([r, s]), "sign(h=%d, d=%d, k=%d) = %r, not "
                      "%r" % (h, d, k, got, (r, s)))
            check(spec_verify(cv, z, got[0], got[1], Q),
                  "sign(h=%d, d=%d, k=%d) = %r does not verify" % (
                      h, d, k, got))
    c.evals = ev
    c.done("equation holds")


def small_random(c, curves):
    """every value the generator can give, for nonces and key pairs"""
    spec = c.choose("curve", curves)
    cv = tiny(spec)
    first = c.choose("first octet", range(256))
    e = instance(cv)

    def feed():
        st = [0]

        def f(n):
            st[0] += 1
            if st[0] == 1:
                return bytes([first]) * n
            return None
        RNG.script = f
    feed()
    d, Q = e.key_pair()
    check(1 <= d < cv.n and tuple(Q) == cv.mul(cv.g, d),
          "key pair %r %r" % (d, Q))
    for d in range(1, cv.n):
        Q = cv.mul(cv.g, d)
        for z in range(cv.n + 1):
            if not signable(cv, z, d):
                continue
            feed()
            got = e.sign(z, d)
            check(len(got) == 2 and spec_verify(cv, z, got[0], got[1], Q),
                  "sign(h=%d, d=%d) = %r with generator octet %d" % (
                      z, d, got, first))
    c.evals = cv.n ** 2
    c.done("equation holds")


def small_other(c, curves):
    spec = c.choose("curve", curves)
    cv = tiny(spec)
    e = instance(cv)
    what = c.choose("what", ["compress", "on_curve", "dh"])
    if what == "compress":
        if cv.p % 4 != 3:
            raise Prune()
        xs = {x for x, y in cv.points}
        for P in cv.points:
            x, bit = e.compress(P)
            check(tuple(e.uncompress((x, bit))) == P, "compress %r" % (P,))
            check(bit in (0, 1) and e.compress(neg(P, cv.p))[1] != bit,
                  "P and -P compress to the same")
        for x in range(cv.p):
            for bit in (0, 1):
                r = attempt(e.uncompress, (x, bit))
                check(raised(r) if x not in xs else tuple(r) in cv.log,
                      "uncompress(%d, %d) = %r" % (x, bit, r))
    elif what == "on_curve":
        for x in range(-cv.p, 3 * cv.p):
            for y in range(-cv.p, 3 * cv.p):
                check(bool(e.on_curve((x, y))) == ((x, y) in cv.log),
                      "on_curve(%d, %d)" % (x, y))
    else:
        for P in cv.points:
            for d in range(1, cv.n):
                z = e.dh_z(d, P)
                check(z == bytes([cv.mul(P, d)[0]]),
                      "dh_z(%d, %r) = %r" % (d, P, z))
    c.done(what)


# --- the NIST curves ------------------------------------------------------------------

def scalars(n):
    L = n.bit_length()
    alt = int("10" * L, 2)
    s = {0, 1, 2, 3, 4, 5, n - 1, n - 2, n, n + 1, (n - 1) // 2, (n + 1) // 2,
         (1 << L) - 1, alt % (1 << L), (alt >> 1) % (1 << L), n // 3,
         0x5555 << (L - 20), 1 << L - 1, 2 * n - 1, 2 * n + 1}
    for k in (7, 8, 9, 31, 32, 63, 64, L - 2, L // 2):
        s |= {1 << k, (1 << k) - 1, (1 << k) + 1, n - (1 << k)}
    return sorted(s)


def pmul(cv, P, k):
    """native multiplication, also for points whose order is n"""
    return cv.mul(P, k)


@functools.lru_cache(None)
def small_x(crv, base, count):
    """points whose x coordinate is base, base+1, ..."""
    cv = ref.CURVES[crv]
    out = []
    x = base
    while len(out) < count:
        a = (x ** 3 + cv.a * x + cv.b) % cv.p
        y = pow(a, (cv.p + 1) // 4, cv.p)
        if y * y % cv.p == a and x < cv.p:
            out.append((x, y))
        x += 1
    return out


def nist_mul(c):
    from jwkest.ecc import NISTEllipticCurve
    crv = c.choose("curve", list(ref.CURVES))
    cv = ref.CURVES[crv]
    k = c.choose("scalar", scalars(cv.n))
    pt = c.choose("point", ["G", "-G", "2G", "small x", "random"])
    P = {"G": cv.g, "-G": neg(cv.g, cv.p), "2G": cv.pub(2),
         "small x": small_x(crv, 0, 1)[0], "random": cv.pub(12345678901)}[pt]
    e = NISTEllipticCurve.by_name(crv)
    want = cv.mul(P, k)
    from jwkest import elliptic as E
    p, q = pq(cv)
    got = E.mulp(p, q, cv.p, P, k)
    check(eq(got, want, cv.p), "%s: %d*%s = %r" % (crv, k, pt, got))
    if want is not None:
        z = e.dh_z(k, P)
        check(z == ref.i2o(want[0], cv.bytes), "dh_z(%d, %s) = %r" % (k, pt, z))
        if pt == "G":
            check(tuple(e.public_key_for(k)) == want, "public_key_for(%d)" % k)
        check(e.on_curve(want), "on_curve")
        check(not e.on_curve((want[0], want[1] ^ 1)), "on_curve of no point")
        check(not e.on_curve((want[0] + cv.p, want[1])), "on_curve unreduced")
        check(not e.on_curve((want[0], want[1] - cv.p)), "on_curve negative")
        x, bit = e.compress(want)
        check(tuple(e.uncompress((x, bit))) == want, "uncompress")
        check(tuple(e.uncompress((x, 1 - bit))) == neg(want, cv.p),
              "uncompress the other")
    c.done("group law")


def nist_muladd(c):
    from jwkest import elliptic as E
    crv = c.choose("curve", list(ref.CURVES))
    cv = ref.CURVES[crv]
    n = cv.n
    ss = [0, 1, 2, 3, n - 1, n - 2, n // 2, (1 << 128) - 1, 1 << 200,
          n // 3, int("10" * (n.bit_length() // 2), 2)]
    c1 = c.choose("c1", ss)
    c2 = c.choose("c2", ss)
    d = c.choose("Q = d*G", [1, n - 1, 2, (n + 1) // 2, 987654321987654321])
    Q = cv.pub(d)
    p, q = pq(cv)
    want = cv.mul(cv.g, c1 + c2 * d)
    got = E.muladdp(p, q, cv.p, cv.g, c1, Q, c2)
    check(eq(got, want, cv.p), "%s: %d*G + %d*%d*G = %r" % (
        crv, c1, c2, d, got))
    c.done("group law")


def crafted(c):
    """Signatures for chosen R, s and hash: the public key is computed so that
    the equation holds, which reaches the values no signer would ever hit."""
    from jwkest.ecc import NISTEllipticCurve
    crv = c.choose("curve", list(ref.CURVES))
    cv = ref.CURVES[crv]
    n = cv.n
    e = NISTEllipticCurve.by_name(crv)
    rn = c.choose("R", ["x = 0..", "x = n..", "x = 2^8k-1..", "x = p-1..",
                        "G", "-G", "random"])
    if rn == "x = 0..":
        R = c.choose("which", small_x(crv, 0, 4))
    elif rn == "x = n..":
        R = c.choose("which", small_x(crv, n, 3))
    elif rn == "x = 2^8k-1..":
        R = c.choose("which", [small_x(crv, (1 << 8 * k) - 1, 1)[0]
                               for k in (1, 8, cv.bytes - 1)])
    elif rn == "x = p-1..":
        R = small_x(crv, cv.p - 40, 1)[0]
    else:
        R = {"G": cv.g, "-G": neg(cv.g, cv.p),
             "random": cv.pub(31415926535897)}[rn]
    s = c.choose("s", [1, 2, n - 1, n - 2, n // 2 + 1, 255, 1 << 200])
    hb = n.bit_length() if crv != "P-521" else 512
    h = c.choose("hash", [0, 1, n - 1, n, n + 1, (1 << hb) - 1, 1 << hb - 1,
                          1 << 64])
    h &= (1 << hb) - 1
    r = R[0] % n
    if r == 0:
        raise Prune()
    # Q = (s*R - z*G) / r
    ri = pow(r, -1, n)
    Q = cv.add(cv.mul(R, s * ri), cv.mul(cv.g, -h * ri))
    if Q is None:
        raise Prune()
    o = lambda v: ref.i2o(v, cv.bytes)
    sig = o(r) + o(s)
    check(ref.ecdsa_verify(cv, h, sig, Q), "reference disagrees")
    check(e.verify(h, sig, Q) is True, "%s: a valid signature is rejected: "
          "R=%r s=%d h=%d" % (crv, R, s, h))
    top = 1 << 8 * cv.bytes
    bad = [o(0) + o(s), o(r) + o(0), o(0) + o(0), o(n - r) + o(s),
           o(r) + o((s + 1) % n), o(n) + o(s), o(r) + o(n)]
    bad += [o(v) + o(s) for v in (r + n, r + cv.p, R[0]) if v < top and v != r]
    bad += [o(r) + o(s + n)] if s + n < top else []
    bad += [sig[:-1], sig[1:], sig + b"\0", b"\0" + sig, sig[:cv.bytes],
            b"", sig + sig,
            ref.i2o(r, cv.bytes + 1) + ref.i2o(s, cv.bytes + 1),
            b"\0" + o(r) + o(s) + b"\0"]
    for b in bad:
        if len(b) == len(sig) and ref.ecdsa_verify(cv, h, b, Q):
            continue
        got = attempt(e.verify, h, b, Q)
        check(raised(got) or got is False,
              "%s: accepted %s for R=%r s=%d h=%d" % (crv, b.hex(), R, s, h))
    c.evals = len(bad) + 1
    c.done("agrees")


def infinity(c):
    """u1*G + u2*Q is the point at infinity: never a valid signature"""
    from jwkest.ecc import NISTEllipticCurve
    crv = c.choose("curve", list(ref.CURVES))
    cv = ref.CURVES[crv]
    n = cv.n
    e = NISTEllipticCurve.by_name(crv)
    d = c.choose("private key", [1, 2, n - 1, n // 2, 1234567890123])
    r = c.choose("r", [1, 2, cv.g[0] % n, n - 1, cv.pub(2)[0] % n])
    s = c.choose("s", [1, n - 1, 77])
    z = -r * d % n
    if crv == "P-521" and z >= 1 << 512:
        pass                 # verify() takes a number; still well defined
    got = attempt(e.verify, z, ref.i2o(r, cv.bytes) + ref.i2o(s, cv.bytes),
                  cv.pub(d))
    check(raised(got) or got is False, "infinity accepted")
    c.done("refused")


def nist_sign(c):
    from jwkest.ecc import NISTEllipticCurve
    crv = c.choose("curve", list(ref.CURVES))
    cv = ref.CURVES[crv]
    n = cv.n
    e = NISTEllipticCurve.by_name(crv)
    d = c.choose("private key", [1, 2, n - 1, n - 2, 1 << 64, n // 2])
    k = c.choose("nonce", [1, 2, 3, n - 1, n - 2, (1 << 128) - 1, n // 3,
                           1 << 250 if crv != "P-521" else 1 << 519])
    hb = n.bit_length() if crv != "P-521" else 512
    h = c.choose("hash", [0, 1, n - 1, n, (1 << hb) - 1, 1 << hb - 1,
                          1 << hb - 9, 0xff])
    h &= (1 << hb) - 1
    r = cv.pub(k)[0] % n
    s = pow(k, -1, n) * (h + r * d) % n
    if s == 0:
        raise Prune()
    want = ref.i2o(r, cv.bytes) + ref.i2o(s, cv.bytes)
    got = e.sign(h, d, k)
    check(got == want, "%s: sign(%d, %d, %d) = %s, not %s" % (
        crv, h, d, k, got.hex(), want.hex()))
    check(e.verify(h, got, cv.pub(d)) is True, "does not verify")
    c.done("equation holds")


def tokens(c):
    """crafted public keys through the JWS interface"""
    from jwkest.jws import JWS
    from jwkest.jwk import ECKey
    alg = c.choose("alg", ES)
    crv, bits = ref.ES[alg]
    cv = ref.CURVES[crv]
    n = cv.n
    R = c.choose("R", small_x(crv, 0, 3) + small_x(crv, n, 2) + [
        cv.g, neg(cv.g, cv.p), small_x(crv, (1 << 8 * cv.bytes - 16), 1)[0]])
    s = c.choose("s", [1, n - 1, 255, 1 << 130])
    pay = c.choose("payload", [b"{}", b"x" * 100])
    si = ref.b64e(b'{"alg":"%s"}' % alg.encode()) + "." + ref.b64e(pay)
    z = ref.hash_int(bits, si.encode(), n)
    r = R[0] % n
    if r == 0:
        raise Prune()
    ri = pow(r, -1, n)
    Q = cv.add(cv.mul(R, s * ri), cv.mul(cv.g, -z * ri))
    key = ECKey(**ref.jwk_of(("EC", crv, Q, None)))
    o = lambda v: ref.i2o(v, cv.bytes)
    run = lambda sig: attempt(JWS().verify_compact,
                              si + "." + ref.b64e(sig), [key])
    got = run(o(r) + o(s))
    check(got == payload_value(pay), "valid signature rejected: %r" % (got,))
    for v in (r + n, r + cv.p, 0, R[0]):
        if v < 1 << 8 * cv.bytes and v != r:
            check(raised(run(o(v) + o(s))), "r = %d accepted" % v)
    for v in (s + n, 0):
        if v < 1 << 8 * cv.bytes:
            check(raised(run(o(r) + o(v))), "s = %d accepted" % v)
    c.done("agrees")


# --- the other curves the library offers ---------------------------------------------

@functools.lru_cache(None)
def other_curve(bits):
    from Cryptodome.PublicKey import ECC
    d = ECC._curves["P-%d" % bits]
    cv = ref.Curve("P-%d" % bits, int(d.p), int(d.b), int(d.order),
                   int(d.Gx), int(d.Gy))
    if cv.mul_slow(cv.g, cv.n) is not None or not cv.on_curve(cv.g):
        raise HarnessError("P-%d" % bits)
    return cv


def other_constants(c):
    from jwkest import curves
    from jwkest.ecc import NISTEllipticCurve
    bits = c.choose("curve", [128, 160, 192, 224, 256, 384, 521])
    e = NISTEllipticCurve(bits)
    check(e.name() == "P-%d" % bits and e.bits == bits and
          e.bytes == (bits + 7) // 8, "name or size")
    check(e.on_curve(e.G), "the generator is not on the curve")
    if bits < 192:
        check(e.N is None, "a weak curve must not have an order")
        check(bits not in curves.implemented_keys(True) and
              bits in curves.implemented_keys(), "implemented_keys")
        r = attempt(e.sign, 1, 2, 3)
        check(raised(r), "signed with a weak curve: %r" % (r,))
    else:
        cv = other_curve(bits)
        check((e.p, e.N, e.G) == (cv.p, cv.n, cv.g) and
              (-e.b - cv.b) % cv.p == 0 and (e.a - 3) % cv.p == 0,
              "domain parameters of P-%d" % bits)
        check(bits in curves.implemented_keys(True), "implemented_keys")
    for b in (0, 64, 255, 512, -256, None, "256"):
        check(raised(attempt(NISTEllipticCurve, b)), "curve of %r bits" % b)
    c.done("P-%d" % bits)


def other_arith(c, ks):
    from jwkest import elliptic as E
    from jwkest.ecc import NISTEllipticCurve
    bits = c.choose("curve", [128, 160, 192, 224])
    e = NISTEllipticCurve(bits)
    cv = other_curve(bits) if bits > 160 else ref.Curve(
        "weak", e.p, -e.b % e.p, None, *e.G)
    k = c.choose("scalar", ks(cv.n or 1 << bits))
    d = c.choose("point", [1, 2, 3, 12345678901])
    P = cv.mul_slow(cv.g, d)
    want = cv.mul_slow(P, k)
    p, q = pq(cv)
    got = E.mulp(e.a, e.b, e.p, P, k)
    check(eq(got, want, cv.p), "P-%d: %d*%d*G = %r" % (bits, k, d, got))
    got = E.muladdp(e.a, e.b, e.p, cv.g, k, P, k)
    check(eq(got, cv.add(cv.mul_slow(cv.g, k), want), cv.p),
          "P-%d: %d*G + %d*%d*G = %r" % (bits, k, k, d, got))
    if want is not None:
        check(e.on_curve(want) and not e.on_curve((want[0], want[1] ^ 1)),
              "on_curve")
        check(e.dh_z(k, P) == ref.i2o(want[0], cv.bytes), "dh_z")
        x, bit = e.compress(want)
        for b in (bit, 1 - bit):
            r = attempt(e.uncompress, (x, b))
            if cv.p % 4 == 3:
                check(r == (want if b == bit else neg(want, cv.p)),
                      "uncompress: %r" % (r,))
            else:
                check(raised(r), "a square root for p = 1 mod 4: %r" % (r,))
    c.evals = 5
    c.done("group law")


def other_ecdsa(c):
    from jwkest.ecc import NISTEllipticCurve
    bits = c.choose("curve", [192, 224])
    e = NISTEllipticCurve(bits)
    cv = other_curve(bits)
    n = cv.n
    d = c.choose("private key", [1, 2, n - 1, n // 2, "drawn"])
    k = c.choose("nonce", [1, 2, n - 1, n // 3, "drawn"])
    h = c.choose("hash", [0, 1, n - 1, n, (1 << bits) - 1, 1 << bits - 1,
                          (1 << 256) - 1, 1 << 511])
    if d == "drawn":
        d, Q = e.key_pair()
        check(0 < d < n and tuple(Q) == cv.mul_slow(cv.g, d), "key pair")
    Q = cv.mul_slow(cv.g, d)
    sig = e.sign(h, d) if k == "drawn" else e.sign(h, d, k)
    check(len(sig) == 2 * cv.bytes, "length %d" % len(sig))
    r, s = ref.o2i(sig[:cv.bytes]), ref.o2i(sig[cv.bytes:])
    z = h >> max(0, h.bit_length() - bits)
    check(spec_verify(cv, z, r, s, Q), "the equation does not hold")
    if k != "drawn":
        check(r == cv.mul_slow(cv.g, k)[0] % n, "r")
    check(e.verify(h, sig, Q) is True, "does not verify")
    o = lambda v: ref.i2o(v, cv.bytes)
    for b in (o(r) + o(s ^ 1), o(r ^ 1) + o(s), o(0) + o(s), o(r) + o(0),
              sig[1:], sig + b"\0", o(n) + o(s), o(r) + o(n)):
        got = attempt(e.verify, h, b, Q)
        check(raised(got) or got is False, "accepted %s" % b.hex())
    check(not e.verify(h ^ (1 << max(0, h.bit_length() - 3)), sig, Q),
          "other hash")
    c.done("equation holds")


def scopes(tier):
    th = tier == "thorough"
    orders = lambda top: [s for s in SMALL if s[3] <= top]
    vs = [s for s in SMALL if s[1] == -3 and s[3] <= (37 if th else 23)]
    sg = [s for s in SMALL if s[1] == -3 and s[3] <= (53 if th else 37)]
    rc = [s for s in SMALL if s[1] == -3 and s[3] <= (23 if th else 11)]
    return [
        Scope("group law", lambda c: arith(c, SMALL), 2,
              "%d small prime-order curves: all pairs of points (in all "
              "projective representations for p < 20), all scalars 0..3N+3"
              % len(SMALL)),
        Scope("multiply-add, all points", lambda c: muladd(
            c, orders(19 if th else 11), True), 2,
            "all P, Q and scalars 0..N+1, orders up to %d" % (
                19 if th else 11)),
        Scope("multiply-add, P=G", lambda c: muladd(
            c, orders(53 if th else 31), False), 2,
            "all Q and scalars 0..2N+1, orders up to %d" % (
                53 if th else 31)),
        Scope("ECDSA verify", lambda c: small_verify(c, vs, th), 2,
              "all public keys, hashes of the order's length, r and s in "
              "0..2N+2, longer hashes; orders up to %d" % (37 if th else 23)),
        Scope("ECDSA sign", lambda c: small_sign(c, sg), 2,
              "all private keys, nonces, hashes; orders up to %d" % (
                  53 if th else 37)),
        Scope("random numbers", lambda c: small_random(c, rc), 2,
              "all values of the octet drawn x all keys x all hashes"),
        Scope("small curve methods", lambda c: small_other(
            c, [s for s in SMALL if s[1] == -3]), 2,
            "compress/uncompress, on_curve, dh_z: all points and non-points"),
        Scope("NIST multiply", nist_mul, 2, "3 curves x ~56 boundary scalars x "
              "5 points"),
        Scope("NIST multiply-add", nist_muladd, 2,
              "3 curves x 11x11 boundary scalars x 5 points Q"),
        Scope("NIST crafted signatures", crafted, 2,
              "3 curves x ~14 points R (x below n, above n, tiny, huge) x 7 s "
              "x 8 hashes; 20 invalid variants of each"),
        Scope("NIST infinity", infinity, 2, "r, s, h with u1*G+u2*Q infinite"),
        Scope("NIST sign", nist_sign, 2,
              "3 curves x 6 keys x 8 nonces x 8 hashes"),
        Scope("JWS with crafted keys", tokens, 2,
              "3 algorithms x 8 R x 4 s x 2 payloads"),
        Scope("other curves", other_constants, 1,
              "domain parameters of all 7 curves; sizes that don't exist"),
        Scope("other curves, arithmetic", lambda c: other_arith(
            c, scalars if th else lambda n: scalars(n)[::2]), 2,
            "4 curves x %d scalars x 4 points" % (56 if th else 28)),
        Scope("other curves, ECDSA", other_ecdsa, 2,
              "P-192, P-224: 5 keys x 5 nonces x 8 hashes, 9 forgeries each"),
    ]
