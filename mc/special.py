"""ECDSA keys and nonces made so that r or s takes a chosen value."""
from mc import ref

# nonces k for which r = x(kG) mod n has two (P-521 also three) leading zero
# octets, found by search
SHORT_R = {"P-256": [40393], "P-384": [14971], "P-521": [273, 10735]}


def key_for_s(crv, z, k, s):
    """the private key whose signature of z with nonce k has this s"""
    cv = ref.CURVES[crv]
    r = cv.mul(cv.g, k)[0] % cv.n
    d = (s * k - z) * pow(r, -1, cv.n) % cv.n
    if not d:
        return None
    return ("EC", crv, cv.pub(d), d)


def lift(cv, x):
    """a point with that x, or None"""
    a = (x * x * x + cv.a * x + cv.b) % cv.p
    y = pow(a, (cv.p + 1) // 4, cv.p)
    return (x, y) if y * y % cv.p == a else None


def key_for_r(crv, z, x, s):
    """(public key, r): (r, s) is a valid signature of z, with r = x(R) mod n
    for the first R whose x coordinate is >= x"""
    cv = ref.CURVES[crv]
    R = lift(cv, x)
    while R is None:
        x += 1
        if x >= cv.p:
            return None
        R = lift(cv, x)
    r = x % cv.n
    # Q = r^-1 (s R - z G)
    ri = pow(r, -1, cv.n)
    Q = cv.add(cv.mul_slow(R, s * ri % cv.n), cv.mul(cv.g, -z * ri))
    return ("EC", crv, Q, None), r


def script_nonce(crv, k):
    """a script for RNG that makes getrandbits(bits) % (n - 1) + 1 be k"""
    cv = ref.CURVES[crv]
    first = [True]

    def script(n):
        if first and n == cv.bytes:
            first.pop()
            return ref.i2o(k - 1, n)
    return script
