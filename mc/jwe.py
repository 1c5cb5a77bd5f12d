"""Helpers for the JWE checks."""
from mc import ref, keys as K

CBC = ["A128CBC-HS256", "A192CBC-HS384", "A256CBC-HS512"]
GCM = ["A128GCM", "A192GCM", "A256GCM"]
CURVES = ["P-256", "P-384", "P-521"]
KM = [(a, "r0") for a in ref.RSA_ALGS] + \
    [(a, "h0.%d" % n) for a, n in zip(ref.KW_ALGS, (16, 24, 32))] + \
    [(a, K.ecname(c, 3)) for a in ref.EC_ALGS for c in CURVES]
KM_SMALL = [("RSA1_5", "r0"), ("RSA-OAEP", "r0"), ("RSA-OAEP-256", "r0"),
            ("A128KW", "h0.16"), ("A256KW", "h0.32"), ("ECDH-ES", "p256.3"),
            ("ECDH-ES+A192KW", "p256.3")]


def kt(alg):
    return {"R": "RSA", "A": "oct", "E": "EC"}[alg[0]]


def mat(alg, name):
    """the key for the reference implementation"""
    m = K.MAT[name]
    if m[0] == "oct":
        return ("oct", ref.oidc_kek(m[1], alg))
    return m


def key(name, private=True, **ex):
    """the cheapest form"""
    form = {"r": "object", "h": "octets", "p": "ints"}[name[0]]
    return K.build(name, form, private, **ex)


def octs(label, n):
    import hashlib
    out = b""
    i = 0
    while len(out) < n:
        out += hashlib.sha256(b"%s.%d" % (label.encode(), i)).digest()
        i += 1
    return out[:n]


def classes(t, key, alg, cek, api):
    """the decrypters of the single families, used directly"""
    from jwkest import jwe
    from mc.jose import attempt, raised
    if api == "class JWEnc" or alg[0] == "E":
        t = attempt(jwe.JWEnc().unpack, t)
        if raised(t):
            return t
    if alg[0] == "E":
        def run():
            j = jwe.JWE_EC()
            j.dec_setup(t, key=key)
            return j.decrypt(t)
        return attempt(run)
    j = jwe.JWE_SYM() if alg[0] == "A" else jwe.JWE_RSA()
    k = key.encryption_key(alg=alg, private=False)
    if api == "class cek":
        return attempt(j.decrypt, t, k if alg[0] == "R" else None, cek)
    return attempt(j.decrypt, t, k)
