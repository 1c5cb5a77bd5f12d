"""Reference JOSE implementation (the specification the code is compared with).

Written from RFC 7515-7518, 7638, 3394, 2104, SP 800-38D and SEC 1 on top of
hashlib/hmac and pycryptodome's native primitives; nothing here comes from
jwkest.  `selftest()` validates it against the published RFC vectors, so that
the oracle is itself bound to something other than the code under test.
"""
import base64
import hashlib
import hmac
import json
import struct
import zlib

from Cryptodome.Cipher import AES
from Cryptodome.Cipher import PKCS1_OAEP
from Cryptodome.Cipher import PKCS1_v1_5
from Cryptodome.Hash import SHA1, SHA256, SHA384, SHA512
from Cryptodome.PublicKey import ECC
from Cryptodome.PublicKey import RSA
from Cryptodome.Signature import pkcs1_15
from Cryptodome.Signature import pss

HASH = {"256": SHA256, "384": SHA384, "512": SHA512}
HLIB = {"256": hashlib.sha256, "384": hashlib.sha384, "512": hashlib.sha512}


class Reject(Exception):
    pass


# --- base64url -------------------------------------------------------------

ALPHA = ("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"
         "0123456789-_")
_REV = {c: i for i, c in enumerate(ALPHA)}


def b64e(b):
    """bytes -> str, bit by bit (RFC 4648 section 5 without padding)"""
    n = 0
    bits = 0
    out = []
    for o in b:
        n = (n << 8) | o
        bits += 8
        while bits >= 6:
            bits -= 6
            out.append(ALPHA[(n >> bits) & 63])
            n &= (1 << bits) - 1
    if bits:
        out.append(ALPHA[(n << (6 - bits)) & 63])
    return "".join(out)


def b64d(s):
    """str/bytes -> bytes; Reject for anything outside the alphabet and for
    impossible lengths (no padding accepted)"""
    if isinstance(s, bytes):
        try:
            s = s.decode("ascii")
        except UnicodeDecodeError:
            raise Reject("alphabet")
    if len(s) % 4 == 1:
        raise Reject("length")
    n = bits = 0
    out = bytearray()
    for ch in s:
        if ch not in _REV:
            raise Reject("alphabet")
        n = (n << 6) | _REV[ch]
        bits += 6
        if bits >= 8:
            bits -= 8
            out.append((n >> bits) & 255)
            n &= (1 << bits) - 1
    return bytes(out)


def i2o(n, ln):
    return n.to_bytes(ln, "big")


def o2i(b):
    return int.from_bytes(b, "big")


def uint_b64(n):
    return b64e(i2o(n, max(1, (n.bit_length() + 7) // 8)))


# --- curves ------------------------------------------------------------------

class Curve(object):
    def __init__(self, name, p, b, n, gx, gy):
        self.name, self.p, self.b, self.n = name, p, b, n
        self.a = p - 3
        self.g = (gx, gy)
        self.bytes = (p.bit_length() + 7) // 8

    def on_curve(self, pt):
        x, y = pt
        return (0 <= x < self.p and 0 <= y < self.p and
                (y * y - (x * x * x + self.a * x + self.b)) % self.p == 0)

    # textbook affine arithmetic
    def add(self, P, Q):
        if P is None:
            return Q
        if Q is None:
            return P
        if P[0] == Q[0]:
            if (P[1] + Q[1]) % self.p == 0:
                return None
            m = (3 * P[0] * P[0] + self.a) * pow(2 * P[1], -1, self.p)
        else:
            m = (Q[1] - P[1]) * pow(Q[0] - P[0], -1, self.p)
        x = (m * m - P[0] - Q[0]) % self.p
        return x, (m * (P[0] - x) - P[1]) % self.p

    def mul_slow(self, P, k):
        R = None
        while k:
            if k & 1:
                R = self.add(R, P)
            P = self.add(P, P)
            k >>= 1
        return R

    def mul(self, P, k):
        """native"""
        k %= self.n
        if k == 0:
            return None
        pt = ECC.EccPoint(P[0], P[1], curve=self.name) * k
        return int(pt.x), int(pt.y)

    def pub(self, d):
        return self.mul(self.g, d)


CURVES = {
    "P-256": Curve(
        "P-256", 2**256 - 2**224 + 2**192 + 2**96 - 1,
        0x5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b,
        0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551,
        0x6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296,
        0x4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5),
    "P-384": Curve(
        "P-384", 2**384 - 2**128 - 2**96 + 2**32 - 1,
        int("b3312fa7e23ee7e4988e056be3f82d19181d9c6efe8141120314088f"
            "5013875ac656398d8a2ed19d2a85c8edd3ec2aef", 16),
        int("ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81"
            "f4372ddf581a0db248b0a77aecec196accc52973", 16),
        int("aa87ca22be8b05378eb1c71ef320ad746e1d3b628ba79b9859f741e0"
            "82542a385502f25dbf55296c3a545e3872760ab7", 16),
        int("3617de4a96262c6f5d9e98bf9292dc29f8f41dbd289a147ce9da3113"
            "b5f0b8c00a60b1ce1d7e819d7a431d7c90ea0e5f", 16)),
    "P-521": Curve(
        "P-521", 2**521 - 1,
        int("0051953eb9618e1c9a1f929a21a0b68540eea2da725b99b315f3b8b4"
            "89918ef109e156193951ec7e937b1652c0bd3bb1bf073573df883d2c"
            "34f1ef451fd46b503f00", 16),
        int("01fffffffffffffffffffffffffffffffffffffffffffffffffffff"
            "ffffffffffffa51868783bf2f966b7fcc0148f709a5d03bb5c9b889"
            "9c47aebb6fb71e91386409", 16),
        int("00c6858e06b70404e9cd9e3ecb662395b4429c648139053fb521f828"
            "af606b4d3dbaa14b5e77efe75928fe1dc127a2ffa8de3348b3c1856a"
            "429bf97e7e31c2e5bd66", 16),
        int("011839296a789a3bc0045c8a5fb42c7d1bd998f54449579b446817af"
            "bd17273e662c97ee72995ef42640c550b9013fad0761353c7086a272"
            "c24088be94769fd16650", 16)),
}
ES = {"ES256": ("P-256", "256"), "ES384": ("P-384", "384"),
      "ES512": ("P-521", "512")}


# --- JWS primitives ------------------------------------------------------------
# Keys of the reference: ("oct", bytes) | ("RSA", RsaKey) |
#                        ("EC", curve name, (x, y), d or None)

def hash_int(alg, data, n):
    dig = HLIB[alg](data).digest()
    h = o2i(dig)
    excess = len(dig) * 8 - n.bit_length()
    return h >> excess if excess > 0 else h


def ecdsa_verify(cv, z, sig, pub):
    if len(sig) != 2 * cv.bytes:
        return False
    r, s = o2i(sig[:cv.bytes]), o2i(sig[cv.bytes:])
    if not (0 < r < cv.n and 0 < s < cv.n):
        return False
    w = pow(s, -1, cv.n)
    A = cv.mul(cv.g, z * w)
    B = cv.mul(pub, r * w)
    R = cv.add(A, B)
    return R is not None and R[0] % cv.n == r


def ecdsa_sign(cv, z, d, k):
    R = cv.mul(cv.g, k)
    r = R[0] % cv.n
    s = pow(k, -1, cv.n) * (z + r * d) % cv.n
    return i2o(r, cv.bytes) + i2o(s, cv.bytes)


def sig_sign(alg, data, key, k=None):
    t, bits = alg[:2], alg[2:]
    if t == "HS":
        return hmac.new(key[1], data, HLIB[bits]).digest()
    if t == "RS":
        return pkcs1_15.new(key[1]).sign(HASH[bits].new(data))
    if t == "PS":
        return pss.new(key[1]).sign(HASH[bits].new(data))
    if t == "ES":
        cv = CURVES[ES[alg][0]]
        z = hash_int(bits, data, cv.n)
        if k is None:
            k = o2i(hashlib.sha512(b"k" + data + i2o(key[3], 66)).digest() +
                    b"\x01") % (cv.n - 1) + 1
        return ecdsa_sign(cv, z, key[3], k)
    raise Reject("alg")


def sig_verify(alg, data, sig, key):
    t, bits = alg[:2], alg[2:]
    if t == "HS":
        return key[0] == "oct" and hmac.compare_digest(
            hmac.new(key[1], data, HLIB[bits]).digest(), sig)
    if t in ("RS", "PS"):
        if key[0] != "RSA":
            return False
        v = (pkcs1_15 if t == "RS" else pss).new(key[1])
        try:
            v.verify(HASH[bits].new(data), sig)
            return True
        except (ValueError, TypeError):
            return False
    if t == "ES":
        if key[0] != "EC" or key[1] != ES[alg][0]:
            return False
        cv = CURVES[key[1]]
        return ecdsa_verify(cv, hash_int(bits, data, cv.n), sig, key[2])
    return False


def enc_json(o):
    return json.dumps(o, separators=(",", ":")).encode("utf-8")


def jws_make(header, payload, key, alg=None, k=None):
    """header: dict or raw bytes"""
    hb = header if isinstance(header, bytes) else enc_json(header)
    alg = alg or header["alg"]
    si = (b64e(hb) + "." + b64e(payload)).encode()
    sig = b"" if alg == "none" else sig_sign(alg, si, key, k)
    return si.decode() + "." + b64e(sig)


def jws_parts(tok):
    if isinstance(tok, bytes):
        tok = tok.decode("ascii")
    ps = tok.split(".")
    if len(ps) != 3:
        raise Reject("parts")
    return ps


def jws_open(tok, key, alg):
    """-> (header, payload octets); the given algorithm only"""
    h, p, s = jws_parts(tok)
    hdr = json.loads(b64d(h))
    if hdr.get("alg") != alg:
        raise Reject("alg")
    if not sig_verify(alg, (h + "." + p).encode(), b64d(s), key):
        raise Reject("signature")
    return hdr, b64d(p)


# --- JWE primitives --------------------------------------------------------------

CEKLEN = {"A128GCM": 16, "A192GCM": 24, "A256GCM": 32,
          "A128CBC-HS256": 32, "A192CBC-HS384": 48, "A256CBC-HS512": 64}
IVLEN = {k: 12 if "GCM" in k else 16 for k in CEKLEN}
ENCS = list(CEKLEN)
RSA_ALGS = ["RSA1_5", "RSA-OAEP", "RSA-OAEP-256"]
KW_ALGS = ["A128KW", "A192KW", "A256KW"]
EC_ALGS = ["ECDH-ES", "ECDH-ES+A128KW", "ECDH-ES+A192KW", "ECDH-ES+A256KW"]


def cbc_hs_encrypt(enc, key, iv, aad, pt):
    half = len(key) // 2
    hname = enc.rsplit("HS", 1)[1]
    mac, ek = key[:half], key[half:]
    n = 16 - len(pt) % 16
    ct = AES.new(ek, AES.MODE_CBC, iv).encrypt(pt + bytes([n]) * n)
    t = hmac.new(mac, aad + iv + ct + struct.pack(">Q", len(aad) * 8),
                 HLIB[hname]).digest()[:half]
    return ct, t


def cbc_hs_decrypt(enc, key, iv, aad, ct, tag):
    if len(key) != CEKLEN[enc] or len(iv) != 16 or len(ct) % 16 or not ct:
        raise Reject("length")
    half = len(key) // 2
    hname = enc.rsplit("HS", 1)[1]
    t = hmac.new(key[:half], aad + iv + ct + struct.pack(">Q", len(aad) * 8),
                 HLIB[hname]).digest()[:half]
    if t != tag:
        raise Reject("tag")
    pt = AES.new(key[half:], AES.MODE_CBC, iv).decrypt(ct)
    n = pt[-1]
    if not 1 <= n <= 16 or pt[-n:] != bytes([n]) * n:
        raise Reject("padding")
    return pt[:-n]


def content_encrypt(enc, key, iv, aad, pt):
    if "GCM" in enc:
        c = AES.new(key, AES.MODE_GCM, nonce=iv, mac_len=16)
        c.update(aad)
        return c.encrypt_and_digest(pt)
    return cbc_hs_encrypt(enc, key, iv, aad, pt)


def content_decrypt(enc, key, iv, aad, ct, tag):
    if len(key) != CEKLEN[enc] or len(iv) != IVLEN[enc]:
        raise Reject("length")
    if "GCM" in enc:
        if len(tag) != 16:
            raise Reject("tag length")
        c = AES.new(key, AES.MODE_GCM, nonce=iv, mac_len=16)
        c.update(aad)
        try:
            return c.decrypt_and_verify(ct, tag)
        except ValueError:
            raise Reject("tag")
    return cbc_hs_decrypt(enc, key, iv, aad, ct, tag)


def kw_wrap(kek, data, iv=b"\xa6" * 8):
    """RFC 3394 section 2.2.1, index based"""
    n = len(data) // 8
    A = iv
    R = [data[8 * i:8 * i + 8] for i in range(n)]
    aes = AES.new(kek, AES.MODE_ECB)
    for t in range(1, 6 * n + 1):
        i = (t - 1) % n
        B = aes.encrypt(A + R[i])
        A = bytes(x ^ y for x, y in zip(B[:8], struct.pack(">Q", t)))
        R[i] = B[8:]
    return A + b"".join(R)


def kw_unwrap(kek, data, iv=b"\xa6" * 8):
    if len(data) % 8 or len(data) < 16:
        raise Reject("length")
    n = len(data) // 8 - 1
    A = data[:8]
    R = [data[8 * i + 8:8 * i + 16] for i in range(n)]
    aes = AES.new(kek, AES.MODE_ECB)
    for t in range(6 * n, 0, -1):
        i = (t - 1) % n
        B = aes.decrypt(bytes(x ^ y for x, y in zip(
            A, struct.pack(">Q", t))) + R[i])
        A = B[:8]
        R[i] = B[8:]
    if iv is not None and A != iv:
        raise Reject("integrity")
    return b"".join(R)


def concat_kdf(z, alg, apu, apv, bits):
    def lp(b):
        return struct.pack(">I", len(b)) + b
    other = lp(alg) + lp(apu) + lp(apv) + struct.pack(">I", bits)
    out = b""
    i = 0
    while len(out) * 8 < bits:
        i += 1
        out += hashlib.sha256(struct.pack(">I", i) + z + other).digest()
    return out[:bits // 8]


def ecdh_z(curve, d, pub):
    cv = CURVES[curve]
    if not cv.on_curve(pub):
        raise Reject("off curve")
    return i2o(cv.mul(pub, d)[0], cv.bytes)


# jwkest derives the AES-KW key from the shared secret like OpenID Connect
# core section 10.2: the left-most octets of SHA-256/384/512 of the secret
def oidc_kek(secret, alg):
    return hashlib.sha256(secret).digest()[:int(alg[1:4]) // 8]


def deflate(b):
    c = zlib.compressobj(9, zlib.DEFLATED, -15)
    return c.compress(b) + c.flush()


def inflate(b):
    d = zlib.decompressobj(-15)
    r = d.decompress(b) + d.flush()
    if not d.eof:
        raise Reject("zip")
    return r


def jwe_make(header, pt, key, cek, iv, epk_d=None, enc_key=None):
    """key: ("oct", kek) | ("RSA", RsaKey) | ("EC", crv, (x,y), d)"""
    hdr = dict(header)
    alg, enc = hdr["alg"], hdr["enc"]
    ek = b""
    if alg in RSA_ALGS:
        if alg == "RSA1_5":
            ek = PKCS1_v1_5.new(key[1]).encrypt(cek)
        else:
            ek = PKCS1_OAEP.new(
                key[1], SHA1 if alg == "RSA-OAEP" else SHA256).encrypt(cek)
    elif alg in KW_ALGS:
        ek = kw_wrap(key[1], cek)
    else:
        cv = CURVES[key[1]]
        ep = cv.pub(epk_d)
        hdr.setdefault("epk", {
            "kty": "EC", "crv": key[1], "x": b64e(i2o(ep[0], cv.bytes)),
            "y": b64e(i2o(ep[1], cv.bytes))})
        z = ecdh_z(key[1], epk_d, key[2])
        apu = b64d(hdr["apu"]) if "apu" in hdr else b""
        apv = b64d(hdr["apv"]) if "apv" in hdr else b""
        if alg == "ECDH-ES":
            cek = concat_kdf(z, enc.encode(), apu, apv, CEKLEN[enc] * 8)
        else:
            kw = alg.split("+")[1]
            kek = concat_kdf(z, kw.encode(), apu, apv, int(kw[1:4]))
            ek = kw_wrap(kek, cek)
    if enc_key is not None:
        ek = enc_key
    if hdr.get("zip") == "DEF":
        pt = deflate(pt)
    h = b64e(enc_json(hdr))
    ct, tag = content_encrypt(enc, cek, iv, h.encode(), pt)
    return ".".join([h, b64e(ek), b64e(iv), b64e(ct), b64e(tag)])


def jwe_open(tok, key):
    """-> (header, plaintext, cek, iv)"""
    if isinstance(tok, bytes):
        tok = tok.decode("ascii")
    ps = tok.split(".")
    if len(ps) != 5:
        raise Reject("parts")
    hdr = json.loads(b64d(ps[0]))
    ek, iv, ct, tag = [b64d(p) for p in ps[1:]]
    alg, enc = hdr["alg"], hdr["enc"]
    if alg == "RSA1_5":
        cek = PKCS1_v1_5.new(key[1]).decrypt(ek, None)
        if cek is None:
            raise Reject("pkcs1")
    elif alg in ("RSA-OAEP", "RSA-OAEP-256"):
        try:
            cek = PKCS1_OAEP.new(
                key[1], SHA1 if alg == "RSA-OAEP" else SHA256).decrypt(ek)
        except ValueError:
            raise Reject("oaep")
    elif alg in KW_ALGS:
        cek = kw_unwrap(key[1], ek)
    elif alg in EC_ALGS:
        e = hdr["epk"]
        if e["crv"] != key[1]:
            raise Reject("curve")
        z = ecdh_z(key[1], key[3], (o2i(b64d(e["x"])), o2i(b64d(e["y"]))))
        apu = b64d(hdr["apu"]) if "apu" in hdr else b""
        apv = b64d(hdr["apv"]) if "apv" in hdr else b""
        if alg == "ECDH-ES":
            if ek:
                raise Reject("encrypted key")
            cek = concat_kdf(z, enc.encode(), apu, apv, CEKLEN[enc] * 8)
        else:
            kw = alg.split("+")[1]
            cek = kw_unwrap(concat_kdf(z, kw.encode(), apu, apv,
                                       int(kw[1:4])), ek)
    else:
        raise Reject("alg")
    pt = content_decrypt(enc, cek, iv, ps[0].encode(), ct, tag)
    if hdr.get("zip") == "DEF":
        pt = inflate(pt)
    elif "zip" in hdr:
        raise Reject("zip")
    return hdr, pt, cek, iv


# --- JWK --------------------------------------------------------------------------

def jwk_of(key, private=False, **extra):
    d = dict(extra)
    if key[0] == "oct":
        d.update(kty="oct", k=b64e(key[1]))
    elif key[0] == "RSA":
        k = key[1]
        d.update(kty="RSA", n=uint_b64(k.n), e=uint_b64(k.e))
        if private:
            d.update(d=uint_b64(k.d), p=uint_b64(k.p), q=uint_b64(k.q))
    else:
        cv = CURVES[key[1]]
        d.update(kty="EC", crv=key[1], x=b64e(i2o(key[2][0], cv.bytes)),
                 y=b64e(i2o(key[2][1], cv.bytes)))
        if private:
            d.update(d=b64e(i2o(key[3], cv.bytes)))
    return d


THUMB = {"RSA": ["e", "kty", "n"], "oct": ["k", "kty"],
         "EC": ["crv", "kty", "x", "y"]}


def thumbprint(jwk, h):
    j = json.dumps({k: jwk[k] for k in THUMB[jwk["kty"]]}, sort_keys=True,
                   separators=(",", ":"))
    return HLIB[h[4:]](j.encode()).digest()


def selftest():
    # RFC 3394 4.1, 4.6
    assert kw_wrap(bytes(range(16)), bytes.fromhex(
        "00112233445566778899AABBCCDDEEFF")).hex() == \
        "1fa68b0a8112b447aef34bd8fb5a7b829d3e862371d2cfe5"
    assert kw_unwrap(bytes(range(32)), bytes.fromhex(
        "28C9F404C4B810F4CBCCB35CFB87F8263F5786E2D80ED326"
        "CBC7F0E71A99F43BFB988B9B7A02DD21")).hex() == \
        "00112233445566778899aabbccddeeff000102030405060708090a0b0c0d0e0f"
    # RFC 7515 A.1
    k = b64d("AyM1SysPpbyDfgZld3umj1qzKObwVMkoqQ-EstJQLr_T-1qS0gZH75"
             "aKtMN3Yj0iPS4hcgUuTwjAzZr1Z9CAow")
    t = ("eyJ0eXAiOiJKV1QiLA0KICJhbGciOiJIUzI1NiJ9.eyJpc3MiOiJqb2UiLA0KICJle"
         "HAiOjEzMDA4MTkzODAsDQogImh0dHA6Ly9leGFtcGxlLmNvbS9pc19yb290Ijp0cnV"
         "lfQ.dBjftJeZ4CVP-mB92K27uhbUJU1p1r_wW1gFWFOEjXk")
    assert jws_open(t, ("oct", k), "HS256")[0]["typ"] == "JWT"
    # RFC 7515 A.3
    x = o2i(b64d("f83OJ3D2xF1Bg8vub9tLe1gHMzV76e8Tus9uPHvRVEU"))
    y = o2i(b64d("x_FEzRu9m36HLN_tue659LNpXW6pCyStikYjKIWI5a0"))
    d = o2i(b64d("jpsQnnGQmL-YBIffH1136cspYG6-0iY7X1fCE9-E9LI"))
    assert CURVES["P-256"].pub(d) == (x, y)
    assert CURVES["P-256"].mul_slow(CURVES["P-256"].g, d) == (x, y)
    t = ("eyJhbGciOiJFUzI1NiJ9.eyJpc3MiOiJqb2UiLA0KICJleHAiOjEzMDA4MTkzODAsDQ"
         "ogImh0dHA6Ly9leGFtcGxlLmNvbS9pc19yb290Ijp0cnVlfQ.DtEhU3ljbEg8L38VWA"
         "fUAqOyKAM6-Xx-F4GawxaepmXFCgfTjDxw5djxLa8ISlSApmWQxfKTUJqPP3-Kg6NU1Q")
    jws_open(t, ("EC", "P-256", (x, y), None), "ES256")
    # RFC 7518 C
    cv = CURVES["P-256"]
    a = o2i(b64d("0_NxaRPUMQoAJt50Gz8YiTr8gRTwyEaCumd-MToTmIo"))
    bx = o2i(b64d("weNJy2HscCSM6AEDTDg04biOvhFhyyWvOHQfeF_PxMQ"))
    by = o2i(b64d("e8lnCO-AlStT-NJVX-crhB7QRYhiix03illJOVAOyck"))
    z = ecdh_z("P-256", a, (bx, by))
    assert b64e(concat_kdf(z, b"A128GCM", b"Alice", b"Bob", 128)) == \
        "VqqN6vgjbSBcIijNcacQGg"
    # RFC 7518 B.1
    key = bytes(range(32))
    pt = bytes.fromhex(
        "41206369706865722073797374656d206d757374206e6f742062652072657175697265"
        "6420746f206265207365637265742c20616e64206974206d7573742062652061626c65"
        "20746f2066616c6c20696e746f207468652068616e6473206f662074686520656e656d"
        "7920776974686f757420696e636f6e76656e69656e6365")
    iv = bytes.fromhex("1af38c2dc2b96ffdd86694092341bc04")
    aad = bytes.fromhex(
        "546865207365636f6e64207072696e6369706c65206f66204175677573746520"
        "4b6572636b686f666673")
    ct, tag = cbc_hs_encrypt("A128CBC-HS256", key, iv, aad, pt)
    assert tag.hex() == "652c3fa36b0a7c5b3219fab3a30bc1c4"
    assert ct[:16].hex() == "c80edfa32ddf39d5ef00c0b468834279"
    assert cbc_hs_decrypt("A128CBC-HS256", key, iv, aad, ct, tag) == pt
    # RFC 7638 3.1
    n = ("0vx7agoebGcQSuuPiLJXZptN9nndrQmbXEps2aiAFbWhM78LhWx4cbbfAAtVT86zwu1"
         "RK7aPFFxuhDR1L6tSoc_BJECPebWKRXjBZCiFV4n3oknjhMstn64tZ_2W-5JsGY4Hc5"
         "n9yBXArwl93lqt7_RN5w6Cf0h4QyQ5v-65YGjQR0_FDW2QvzqY368QQMicAtaSqzs8KJ"
         "ZgnYb9c7d0zgdAZHzu6qMQvRL5hajrn1n91CbOpbISD08qNLyrdkt-bFTWhAI4vMQFh6"
         "WeZu0fM4lFd2NcRwr3XPksINHaQ-G_xBniIqbw0Ls1jF44-csFCur-kEgU8awapJzKnqD"
         "Kgw")
    assert b64e(thumbprint({"kty": "RSA", "n": n, "e": "AQAB"}, "SHA-256")) \
        == "NzbLsXh8uDCcd-6MNwXF4W_7noWXFZAfHkxZsRGC9Xs"
    # base64url RFC 4648 / RFC 7515 C
    assert b64e(bytes([3, 236, 255, 224, 193])) == "A-z_4ME"
    assert b64d("A-z_4ME") == bytes([3, 236, 255, 224, 193])
    for b in range(70):
        s = bytes((7 * i + b) % 256 for i in range(b))
        assert b64e(s) == base64.urlsafe_b64encode(s).rstrip(b"=").decode()
        assert b64d(b64e(s)) == s
    for cv in CURVES.values():
        assert cv.on_curve(cv.g) and cv.mul_slow(cv.g, cv.n) is None
    return True


if __name__ == "__main__":
    print(selftest())
