"""C01: JWS compact sign/verify round trip and RFC 7515/7518 conformance."""
import json

from mc.core import Scope, check
from mc import ref, special, keys as K
from mc.jose import *

PAYLOADS = [
    "", "a", "hello world", u"\u00e5\u4e2d\U0001f600 \u00e9",
    "123", "null", '{"iss":"joe", "exp":1300819380}', "{broken", "a.b.c",
    b"", b"bytes", b"\x00\xff\xfe\x80", b"\xff" * 33, "x" * 4097,
    {"iss": "joe", "exp": 1300819380, "http://example.com/is_root": True},
    {"n": {"l": [1, "two", None, {"x": u"\u00e5"}], "f": 1.5}}, {}, [],
    ["a", 1], {"big": 2 ** 70},
]


def verify_both(tok, alg, mat, vkey, octets, kid=None, typ=None, extra=None):
    from jwkest.jws import JWS
    hdr, po = ref.jws_open(tok, mat, alg)
    check(po == octets, "payload octets in the token: %r" % po)
    check(hdr.get("alg") == alg, "alg header %r" % hdr)
    check(hdr.get("kid") == kid, "kid header %r, key has %r" % (hdr, kid))
    check(hdr.get("typ") == typ, "typ header %r" % hdr)
    for k, v in (extra or {}).items():
        check(hdr.get(k) == v, "protected header %r lost: %r" % (k, hdr))
    want = payload_value(octets)
    j = JWS()
    got = j.verify_compact(tok, [vkey])
    check(same(got, want), "verify returned %r, expected %r" % (got, want))
    check(same(j.msg, want), "JWS.msg %r" % (j.msg,))
    info = JWS().verify_compact_verbose(tok.encode(), [vkey])
    check(same(info["msg"], want) and info["key"] is vkey,
          "verify_compact_verbose %r" % (info,))


def forms(c):
    from jwkest.jws import JWS
    alg = c.choose("alg", SIG_ALGS)
    kt = ktype(alg)
    pf = c.choose("signing key form", K.PRIV_FORMS[kt])
    vf = c.choose("verification key form", K.PUB_FORMS[kt])
    kid = c.choose("kid", [None, "k1"])
    name = keyname(alg)
    ex = {"kid": kid} if kid else {}
    sk = K.build(name, pf, True, **ex)
    vk = K.build(name, vf, False, **ex)
    msg = {"sub": "x", "n": 1}
    tok = JWS(msg, alg=alg).sign_compact([sk])
    verify_both(tok, alg, K.MAT[name], vk, payload_octets(msg), kid)
    c.note(tok[:60])
    c.done(kt)


def payloads(c):
    from jwkest.jws import JWS
    msg = c.choose("payload", PAYLOADS)
    alg = c.choose("alg", SIG_ALGS)
    hd = c.choose("headers", ["none", "typ", "protected", "key alg"])
    name = keyname(alg)
    kt = ktype(alg)
    sk = K.build(name, "keyrep", True)
    vk = K.build(name, "keyrep", False)
    typ = extra = None
    kw = {"alg": alg}
    prot = None
    if hd == "typ":
        typ = kw["typ"] = "JWT"
    elif hd == "protected":
        extra = {"b64u": u"\u00e5", "n": 7, "deep": {"a": [1]}}
        prot = json.loads(json.dumps(extra))
    elif hd == "key alg":       # the algorithm comes from the only key
        kw = {}
        sk = K.build(name, "keyrep", True, alg=alg)
        vk = K.build(name, "keyrep", False, alg=alg)
    tok = JWS(msg, **kw).sign_compact([sk], protected=prot)
    verify_both(tok, alg, K.MAT[name], vk, payload_octets(msg), None, typ,
                extra)
    c.note((repr(msg)[:40], tok[:60]))
    c.done(type(msg).__name__)


def lengths(c):
    from jwkest.jws import JWS
    alg = c.choose("alg", ["HS256", "HS384", "HS512", "ES256"])
    n = c.choose("payload length", range(0, 200 if alg[0] == "H" else 68))
    name = keyname(alg)
    fill = c.choose("content", ["varied"] + (["\n", " ", "=", "\0", "\t", "\r\n"]
                                             if alg == "HS256" else []))
    msg = bytes((i * 131 + n) & 255 for i in range(n)) \
        if fill == "varied" else (fill * n)[:n].encode()
    tok = JWS(msg, alg=alg).sign_compact([K.build(name, "keyrep")])
    verify_both(tok, alg, K.MAT[name], K.build(name, "keyrep", False), msg)
    c.done("length")


def hmac_keys(c):
    from jwkest.jws import JWS
    from jwkest.jwk import SYMKey
    alg = c.choose("alg", HS)
    n = c.choose("key length", range(1, 161))
    fill = c.choose("fill", ["mixed", "zeros first", "zeros last", "ff"])
    k = {"mixed": K.oct_(n, n)[1], "zeros first": b"\0" * n + b"k",
         "zeros last": b"k" + b"\0" * n, "ff": b"\xff" * n}[fill]
    msg = "m%d" % n
    key = SYMKey(key=k)
    tok = JWS(msg, alg=alg).sign_compact([key])
    verify_both(tok, alg, ("oct", k), SYMKey(k=ref.b64e(k)),
                payload_octets(msg))
    c.done("hmac")


HEADERS = [
    '{"alg":"%s"}', '{"typ":"JWT",\r\n "alg":"%s"}', ' {"alg":"%s"} ',
    '{"alg":"%s","cty":"JWT"}', '{"alg":"%s","x":{"y":[1,null,"\\u00e5"]}}',
    '{"alg":"%s","kid":""}', '{"\\u0061lg":"%s"}',
    u'{"\u00e5":"\u4e2d","alg":"%s"}', '{"alg":"%s","zip":"DEF","enc":"x"}',
]


def interop(c):
    """tokens of another implementation are accepted"""
    from jwkest.jws import JWS
    alg = c.choose("alg", SIG_ALGS)
    h = c.choose("header text", HEADERS)
    body = c.choose("payload", [b"", b"text", b'{"a": 1 ,\r\n"b":[2]}',
                                b"\xff\x00\xfe", b"[]", b"0"])
    as_bytes = c.flag("token as bytes")
    name = keyname(alg)
    tok = ref.jws_make((h % alg).encode("utf-8"), body, K.MAT[name], alg=alg)
    vk = K.build(name, "keyrep", False)
    got = JWS().verify_compact(tok.encode() if as_bytes else tok, [vk])
    check(same(got, payload_value(body)), "got %r" % (got,))
    c.note(tok[:60])
    c.done("accepted")


def ec_keys(c):
    """EC keys with short coordinates, nonces the environment may hand out"""
    from jwkest.jws import JWS
    from mc.rng import RNG
    alg = c.choose("alg", ES)
    crv = ref.ES[alg][0]
    cv = ref.CURVES[crv]
    d = c.choose("private key", ["zero in x", "zero in y", 1, 2, "n-1",
                                 "small", "generated"])
    rnd = c.choose("random octets", ["stream", "zeros", "ones", "alternating",
                                     "leading zeros"])
    if rnd == "zeros":
        first = [True]

        def script(n):
            if first:
                first.pop()
                return b"\0" * n
    elif rnd == "ones":
        ones = [1] * 2

        def script(n):
            if ones:
                ones.pop()
                return b"\xff" * n
    elif rnd == "alternating":
        tick = [0]

        def script(n):
            tick[0] += 1
            return (b"\xaa" if tick[0] % 2 else b"\x55") * n
    elif rnd == "leading zeros":
        def script(n):
            return b"\0" * (n - 3) + b"\x01\x02\x03"
    else:
        script = None
    from jwkest.jwk import ECKey
    from jwkest.ecc import NISTEllipticCurve
    RNG.script = script
    if d == "generated":
        sk = ECKey().load_key(NISTEllipticCurve.by_name(crv))
        mat = ("EC", crv, (sk.x, sk.y), sk.d)
        check(cv.pub(sk.d) == (sk.x, sk.y), "generated key pair mismatch")
        vk = ECKey(crv=crv, x=sk.x, y=sk.y)
    else:
        if isinstance(d, str) and d.startswith("zero"):
            mat = K.MAT[(K.ZX if d[-1] == "x" else K.ZY)[crv]]
        else:
            dd = {"n-1": cv.n - 1, "small": 0xdeadbeef}.get(d, d)
            mat = ("EC", crv, cv.pub(dd), dd)
        from jwkest.jwk import keyrep
        sk = keyrep(ref.jwk_of(mat, True))
        vk = keyrep(ref.jwk_of(mat, False))
    tok = JWS("msg", alg=alg).sign_compact([sk])
    RNG.script = None
    verify_both(tok, alg, mat, vk, b"msg")
    c.done(rnd)


def ec_values(c):
    """signatures whose r or s has any number of leading zero octets"""
    from jwkest.jws import JWS
    from jwkest.jwk import keyrep
    from mc.rng import RNG
    alg = c.choose("alg", ES)
    crv, bits = ref.ES[alg]
    cv = ref.CURVES[crv]
    kind = c.choose("kind", ["sign: s", "sign: r", "accept: s", "accept: r"])
    si = ref.b64e(ref.enc_json({"alg": alg})) + "." + ref.b64e(b"msg")
    z = ref.hash_int(bits, si.encode(), cv.n)
    extra = None
    if kind == "accept: r":
        x = c.choose("x of R", [1] + [1 << (8 * i - 1) for i in
                                      range(1, cv.bytes)] +
                     [cv.n + 1, (cv.n + cv.p) // 2])
        m = special.key_for_r(crv, z, x, cv.n // 3)
        mat, extra = m[0], (m[1], cv.n // 3)
    elif kind == "sign: r":
        k = c.choose("nonce", special.SHORT_R[crv])
        mat = K.MAT[keyname(alg)]
    else:
        k = 0x1234567
        s = c.choose("s", [1, 2, cv.n - 1, cv.n // 2] + [
            (1 << (8 * i)) - 1 for i in range(1, cv.bytes)])
        mat = special.key_for_s(crv, z, k, s)
        if kind == "accept: s":
            extra = (cv.mul(cv.g, k)[0] % cv.n, s)
    vk = keyrep(ref.jwk_of(mat, False))
    if extra:
        tok = si + "." + ref.b64e(ref.i2o(extra[0], cv.bytes) +
                                  ref.i2o(extra[1], cv.bytes))
    else:
        RNG.script = special.script_nonce(crv, k)
        tok = JWS("msg", alg=alg).sign_compact([keyrep(ref.jwk_of(mat, True))])
        RNG.script = None
    verify_both(tok, alg, mat, vk, b"msg")
    c.done(kind)


def large(c):
    """payloads, header values and keys far beyond the usual sizes"""
    from jwkest.jws import JWS
    alg = c.choose("alg", ["HS256", "HS512", "RS256", "PS384", "ES256",
                           "ES512"])
    what = c.choose("what", ["octets", "text", "value", "header", "kid",
                             "HMAC key"])
    n = c.choose("size", HUGE)
    name = keyname(alg)
    mat = K.MAT[name]
    msg, kid, extra, ex = b"m", None, None, {}
    if what == "octets":
        msg = pattern(n)
    elif what == "text":
        msg = u"\u00e5\u4e2d" * (n // 5) + "z" * (n % 5)
    elif what == "value":
        msg = {"l": list(range(n // 8)), "t": "x" * (n // 2)}
    elif what == "header":
        if n > 65537:
            raise Prune()
        extra = {"h": ref.b64e(pattern(n)), "n": 2 ** 64}
    elif what == "kid":
        if n > 65537:
            raise Prune()
        kid = "k" * (n - 1) + "!"
        ex["kid"] = kid
    else:
        if alg[:2] != "HS" or n > 65537:
            raise Prune()
        mat = ("oct", pattern(n))
    if mat is K.MAT[name]:
        sk = K.build(name, "keyrep", True, **ex)
        vk = K.build(name, "keyrep", False, **ex)
    else:
        from jwkest.jwk import SYMKey
        sk, vk = SYMKey(key=mat[1]), SYMKey(k=ref.b64e(mat[1]))
    tok = JWS(msg, alg=alg).sign_compact([sk], protected=extra)
    verify_both(tok, alg, mat, vk, payload_octets(msg), kid, None, extra)
    # and made elsewhere
    hdr = dict(extra or {}, alg=alg)
    if kid:
        hdr["kid"] = kid
    got = JWS().verify_compact(ref.jws_make(hdr, payload_octets(msg), mat),
                               [vk])
    check(same(got, payload_value(payload_octets(msg))), "%s of %d: token "
          "made elsewhere is not accepted" % (what, n))
    c.done(what)


def rsa_keys(c):
    """moduli of any length, any exponent"""
    from jwkest.jws import JWS
    alg = c.choose("alg", RS + PS)
    name = c.choose("key", ["r0", "r1", "r3", "r4", "r5"])
    pf = c.choose("signing key form", K.PRIV_FORMS["RSA"])
    vf = c.choose("verification key form", ["object", "load_key", "jwk",
                                            "dumped", "copy"])
    mat = K.MAT[name]
    sk, vk = K.build(name, pf, True), K.build(name, vf, False)
    tok = JWS("m", alg=alg).sign_compact([sk])
    verify_both(tok, alg, mat, vk, b"m")
    got = attempt(JWS().verify_compact, ref.jws_make({"alg": alg}, b"m", mat),
                  [vk])
    check(got == "m", "token made elsewhere: %r" % (got,))
    c.done(name)


def scopes(tier):
    return [
        Scope("ec values", ec_values, 2, "r and s of every length in octets, "
              "R.x beyond the group order, 3 curves"),
        Scope("key forms", forms, 2,
              "12 algorithms x every way to make a signing and a verification "
              "key x with/without kid"),
        Scope("payloads", payloads, 2, "20 payloads x 12 algorithms x 4 "
              "header styles"),
        Scope("payload lengths", lengths, 1, "every length 0..199"),
        Scope("hmac key lengths", hmac_keys, 1, "every key length 1..160, 4 "
              "patterns"),
        Scope("interop", interop, 1, "9 header texts x 12 algorithms"),
        Scope("large", large, 2, "payloads (octets, text, values), headers, "
              "key ids and HMAC keys of 14 sizes up to 1 MiB"),
        Scope("rsa keys", rsa_keys, 2, "moduli of 1037, 2044, 2048 and 3072 "
              "bits, exponents 3, 17, 65537, x 6 algorithms x key forms"),
        Scope("ec keys and nonces", ec_keys, 2, "7 private keys x 5 RNG "
              "behaviours x 3 curves"),
    ]
