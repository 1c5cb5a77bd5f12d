"""C10: what was encrypted decrypts to the same octets."""
from mc.core import Scope, check, Prune
from mc.rng import RNG
from mc import ref, keys as K, jwe as J
from mc.jose import *

TEXTS = [b"", b"a", b"0123456789abcdef", bytes(range(33)), b"\x00" * 16,
         b"\x10" * 16, b"\xff\xfe\x00", u"text \u00e5\u4e2d".encode("utf-8"),
         b"A" * 300]


def rt(c, alg, enc, zip_, pt, ekeys, dkeys, how="decrypt", **kw):
    from jwkest import jwe
    from jwkest.jwe import JWE
    args = dict(alg=alg, enc=enc, **kw)
    if zip_:
        args["zip"] = "DEF"
    t = attempt(lambda: JWE(pt, **args).encrypt(ekeys))
    what = "%s %s zip=%s %d octets %s" % (alg, enc, zip_, len(pt), how)
    check(not raised(t), "%s: encrypt raises %r" % (what, t))
    if how == "factory":
        j = jwe.factory(t)
        check(j is not None, "%s: not taken for a JWE" % what)
        r = attempt(j.decrypt, None, dkeys)
    elif how == "bytes":
        r = attempt(JWE().decrypt, t.encode(), dkeys)
    elif how == "alg":
        r = attempt(JWE().decrypt, t, dkeys, alg)
    else:
        r = attempt(JWE().decrypt, t, dkeys)
    want = pt if isinstance(pt, bytes) else pt.encode("utf-8")
    check(isinstance(r, bytes) and r == want, "%s: decrypts to %r, not %r" % (
        what, r, want[:60]))
    c.done(enc)
    return t


def all_pairs(encs, texts, zips=(False, True)):
    def body(c):
        alg, name = c.choose("key management", J.KM)
        enc = c.choose("enc", encs)
        z = c.choose("zip", zips)
        pt = c.choose("plaintext", texts)
        how = c.choose("how", ["decrypt", "factory", "bytes", "alg"]) \
            if pt == b"" else "decrypt"
        rt(c, alg, enc, z, pt, [J.key(name, False)], [J.key(name)], how)
    return body


def lengths(encs, n, algs):
    def body(c):
        enc = c.choose("enc", encs)
        ln = c.choose("length", range(n))
        alg, name = c.choose("key management", algs)
        z = c.flag("zip")
        fill = c.choose("content", ["varied", "zeros", "padding-like", "newlines", "spaces"]
                        if enc in J.CBC else ["varied"])
        pt = {"varied": J.octs("pt", ln), "zeros": b"\0" * ln,
              "newlines": b"\n" * ln, "spaces": b" " * ln,
              "padding-like": bytes([ln % 16 + 1]) * ln}[fill]
        rt(c, alg, enc, z, pt, [J.key(name, False)], [J.key(name)])
    return body


def big(c):
    """longer plaintexts, around sizes where counters and buffers change"""
    enc = c.choose("enc", J.CBC + ["A128GCM"])
    ln = c.choose("length", [255, 256, 257, 511, 512, 4095, 4096, 4097, 65535,
                             65536, 65537, 70001, (1 << 20) + 1]
                  if enc != "A128GCM" else [255, 256, 257, 600, 4096, 4097,
                                            65535, 65536, 65553])
    z = c.flag("zip")
    fill = c.choose("content", ["varied", "zeros"])
    pt = J.octs("big", ln) if fill == "varied" else b"\0" * ln
    rt(c, "A128KW", enc, z, pt, [J.key("h0.16")], [J.key("h0.16")])


TYPES = [u"", u"text", u"\u00e5\u00e4\u00f6", u"\u4e2d\U0001f600",
         u'{"a": 1}', u"\x00", b"\xff", b"\x00\x01"]


def types(c):
    alg, name = c.choose("key management", J.KM_SMALL)
    enc = c.choose("enc", J.CBC)
    pt = c.choose("plaintext", TYPES)
    z = c.flag("zip")
    rt(c, alg, enc, z, pt, [J.key(name, False)], [J.key(name)])


FORM_ALGS = [("RSA-OAEP", "r1"), ("RSA1_5", "r1"), ("A128KW", "h1.16"),
             ("A256KW", "h2.20"), ("ECDH-ES", "p256.7"),
             ("ECDH-ES+A128KW", "p384.7"), ("ECDH-ES+A256KW", "p521.7")]


def forms(c):
    alg, name = c.choose("key management", FORM_ALGS)
    t = K.MAT[name][0]
    ef = c.choose("encrypt with", [("pub", f) for f in K.PUB_FORMS[t]] +
                  [("priv", f) for f in K.PRIV_FORMS[t]])
    df = c.choose("decrypt with", K.PRIV_FORMS[t])
    kid = c.choose("kid", ["", "k1"])
    ex = {"kid": kid} if kid else {}
    rt(c, alg, "A128CBC-HS256", False, b"forms",
       [K.build(name, ef[1], ef[0] == "priv", **ex)],
       [K.build(name, df, True, **ex)])


def symlen(c):
    """secrets of any length serve for key wrapping"""
    alg = c.choose("alg", ref.KW_ALGS)
    n = c.choose("secret length", range(1, 100))
    form = c.choose("form", K.PRIV_FORMS["oct"])
    f2 = c.choose("form 2", ["octets", "keyrep"])
    rt(c, alg, "A128CBC-HS256", False, b"s", [K.build("h4.%d" % n, form)],
       [K.build("h4.%d" % n, f2)])


def special_ec(c):
    """keys with a leading zero octet in a coordinate, all private values at
    the edges"""
    crv = c.choose("curve", J.CURVES)
    alg = c.choose("alg", ref.EC_ALGS)
    cv = ref.CURVES[crv]
    which = c.choose("key", ["zx", "zy", 1, 2, 3, -1, -2, 256, "mid"])
    if which == "zx":
        m = K.MAT[K.ZX[crv]]
    elif which == "zy":
        m = K.MAT[K.ZY[crv]]
    else:
        d = cv.n // 2 if which == "mid" else which % cv.n
        m = ("EC", crv, cv.pub(d), d)
    form = c.choose("form", ["ints", "keyrep"])
    from jwkest import jwk

    def k(private):
        if form == "keyrep":
            return jwk.keyrep(ref.jwk_of(m, private))
        return jwk.ECKey(crv=crv, x=m[2][0], y=m[2][1],
                         d=m[3] if private else "")
    rt(c, alg, "A128CBC-HS256", False, b"ec", [k(False)], [k(True)])


def short_z(c):
    """the shared secret has leading zeros: the random generator is driven to
    an ephemeral key that gives one"""
    crv = c.choose("curve", J.CURVES)
    alg = c.choose("alg", ["ECDH-ES", "ECDH-ES+A128KW"])
    what = c.choose("short", ["z", "epk x", "epk y"])
    nz = c.choose("leading zero octets", [1, 2])
    i, e = SHORT[crv, what, nz]
    cv = ref.CURVES[crv]
    from jwkest import jwk
    m = K.MAT[K.ecname(crv, i)]
    ephemeral = jwk.ECKey(crv=crv, x=cv.pub(e)[0], y=cv.pub(e)[1], d=e)
    from jwkest.jwe import JWE
    args = dict(alg=alg, enc="A128CBC-HS256")
    key = jwk.ECKey(crv=crv, x=m[2][0], y=m[2][1], d=m[3])
    t = attempt(lambda: JWE(b"short", epk=ephemeral, **args).encrypt([key]))
    if raised(t):
        # the epk argument is not a documented way; use the generator
        t = ref.jwe_make(args, b"short", m, bytes(range(32)), b"i" * 16,
                         epk_d=e)
    r = attempt(JWE().decrypt, t, [key])
    check(r == b"short", "%s %s short %s: %r" % (crv, alg, what, r))
    c.done(what)


SHORT = {}


def find_short():
    """ephemeral keys that give z (or coordinates) with leading zeros; walking
    along consecutive multiples costs one addition each"""
    if SHORT:
        return
    from Cryptodome.PublicKey import ECC
    for crv in J.CURVES:
        cv = ref.CURVES[crv]
        i = 3
        pub = K.MAT[K.ecname(crv, i)][2]
        for what, base in (("z", pub), ("epk x", cv.g), ("epk y", cv.g)):
            P = ECC.EccPoint(base[0], base[1], curve=crv)
            Q = P * 1000
            top = 8 * (cv.bytes - 1)
            want = {1, 2}
            k = 1000
            while want:
                v = int(Q.y) if what == "epk y" else int(Q.x)
                for nz in list(want):
                    if v >> 8 * (cv.bytes - nz) == 0:
                        SHORT[crv, what, nz] = (i, k)
                        want.discard(nz)
                if k > 3000000:
                    raise RuntimeError("none found")
                if want == {2} and k > 6000:
                    SHORT[crv, what, 2] = SHORT[crv, what, 1]
                    break
                Q += P
                k += 1


RNGS = {"zero": lambda n: b"\0" * n, "ff": lambda n: b"\xff" * n,
        "leading zeros": lambda n: b"\0\0" + b"\x5a" * (n - 2)
        if n > 2 else b"\x5a" * n,
        "high bit": lambda n: b"\x80" + b"\0" * (n - 1),
        "one": lambda n: b"\0" * (n - 1) + b"\x01"}


def rng(encs):
    def body(c):
        """every distinct kind of random number at the IV and CEK"""
        alg, name = c.choose("key management", [
            ("A128KW", "h0.16"), ("RSA-OAEP", "r0"), ("RSA1_5", "r0"),
            ("ECDH-ES", "p256.3"), ("ECDH-ES+A256KW", "p256.3")])
        enc = c.choose("enc", encs)
        kind = c.choose("random", sorted(RNGS))
        which = c.choose("for", ["cek", "iv", "both"])
        n = [0]
        sizes = {ref.CEKLEN[enc]: "cek", ref.IVLEN[enc]: "iv"}

        seen = set()

        def script(k):
            w = sizes.get(k)
            # just the first draw of each size: the CEK and the IV
            if w is None or (which != "both" and which != w) or w in seen:
                return None
            seen.add(w)
            n[0] += 1
            return RNGS[kind](k)
        RNG.script = script
        t = rt(c, alg, enc, False, b"random", [J.key(name, False)],
               [J.key(name)])
        RNG.script = None
    return body


HEADERS = [{"kid": "a"}, {"typ": "JWE"}, {"cty": "JWT"}, {"typ": "JWT",
           "cty": "text/plain"}, {"x5t": "abc"}, {"jku": "https://x/y"},
           {"apu": "QWxpY2U"}, {"apv": "Qm9i"}, {"apu": "QWxpY2U",
           "apv": "Qm9i"}, {"apu": b"QWxpY2U", "apv": u"Qm9i"},
           {"x5u": "https://x"}, {"x5c": ["MII"]},
           {"kid": u"\u00e5"}, {"kid": "a", "typ": "JOSE", "cty": "x",
                                "x5t": "q"}]


def headers(c):
    alg, name = c.choose("key management", J.KM_SMALL)
    h = c.choose("headers", HEADERS)
    z = c.flag("zip")
    enc = c.choose("enc", J.CBC)
    h = dict(h)
    if alg[0] != "E" and isinstance(h.get("apu"), bytes):
        raise Prune()
    if alg[0] == "R":
        h.pop("apv", None)
    ex = {"kid": h["kid"]} if "kid" in h else {}
    rt(c, alg, enc, z, b"headers", [J.key(name, False, **ex)],
       [J.key(name, **ex)], **h)


def cek(c):
    """the caller supplies CEK and IV; the CEK is used again"""
    from jwkest.jwe import JWE, JWE_RSA, JWE_SYM
    kind = c.choose("class", ["JWE KW", "JWE_SYM", "JWE_RSA reuse",
                              "decrypt with cek"])
    enc = c.choose("enc", J.CBC + ["A128GCM"])
    ck = c.choose("cek", ["varied", "leading zero"])
    cek = J.octs("cek", ref.CEKLEN[enc])
    if ck == "leading zero":
        cek = b"\0\0" + cek[2:]
    iv = c.choose("iv", ["given", "leading zero", "drawn"])
    ivv = {"given": J.octs("iv", ref.IVLEN[enc]),
           "leading zero": b"\0" + J.octs("iv", ref.IVLEN[enc] - 1),
           "drawn": ""}[iv]
    if kind == "JWE KW":
        k = [J.key("h0.16")]
        t = attempt(JWE(b"cek", alg="A128KW", enc=enc).encrypt, k, cek, ivv)
        r = attempt(JWE().decrypt, t, k)
    elif kind == "JWE_SYM":
        kek = J.octs("kek", 32)
        t = attempt(JWE_SYM(b"cek", alg="A256KW", enc=enc).encrypt, kek, ivv,
                    cek)
        r = attempt(JWE_SYM().decrypt, t, kek)
    elif kind == "JWE_RSA reuse":
        t = attempt(JWE_RSA(b"cek", alg="RSA-OAEP", enc=enc).encrypt, None,
                    ivv, cek)
        r = attempt(JWE_RSA().decrypt, t, None, cek)
    else:
        k = [J.key("h0.16")]
        t = attempt(JWE(b"cek", alg="A128KW", enc=enc).encrypt, k, cek, ivv)
        r = attempt(JWE().decrypt, t, None, None, cek)
    check(r == b"cek", "%s %s %s %s: %r %r" % (kind, enc, ck, iv, t, r))
    if ivv and not raised(t):
        check(ref.b64d(t.split(".")[2]) == ivv, "IV not used")
    c.done(kind)


def rsa_reuse(c):
    """encrypt, decrypt, encrypt with the same CEK, decrypt (class level)"""
    from jwkest.jwe import JWE_RSA
    alg = c.choose("alg", ref.RSA_ALGS)
    enc = c.choose("enc", J.CBC + ["A128GCM"])
    pt2 = c.choose("second", [b"", b"two" * 9])
    rk = K.MAT["r0"][1]
    a = JWE_RSA(b"one", alg=alg, enc=enc)
    t1 = a.encrypt(rk)
    d = JWE_RSA()
    check(attempt(d.decrypt, t1, rk) == b"one", "first")
    t2 = attempt(JWE_RSA(pt2, alg=alg, enc=enc).encrypt, None, "", d["cek"])
    r = attempt(JWE_RSA().decrypt, t2, None, a["cek"])
    check(r == pt2, "second: %r %r" % (t2, r))
    c.done(enc)


def classes(c):
    """the encrypters of the single families, used directly"""
    from jwkest.jwe import JWE, JWE_RSA, JWE_SYM, JWE_EC, JWEnc
    alg, name = c.choose("key management", J.KM)
    enc = c.choose("enc", J.CBC + ["A192GCM"])
    z = c.flag("zip")
    kid = c.choose("kid", [None, "k"])
    pt = c.choose("plaintext", [b"", b"class level"])
    args = dict(alg=alg, enc=enc)
    if z:
        args["zip"] = "DEF"
    key, pub = J.key(name), J.key(name, False)
    digest = False
    kw = {"kid": kid} if kid else {}
    if alg[0] == "R":
        digest = c.flag("with_digest")
        if kid:
            args["kid"] = kid
        form = c.choose("key", ["private", "public"])
        k = K.MAT[name][1]
        t = attempt(JWE_RSA(pt, with_digest=digest, **args).encrypt,
                    k if form == "private" else k.public_key())
    elif alg[0] == "A":
        form = c.choose("key", ["SYMKey", "octets"])
        kek = J.mat(alg, name)[1]
        from jwkest.jwk import SYMKey
        k = SYMKey(key=kek) if form == "SYMKey" else kek
        t = attempt(lambda: JWE_SYM(pt, **args).encrypt(k, **kw))
    else:
        def run():
            e = JWE_EC(pt, **args)
            cek, ek, iv, params, epk = e.enc_setup(pt, "", key=pub)
            check(bool(ek) == (alg != "ECDH-ES"), "encrypted key %r" % (ek,))
            return e.encrypt(key=pub, cek=cek, iv=iv, params=params,
                             encrypted_key=ek, **kw)
        t = attempt(run)
    what = "%s %s zip=%s digest=%s" % (alg, enc, z, digest)
    check(not raised(t), "%s: %r" % (what, t))
    h = attempt(lambda: JWEnc().unpack(t).headers)
    check(not raised(h) and h.get("kid") == kid and h["alg"] == alg and
          h["enc"] == enc, "%s: header %r" % (what, h))
    tok = c.choose("token", ["text", "JWEnc"])
    if tok == "JWEnc" or alg[0] == "E":
        t2 = JWEnc().unpack(t)
    else:
        t2 = t
    if alg[0] == "R":
        r = attempt(JWE_RSA(with_digest=digest).decrypt, t2, k if
                    form == "private" else K.MAT[name][1])
    elif alg[0] == "A":
        r = attempt(JWE_SYM().decrypt, t2, k)
    else:
        d = JWE_EC()
        r = attempt(d.dec_setup, t2, key=key)
        check(not raised(r), "%s: %r" % (what, r))
        r = attempt(d.decrypt, t2 if tok == "JWEnc" else t)
    check(isinstance(r, bytes) and r == pt, "%s: decrypts to %r" % (what, r))
    if not (digest and alg == "RSA1_5"):
        q = attempt(ref.jwe_open, t, J.mat(alg, name))
        check(not raised(q) and q[1] == pt, "%s: %r" % (what, q))
        ex = {"kid": kid} if kid else {}
        r = attempt(JWE().decrypt, t, [J.key(name, **ex)])
        check(r == pt, "%s: JWE decrypts to %r" % (what, r))
    else:
        r = attempt(JWE_RSA().decrypt, t, K.MAT[name][1])
        check(raised(r), "the digest is taken for a part of the CEK: %r" %
              (r,))
    c.done(enc)


def own_jwk(c):
    """the encrypter names its key itself: the token tells everybody the
    public half, nobody the private one"""
    import json
    from jwkest.jwe import JWE
    alg, name = c.choose("key management", [
        ("RSA1_5", "r0"), ("RSA-OAEP", "r0"), ("RSA-OAEP-256", "r1"),
        ("ECDH-ES", "p256.3"), ("ECDH-ES", "p521.3"),
        ("ECDH-ES+A128KW", "p384.3"), ("ECDH-ES+A256KW", "p256.3"),
        ("A128KW", "h0.16"), ("A256KW", "h0.32")])
    enc = c.choose("enc", ["A128CBC-HS256", "A256CBC-HS512"])
    form = c.choose("jwk", ["dict", "text", "key"])
    half = c.choose("half", ["public", "private"])
    keys = c.choose("keys", ["none", "empty", "the same"])
    kid = c.flag("kid")
    z = c.flag("zip")
    mat = K.MAT[name]
    ex = {"kid": "k"} if kid else {}
    spec = ref.jwk_of(mat, private=half == "private")
    spec.update(ex)
    jwk = spec if form == "dict" else json.dumps(spec) if form == "text" \
        else K.build(name, "keyrep", half == "private", **ex)
    kw = dict(alg=alg, enc=enc, jwk=jwk)
    if z:
        kw["zip"] = "DEF"
    arg = {"none": None, "empty": [],
           "the same": [J.key(name, False, **ex)]}[keys]
    t = attempt(lambda: JWE(b"own", **kw).encrypt(arg))
    what = "%s, own jwk %s (%s), keys %s" % (alg, form, half, keys)
    if mat[0] == "oct":
        # nobody may be told the secret
        if not raised(t):
            h = json.loads(ref.b64d(t.split(".")[0]))
            check("jwk" not in h, "%s: the secret is in the token: %r" % (
                what, h))
            got = attempt(ref.jwe_open, t, J.mat(alg, name))
            check(not raised(got) and got[1] == b"own", what)
        return c.done("secret")
    check(not raised(t), "%s: %r" % (what, t))
    h, pt = ref.jwe_open(t, mat)[:2]
    check(pt == b"own", what)
    check(h.get("jwk") == dict(ref.jwk_of(K.pub(mat)), **ex),
          "%s: the token says %r" % (what, h.get("jwk")))
    r = attempt(JWE().decrypt, t, [J.key(name, **ex)])
    check(r == b"own", "%s: %r" % (what, r))
    sec = dict(ref.jwk_of(mat, private=True), **ex)
    for own in (sec, json.dumps(sec), K.build(name, "keyrep", True, **ex)):
        r = attempt(lambda: JWE(jwk=own).decrypt(t))
        check(r == b"own", "%s, own jwk to decrypt: %r" % (what, r))
    c.done("told")


def scopes(tier):
    th = tier == "thorough"
    return [
        Scope("CBC pairs", all_pairs(J.CBC, TEXTS), 1,
              "18 key managements x 3 enc x zip x 9 plaintexts x decrypt "
              "forms"),
        Scope("GCM pairs", all_pairs(J.GCM, TEXTS if th else [TEXTS[3]],
                                     (False, True) if th else (True,)), 2,
              "18 key managements x 3 enc (x zip x plaintexts when thorough)"),
        Scope("CBC lengths", lengths(J.CBC, 600 if th else 150, [
            ("A128KW", "h0.16")]), 2,
            "all lengths below 150/600 x zip x 3 contents"),
        Scope("GCM lengths", lengths(["A128GCM"] if not th else J.GCM,
                                     140 if th else 36, [
            ("A128KW", "h0.16")]), 2, "all lengths below 36/140 x zip"),
        Scope("big", big, 3, "lengths around 2^8, 2^9, 2^12, 2^16, 2^20"),
        Scope("types", types, 1, "text and octets"),
        Scope("key forms", forms, 2, "all public/private forms x private "
              "forms x 7 key managements"),
        Scope("secrets", symlen, 2, "secret lengths 1..99 x forms"),
        Scope("EC keys", special_ec, 2, "9 keys x 4 algs x 3 curves"),
        Scope("short values", short_z, 2, "leading zeros in z and epk",
              init=find_short),
        Scope("random", rng(J.CBC), 2, "5 kinds of random numbers"),
        Scope("random GCM", rng(J.GCM if th else ["A256GCM"]), 3,
              "5 kinds of random numbers"),
        Scope("headers", headers, 2, "14 header sets"),
        Scope("cek", cek, 3, "caller's CEK and IV"),
        Scope("RSA cek reuse", rsa_reuse, 2, "CEK used again"),
        Scope("classes", classes, 2, "JWE_RSA (with and without digest), "
              "JWE_SYM, JWE_EC: 18 key managements x 4 enc x zip x kid x "
              "plaintexts"),
        Scope("own jwk", own_jwk, 2, "9 key managements x 2 enc x 3 forms of "
              "the encrypter's own key x halves x keys x kid x zip"),
    ]
