"""C13: JWE conforms to RFC 7516/7518 in both directions."""
import json

from mc.core import Scope, check, Prune
from mc.rng import RNG
from mc import ref, keys as K, jwe as J
from mc.jose import *

TEXTS = [b"", b"x", bytes(range(40)), b"\x00" * 32, b"A" * 300]
EXTRA = [{}, {"kid": "k"}, {"typ": "JWE", "cty": "text/plain"},
         {"apu": "QWxpY2U", "apv": "Qm9i"}, {"apu": "QWxpY2U"},
         {"apv": "Qm9i"}, {"x5t": "abc"}]


def out(c, alg, name, enc, z, pt, extra, ekeys=None):
    """library -> reference"""
    from jwkest.jwe import JWE
    args = dict(extra, alg=alg, enc=enc)
    if z:
        args["zip"] = "DEF"
    if ekeys is None:
        ex = {"kid": extra["kid"]} if "kid" in extra else {}
        ekeys = [J.key(name, False, **ex)]
    what = "%s %s zip=%s %r" % (alg, enc, z, extra)
    t = attempt(lambda: JWE(pt, **args).encrypt(ekeys))
    check(not raised(t), "%s: %r" % (what, t))
    check(isinstance(t, (str, bytes)), "%s: %r" % (what, type(t)))
    r = attempt(ref.jwe_open, t, J.mat(alg, name))
    check(not raised(r), "%s: not a valid JWE: %r" % (what, r))
    hdr, got, cek, iv = r
    check(got == pt, "%s: decrypts to %r, not %r" % (what, got, pt))
    ps = t.split(".") if isinstance(t, str) else t.decode().split(".")
    check(len(cek) == ref.CEKLEN[enc] and len(iv) == ref.IVLEN[enc],
          "%s: CEK %d IV %d octets" % (what, len(cek), len(iv)))
    check(len(ref.b64d(ps[4])) == (16 if "GCM" in enc else
                                   ref.CEKLEN[enc] // 2), what + ": tag")
    for k, v in args.items():
        if k in ("apu", "apv") and alg[0] != "E":
            continue        # have no meaning there
        check(hdr.get(k) == v, "%s: header %s is %r" % (what, k, hdr.get(k)))
    if alg[0] == "E":
        e = hdr["epk"]
        n = ref.CURVES[e["crv"]].bytes
        check("d" not in e, what + ": private part of epk in the token")
        check(e["kty"] == "EC" and len(ref.b64d(e["x"])) == n and
              len(ref.b64d(e["y"])) == n, "%s: epk %r" % (what, e))
        check((ps[1] == "") == (alg == "ECDH-ES"), what + ": encrypted key")
    return t


def outgoing(encs, texts, extras):
    def body(c):
        alg, name = c.choose("key management", J.KM)
        enc = c.choose("enc", encs)
        z = c.flag("zip")
        pt = c.choose("plaintext", texts)
        extra = c.choose("headers", extras)
        out(c, alg, name, enc, z, pt, extra)
        c.done(enc)
    return body


def out_forms(c):
    alg, name = c.choose("key management", [
        ("RSA-OAEP", "r1"), ("RSA-OAEP-256", "r1"), ("RSA1_5", "r1"),
        ("A128KW", "h1.16"), ("ECDH-ES", "p256.7"),
        ("ECDH-ES+A128KW", "p384.7"), ("ECDH-ES+A256KW", "p521.7"),
        ("ECDH-ES", K.ZX["P-256"]), ("ECDH-ES", K.ZY["P-384"]),
        ("ECDH-ES", K.ZX["P-521"])])
    f = c.choose("form", K.PUB_FORMS[K.MAT[name][0]])
    enc = c.choose("enc", J.CBC)
    out(c, alg, name, enc, False, b"forms", {}, [K.build(name, f, False)])
    c.done(alg)


def out_secrets(c):
    alg = c.choose("alg", ref.KW_ALGS)
    n = c.choose("secret length", range(1, 130))
    out(c, alg, "h5.%d" % n, "A128CBC-HS256", False, b"s", {})
    c.done(alg)


def out_lengths(encs, n):
    def body(c):
        enc = c.choose("enc", encs)
        ln = c.choose("length", range(n))
        z = c.flag("zip")
        out(c, "A128KW", "h0.16", enc, z, J.octs("pt", ln), {})
        c.done(enc)
    return body


def out_ephemeral(c):
    """the ephemeral key and the shared secret have leading zeros"""
    from jwkest import jwk
    crv = c.choose("curve", J.CURVES)
    alg = c.choose("alg", ref.EC_ALGS)
    what = c.choose("short", ["z", "epk x", "epk y"])
    nz = c.choose("zero octets", [1, 2])
    from mc.checks.c10 import SHORT
    i, e = SHORT[crv, what, nz]
    cv = ref.CURVES[crv]
    P = cv.pub(e)
    name = K.ecname(crv, i)
    from jwkest.jwe import JWE
    t = attempt(lambda: JWE(
        b"short", alg=alg, enc="A128CBC-HS256",
        epk=jwk.ECKey(crv=crv, x=P[0], y=P[1], d=e)).encrypt(
            [J.key(name, False)]))
    check(not raised(t), "%r" % (t,))
    r = attempt(ref.jwe_open, t, J.mat(alg, name))
    check(not raised(r) and r[1] == b"short",
          "%s %s short %s: %r" % (crv, alg, what, r))
    n = cv.bytes
    ep = r[0]["epk"]
    check((ep["x"], ep["y"]) == (ref.b64e(ref.i2o(P[0], n)),
                                 ref.b64e(ref.i2o(P[1], n))), "epk %r" % ep)
    c.done(what)


def find():
    from mc.checks import c10
    c10.find_short()


# --- reference -> library ----------------------------------------------------------

HDR = {
    "plain": {}, "kid": {"kid": "k"}, "typ": {"typ": "JWE"},
    "typ JOSE": {"typ": "JOSE"}, "cty": {"cty": "JWT"},
    "private header": {"http://example.com/x": {"a": [1, None]}},
    "unknown": {"foo": "bar", "iss": "me"}, "x5t": {"x5t": "abcd"},
    "x5t#S256": {"x5t#S256": "abcd"}, "x5c": {"x5c": ["MIIB"]},
    "jku": {"jku": "https://127.0.0.1:1/k"},
    "x5u": {"x5u": "https://127.0.0.1:1/k"},
    "unicode": {"x": u"\u00e5\u4e2d\U0001f600"},
    "jwk": {"jwk": {"kty": "oct", "k": "AAAA"}},
    "empty apu": {"apu": "", "apv": ""},
}


def incoming(encs, hdrs, texts, ceks=("varied",)):
    def body(c):
        from jwkest import jwe
        from jwkest.jwe import JWE
        alg, name = c.choose("key management", J.KM)
        enc = c.choose("enc", encs)
        hn = c.choose("headers", hdrs)
        z = c.flag("zip")
        pt = c.choose("plaintext", texts)
        ck = c.choose("cek", ceks)
        order = c.choose("order", ["alg first", "alg last"]) \
            if len(hdrs) > 2 else "alg first"
        cek = J.octs("cek", ref.CEKLEN[enc])
        iv = J.octs("iv", ref.IVLEN[enc])
        if ck == "zeros":
            cek = b"\0\0\0" + cek[3:]
            iv = b"\0\0" + iv[2:]
        elif ck == "all zero":
            cek, iv = bytes(len(cek)), bytes(len(iv))
        elif ck == "ff":
            cek, iv = b"\xff" * len(cek), b"\xff" * len(iv)
        base = {"alg": alg, "enc": enc}
        if z:
            base["zip"] = "DEF"
        hdr = dict(base, **HDR[hn]) if order == "alg first" else dict(
            HDR[hn], **base)
        tok = ref.jwe_make(hdr, pt, J.mat(alg, name), cek, iv,
                           epk_d=12345678901234567890123)
        ex = {"kid": "k"} if hn == "kid" else {}
        key = J.key(name, True, **ex)
        r = attempt(JWE().decrypt, tok, [key])
        check(isinstance(r, bytes) and r == pt,
              "%s %s %s zip=%s: %r, not %r" % (alg, enc, hn, z, r, pt))
        if enc in J.CBC and (hn == "plain" or order == "alg last"):
            j = jwe.factory(tok)
            check(j is not None, "factory: not a JWE")
            r = attempt(j.decrypt, None, [key])
            check(r == pt, "factory: %r" % (r,))
        c.done(enc)
    return body


def party(c):
    """PartyUInfo and PartyVInfo of any length"""
    alg, name = c.choose("alg", [(a, K.ecname(v, 3)) for a in ref.EC_ALGS
                                 for v in J.CURVES])
    u = c.choose("apu", [None, 0, 1, 2, 3, 16, 32, 33, 255, 300])
    v = c.choose("apv", [None, 0, 1, 3, 32, 300])
    direction = c.choose("direction", ["in", "out"])
    enc = "A128CBC-HS256"
    if alg == "ECDH-ES":
        enc = c.choose("enc", J.CBC)
    from jwkest.jwe import JWE
    h = {}
    if u is not None:
        h["apu"] = ref.b64e(J.octs("u", u))
    if v is not None:
        h["apv"] = ref.b64e(J.octs("v", v))
    if direction == "in":
        tok = ref.jwe_make(dict(h, alg=alg, enc=enc), b"party",
                           J.mat(alg, name), J.octs("c", ref.CEKLEN[enc]),
                           b"i" * 16, epk_d=987654321)
        r = attempt(JWE().decrypt, tok, [J.key(name)])
        check(r == b"party", "%s apu %s apv %s: %r" % (alg, u, v, r))
    else:
        if u == 0 or v == 0:
            raise Prune()       # an empty header parameter isn't one
        out(c, alg, name, enc, False, b"party", h)
    c.done(direction)


def party_octets(c):
    """PartyUInfo and PartyVInfo are octets, whatever they are"""
    alg, name = c.choose("alg", [("ECDH-ES", "p256.3"),
                                 ("ECDH-ES+A128KW", "p256.3"),
                                 ("ECDH-ES+A256KW", "p384.3")])
    n = c.choose("length", [1, 2, 15, 16, 17, 31, 33, 64])
    edge = c.choose("octet", [0, 1, 0x0a, 0x20, 0x2e, 0x3d, 0x41, 0xff])
    where = c.choose("where", ["first", "last", "two last", "all"])
    who = c.choose("member", ["apu", "apv", "both"])
    b = bytearray(J.octs("w", n))
    if where == "all":
        b[:] = bytes([edge]) * n
    elif where == "first":
        b[0] = edge
    else:
        b[-1] = edge
        if where == "two last":
            b[-2:] = bytes([edge]) * len(b[-2:])
    b = bytes(b)
    h = {}
    if who != "apv":
        h["apu"] = ref.b64e(b)
    if who != "apu":
        h["apv"] = ref.b64e(b)
    direction = c.choose("direction", ["in", "out"])
    from jwkest.jwe import JWE
    if direction == "in":
        tok = ref.jwe_make(dict(h, alg=alg, enc="A128CBC-HS256"), b"party",
                           J.mat(alg, name), J.octs("c", 32), b"i" * 16,
                           epk_d=987654321)
        r = attempt(JWE().decrypt, tok, [J.key(name)])
        check(r == b"party", "%s %s %r: %r" % (alg, who, b, r))
    else:
        out(c, alg, name, "A128CBC-HS256", False, b"party", h)
    c.done(direction)


def epk(c):
    """legal forms of the epk header"""
    from jwkest.jwe import JWE
    alg, crv = c.choose("alg", [(a, v) for a in ref.EC_ALGS
                                for v in J.CURVES])
    extra = c.choose("members", [{}, {"kid": "e"}, {"use": "enc"},
                                 {"alg": alg}, {"foo": "bar"},
                                 {"key_ops": ["deriveKey"]},
                                 {"kid": "e", "use": "enc"}])
    d = c.choose("ephemeral", ["ordinary", 1, 2, "zx", "zy"])
    order = c.choose("order", ["first", "last"])
    cv = ref.CURVES[crv]
    dd = {"ordinary": 4242424242, 1: 1, 2: 2, "zx": K.MAT[K.ZX[crv]][3],
          "zy": K.MAT[K.ZY[crv]][3]}[d]
    P = cv.pub(dd)
    e = {"kty": "EC", "crv": crv, "x": ref.b64e(ref.i2o(P[0], cv.bytes)),
         "y": ref.b64e(ref.i2o(P[1], cv.bytes))}
    e = dict(extra, **e) if order == "first" else dict(e, **extra)
    name = K.ecname(crv, 3)
    tok = ref.jwe_make({"alg": alg, "enc": "A128CBC-HS256", "epk": e}, b"epk",
                       J.mat(alg, name), J.octs("c", 32), b"i" * 16, epk_d=dd)
    r = attempt(JWE().decrypt, tok, [J.key(name)])
    check(r == b"epk", "%s %s epk %r: %r" % (alg, crv, e, r))
    c.done(alg)


def in_lengths(encs, n):
    def body(c):
        from jwkest.jwe import JWE
        enc = c.choose("enc", encs)
        ln = c.choose("length", range(n))
        z = c.flag("zip")
        pt = J.octs("p", ln)
        h = {"alg": "A128KW", "enc": enc}
        if z:
            h["zip"] = "DEF"
        tok = ref.jwe_make(h, pt, J.mat("A128KW", "h0.16"),
                           J.octs("c", ref.CEKLEN[enc]),
                           J.octs("i", ref.IVLEN[enc]))
        r = attempt(JWE().decrypt, tok, [J.key("h0.16")])
        check(r == pt, "%s %d octets zip=%s: %r" % (enc, ln, z, r))
        c.done(enc)
    return body


def large(c):
    """long plaintexts, both directions"""
    from jwkest.jwe import JWE
    enc = c.choose("enc", J.CBC + ["A128GCM"])
    n = c.choose("length", HUGE if enc in J.CBC else [257, 4097, 65537])
    z = c.flag("zip")
    fill = c.choose("content", ["varied", "zeros", "repeated"])
    pt = {"varied": pattern(n), "zeros": bytes(n),
          "repeated": (b"repeated text." * n)[:n]}[fill]
    if c.choose("direction", ["out", "in"]) == "out":
        out(c, "A128KW", "h0.16", enc, z, pt, {})
        return c.done("out")
    h = {"alg": "A128KW", "enc": enc}
    if z:
        h["zip"] = "DEF"
    tok = ref.jwe_make(h, pt, J.mat("A128KW", "h0.16"),
                       J.octs("c", ref.CEKLEN[enc]),
                       J.octs("i", ref.IVLEN[enc]))
    r = attempt(JWE().decrypt, tok, [J.key("h0.16")])
    check(r == pt, "%s, %d octets, zip %s: %.300r" % (enc, n, z, r))
    c.done("in")


def in_headertext(c):
    """header octets are authenticated as they are, whatever their layout"""
    from jwkest.jwe import JWE
    enc = c.choose("enc", J.CBC)
    alg, name = c.choose("alg", [("A128KW", "h0.16"), ("RSA-OAEP", "r0"),
                                 ("ECDH-ES", "p256.3")])
    lay = c.choose("layout", ["spaces", "newlines", "indent", "escapes",
                              "duplicate unknown", "trailing space",
                              "leading space", "sorted"])
    hdr = {"alg": alg, "enc": enc, "x": u"\u00e5"}
    m = J.mat(alg, name)
    iv = b"i" * 16
    cek = J.octs("c", ref.CEKLEN[enc])
    tok = ref.jwe_make(hdr, b"layout", m, cek, iv, epk_d=31337)
    ps = tok.split(".")
    full = json.loads(ref.b64d(ps[0]))
    txt = {"spaces": lambda: json.dumps(full, separators=(" , ", " : ")),
           "newlines": lambda: json.dumps(full).replace(",", ",\r\n"),
           "indent": lambda: json.dumps(full, indent=4),
           "escapes": lambda: json.dumps(full).replace("alg", "\\u0061lg"),
           "duplicate unknown": lambda: '{"zz":1,"zz":2,' +
           json.dumps(full)[1:],
           "trailing space": lambda: json.dumps(full) + "  ",
           "leading space": lambda: "  " + json.dumps(full),
           "sorted": lambda: json.dumps(full, sort_keys=True)}[lay]()
    h = ref.b64e(txt.encode("utf-8"))
    if alg == "ECDH-ES":
        _, _, cek, _ = ref.jwe_open(tok, m)
    ct, tag = ref.content_encrypt(enc, cek, iv, h.encode(), b"layout")
    tok = ".".join([h, ps[1], ps[2], ref.b64e(ct), ref.b64e(tag)])
    r = attempt(JWE().decrypt, tok, [J.key(name)])
    check(r == b"layout", "%s %s %s: %r" % (alg, enc, lay, r))
    c.done(lay)


# --- what callers may get wrong -------------------------------------------------------

def given(c, lens):
    """CEK or IV of any length from the caller: an exception or a valid token"""
    from jwkest.jwe import JWE
    alg, name = c.choose("key management", [
        x for x in J.KM if x[0] in ("RSA1_5", "RSA-OAEP", "A128KW", "A256KW",
                                    "ECDH-ES", "ECDH-ES+A128KW")
        and x[1][:4] not in ("p384", "p521")])
    enc = c.choose("enc", J.CBC + J.GCM)
    what = c.choose("given", ["cek", "iv", "both"])
    n = c.choose("octets", lens)
    if what == "cek" and alg[0] == "R":
        raise Prune()   # the recipient is expected to know the CEK
    cn, vn = ref.CEKLEN[enc], ref.IVLEN[enc]
    kw = {}
    if what != "iv":
        kw["cek"] = J.octs("ck", n if what == "cek" else cn)
    if what != "cek":
        kw["iv"] = J.octs("ci", n)
    if what == "both" and alg[0] == "R":
        raise Prune()
    t = attempt(lambda: JWE(b"given", alg=alg, enc=enc).encrypt(
        [J.key(name, False)], **kw))
    if raised(t):
        right = cn if what == "cek" else vn
        check(n != right, "%s %s: %s of %d octets: %r" % (alg, enc, what, n,
                                                          t))
        return c.done("refused")
    r = attempt(ref.jwe_open, t, J.mat(alg, name))
    check(not raised(r) and r[1] == b"given",
          "%s %s: %s of %d octets gives a token that no recipient can read: "
          "%r" % (alg, enc, what, n, r))
    if n and alg[0] != "E":     # ECDH-ES has its own
        check("iv" not in kw or r[3] == kw["iv"], "not the IV given")
        check("cek" not in kw or r[2] == kw["cek"],
              "%s %s: not the key given" % (alg, enc))
    r = attempt(JWE().decrypt, t, [J.key(name)])
    check(r == b"given", "%s of %d octets: %r" % (what, n, r))
    c.done("token")


def given_epk(c):
    """an ephemeral key from the caller: it is used, or an exception"""
    from jwkest.jwe import JWE, JWE_EC
    from jwkest.jwk import ECKey
    alg = c.choose("alg", ref.EC_ALGS)
    crv = c.choose("curve", J.CURVES)
    own = c.choose("epk curve", J.CURVES)
    enc = c.choose("enc", ["A128CBC-HS256", "A256GCM"])
    form = c.choose("form", ["key", "JWK", "public key", "public JWK",
                             "no key"])
    d = c.choose("d", [1, 2, 77])
    name = K.ecname(crv, 3)
    cv = ref.CURVES[own]
    spec = ref.jwk_of(("EC", own, cv.pub(d), d), private="public" not in form)
    epk = "epk" if form == "no key" else \
        ECKey(**spec) if "key" in form else spec
    pub = J.key(name, False)

    def make():
        e = JWE_EC(b"given", alg=alg, enc=enc)
        cek, ek, iv, params, _ = e.enc_setup(b"given", "", key=pub, epk=epk)
        return e.encrypt(key=pub, cek=cek, iv=iv, params=params,
                         encrypted_key=ek)
    t = attempt(make)
    what = "%s, epk %s of %s for a key of %s" % (alg, form, own, crv)
    if own != crv or form not in ("key", "JWK"):
        check(raised(t), "%s: %r" % (what, t))
        return c.done("refused")
    check(not raised(t), "%s: %r" % (what, t))
    h, pt = ref.jwe_open(t, J.mat(alg, name))[:2]
    check(pt == b"given", what)
    check(h["epk"] == ref.jwk_of(("EC", own, cv.pub(d), d)),
          "%s: header has %r" % (what, h["epk"]))
    r = attempt(JWE().decrypt, t, [J.key(name)])
    check(r == b"given", "%s: %r" % (what, r))
    c.done("token")


NAMED = {"jku": "https://a.example/k", "x5u": "https://a.example/c",
         "x5t": "dGh1bWJwcmludA", "x5c": ["QUJD", "REVG"], "kid": "k\u00e5",
         "typ": "JOSE+JSON", "cty": "JWT", "apu": "QWxpY2U", "apv": "Qm9i"}


def named(c):
    """every header member the caller names is in the token as it was given,
    and none that wasn't"""
    from jwkest.jwe import JWE
    alg, name = c.choose("key management", [
        ("RSA1_5", "r0"), ("RSA-OAEP", "r0"), ("A128KW", "h0.16"),
        ("A256KW", "h0.32"), ("ECDH-ES", "p256.3"),
        ("ECDH-ES+A192KW", "p384.3")])
    z = c.flag("zip")
    names = [n for n in sorted(NAMED) if n[:2] != "ap" or alg[0] == "E"]
    sel = c.choose("members", [()] + [(n,) for n in names] +
                   [(a, b) for a in names for b in names if a < b] +
                   [tuple(names)])
    kw = {n: NAMED[n] for n in sel}
    if z:
        kw["zip"] = "DEF"
    ex = {"kid": kw["kid"]} if "kid" in kw else {}
    t = attempt(lambda: JWE(b"named", alg=alg, enc="A128CBC-HS256",
                            **kw).encrypt([J.key(name, False, **ex)]))
    what = "%s with %s" % (alg, sorted(kw))
    check(not raised(t), "%s: %r" % (what, t))
    h, pt = ref.jwe_open(t, J.mat(alg, name))[:2]
    check(pt == b"named", what)
    want = dict(kw, alg=alg, enc="A128CBC-HS256")
    drawn = ("epk", "apu", "apv") if alg[0] == "E" else ()
    for m in drawn:
        check(m in h, "%s: no %s" % (what, m))
        if m not in want:
            del h[m]
    check(h == want, "%s: header has %r" % (what, h))
    c.done("token")


def unsupported(c):
    """what isn't supported is refused, nothing else is put in its place"""
    from jwkest.jwe import JWE
    what = c.choose("what", ["alg", "enc", "zip"])
    h = {"alg": "A128KW", "enc": "A128CBC-HS256"}
    name = "h0.16"
    if what == "alg":
        h["alg"] = c.choose("alg", [
            "dir", "none", "", None, "foo", "A128GCMKW", "A256GCMKW",
            "PBES2-HS256+A128KW", "RSA-OAEP-384", "RSA-OAEP-512", "RSA",
            "ECDH-ES+A512KW", "ECDH-ES+", "ECDH-SS", "A512KW", "A64KW", "AKW",
            "a128kw", "A128KW ", "HS256", "RS256", "ES256", "RSA1_4"])
        name = c.choose("key", ["h0.16", "r0", "p256.3"])
    elif what == "enc":
        h["alg"], name = c.choose("key management", J.KM_SMALL)
        h["enc"] = c.choose("enc", [
            "", None, "foo", "A128CBC", "A128CBC-HS512", "A256CBC-HS256",
            "A128CBC+HS256", "a128gcm", "A128GCM ", "A512GCM", "none", "A128KW",
            "A192CBC-HS256", "A256CBC"])
        if c.flag("no enc"):
            if h.pop("enc") != "":
                raise Prune()
    else:
        h["alg"], name = c.choose("key management", J.KM_SMALL)
        h["enc"] = c.choose("enc", ["A128CBC-HS256", "A128GCM"])
        h["zip"] = c.choose("zip", ["def", "GZ", "none", "DEFLATE", True,
                                    "DEF ", 1])
    direction = c.choose("direction", ["out", "in"])
    if direction == "out":
        r = attempt(lambda: JWE(b"secret", **h).encrypt([J.key(name, False)]))
        check(raised(r), "%r: %r" % (h, r))
    else:
        base = {"alg": {"h": "A128KW", "r": "RSA-OAEP", "p": "ECDH-ES"}[
            name[0]] if what == "alg" else h["alg"], "enc": "A128CBC-HS256"}
        if what == "alg" and name[0] == "p":
            base["alg"] = "ECDH-ES+A128KW"
        m = J.mat(base["alg"], name)
        cek = J.octs("c", 32)
        t = ref.jwe_make(base, b"secret", m, cek, b"i" * 16, epk_d=555)
        ps = t.split(".")
        full = json.loads(ref.b64d(ps[0]))
        if base["alg"] == "ECDH-ES":
            cek = ref.jwe_open(t, m)[2]
        for k in h:
            full[k] = h[k]
        if "enc" not in h:
            del full["enc"]
        h64 = ref.b64e(ref.enc_json(full))
        ct, tag = ref.content_encrypt("A128CBC-HS256", cek, b"i" * 16,
                                      h64.encode(), b"secret")
        t = ".".join([h64, ps[1], ps[2], ref.b64e(ct), ref.b64e(tag)])
        if what == "zip" and full["enc"] != "A128CBC-HS256":
            raise Prune()
        r = attempt(JWE().decrypt, t, [J.key(name)])
        check(raised(r), "%r decrypts to %r" % (full, r))
    c.done("refused")


def scopes(tier):
    th = tier == "thorough"
    return [
        Scope("out CBC", outgoing(J.CBC, TEXTS, EXTRA if th else EXTRA[:4]),
              1, "18 key managements x 3 enc x zip x 5 plaintexts x headers"),
        Scope("out GCM", outgoing(J.GCM, [TEXTS[2]] if not th else TEXTS,
                                  EXTRA[:1]), 2,
              "18 key managements x 3 enc x zip"),
        Scope("out forms", out_forms, 2, "10 keys x public forms x 3 enc"),
        Scope("out secrets", out_secrets, 2, "secrets of 1..129 octets"),
        Scope("out lengths", out_lengths(J.CBC, 400 if th else 100), 2,
              "all plaintext lengths below 100/400"),
        Scope("out GCM lengths", out_lengths(J.GCM if th else J.GCM[:1],
                                             100 if th else 20), 2,
              "all plaintext lengths below 20/100"),
        Scope("out short", out_ephemeral, 2, "leading zeros in epk, z",
              init=find),
        Scope("in CBC", incoming(J.CBC, sorted(HDR), [b"y" * 33] +
                                 ([b"x", b""] if th else [])), 1,
              "18 key managements x 3 enc x 15 header sets x zip x orders"),
        Scope("in GCM", incoming(J.GCM, ["plain", "unknown"] if th else
                                 ["plain"], [b"y" * 33] if not th else TEXTS),
              2, "18 key managements x 3 enc x zip"),
        Scope("in cek CBC", incoming(J.CBC, ["plain"], [b"z"],
                                     ("varied", "zeros", "all zero", "ff")),
              2, "CEKs and IVs with leading zeros"),
        Scope("in cek GCM", incoming(["A192GCM"] if not th else J.GCM,
                                     ["plain"], [b"z" * 17],
                                     ("zeros", "all zero", "ff")), 2,
              "CEKs and IVs with leading zeros"),
        Scope("large", large, 3, "lengths around powers of two up to 2^20 x "
              "zip x 3 contents x both directions"),
        Scope("party info", party, 2, "apu x apv lengths"),
        Scope("party octets", party_octets, 2, "8 lengths x 8 octets at 4 "
              "places, both directions"),
        Scope("epk", epk, 2, "epk members, order, leading zeros"),
        Scope("in lengths", in_lengths(J.CBC, 400 if th else 100), 2,
              "all plaintext lengths below 100/400"),
        Scope("in GCM lengths", in_lengths(J.GCM if th else J.GCM[2:],
                                           100 if th else 20), 2,
              "all plaintext lengths below 20/100"),
        Scope("given", lambda c: given(c, range(1, 70) if th else [
            1, 8, 11, 12, 13, 15, 16, 17, 24, 32, 33, 40, 48, 64, 65]), 2,
              "CEK and IV from the caller: 7 key managements x 6 enc x "
              "15 lengths (1..69 in thorough)"),
        Scope("given epk", given_epk, 2, "4 EC algorithms x 3 curves x 3 "
              "curves of the ephemeral key x 5 forms of it"),
        Scope("named headers", named, 2, "6 key managements x zip x all "
              "pairs of 9 header members"),
        Scope("unsupported", unsupported, 2,
              "23 alg, 14 enc, 7 zip values that are not supported, both "
              "directions"),
        Scope("header text", in_headertext, 2, "8 layouts of the header"),
    ]
