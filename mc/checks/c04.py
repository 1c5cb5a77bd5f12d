"""C04: the algorithm cannot be switched by the token."""
import functools
import json

from mc.core import Scope, check, Prune
from mc import ref, keys as K
from mc.jose import *

PINS = ["sigalg", "constructor", "factory+sigalg", "key alg", "all"]


def other(alg_a, alg_b):
    """material that works for both algorithms if there is any"""
    if ktype(alg_a) == ktype(alg_b):
        if ktype(alg_a) == "oct":
            return "h0.64"
        return keyname(alg_b)
    return keyname(alg_b)


@functools.lru_cache(None)
def token_for(alg, name, style, body=b"{\"a\":1}"):
    hdr = {"alg": alg}
    if style == "typ":
        hdr = {"typ": "JWT", "alg": alg}
    elif style == "kid":
        hdr = {"alg": alg, "kid": "k"}
    return ref.jws_make(hdr, body, K.MAT[name])


def verify(j, api, tok, keys, **kw):
    if api == "compact":
        return attempt(j.verify_compact, tok, keys, **kw)
    if api == "verbose":
        return attempt(j.verify_compact_verbose, tok, keys, **kw)
    h, p, s = tok.split(".")
    if api == "json":
        doc = {"payload": p, "signatures": [{"protected": h, "signature": s}]}
    else:
        doc = {"payload": p, "protected": h, "signature": s}
    return attempt(j.verify_json, json.dumps(doc), keys, **kw)


def pinned(c):
    from jwkest import jws
    from jwkest.jws import JWS
    want = c.choose("expected", SIG_ALGS)
    got = c.choose("in token", SIG_ALGS)
    pin = c.choose("pin", PINS)
    api = c.choose("api", ["compact", "verbose", "json", "flat"])
    style = c.choose("header", ["plain", "typ", "kid"])
    allow = c.flag("allow_none")
    if pin in ("constructor", "all") and api in ("json", "flat"):
        raise Prune()           # one alg per signature there
    if pin == "factory+sigalg" and api in ("json", "flat"):
        raise Prune()
    name = other(want, got)
    tok = token_for(got, name, style)
    ex = {"kid": "k"} if style == "kid" else {}
    if pin in ("key alg", "all"):
        ex["alg"] = want
    keys = [K.build(name, "keyrep", False, **ex)]
    if pin == "sigalg":     # another one that fits what was expected
        keys.append(K.build(keyname(want, 1), "keyrep", False, **ex))
    j = JWS(alg=want) if pin in ("constructor", "all") else JWS()
    kw = {}
    if pin == "factory+sigalg":
        j = jws.factory(tok)
    if pin in ("sigalg", "factory+sigalg", "all"):
        kw["sigalg"] = want
    r = verify(j, api, tok, keys, allow_none=allow, **kw)
    what = "%s expected (%s), token has %s, %s" % (want, pin, got, api)
    if want == got:
        check(not raised(r), "rejected: %s: %r" % (what, r))
        c.done("accepted")
    else:
        check(raised(r), "accepted: %s" % what)
        # the same token is fine when nothing is fixed
        r = verify(JWS(), api, tok, [K.build(name, "keyrep", False, **(
            {"kid": "k"} if style == "kid" else {}))])
        check(not raised(r), "harness: token is not valid: %r" % (r,))
        c.done("rejected")


def two_pins(c):
    """every expectation counts, not just one of them"""
    from jwkest.jws import JWS
    got = c.choose("in token", SIG_ALGS + ["none"])
    ctor = c.choose("constructor", [None] + SIG_ALGS)
    arg = c.choose("sigalg", [None] + SIG_ALGS)
    kalg = c.choose("key alg", [None, got] + [
        a for a in SIG_ALGS if a != got and ktype(a) == ktype(got)]
        if got != "none" else [None])
    api = c.choose("api", ["compact", "verbose"])
    if got == "none":
        tok = ref.jws_make({"alg": "none"}, b"x", None)
        keys = [K.build("h0.64", "keyrep", False)]
    else:
        name = keyname(got)
        tok = token_for(got, name, "plain")
        keys = [K.build(name, "keyrep", False,
                        **({"alg": kalg} if kalg else {}))]
    r = verify(JWS(alg=ctor) if ctor else JWS(), api, tok, keys,
               **({"sigalg": arg} if arg else {}))
    bad = got == "none" or any(x and x != got for x in (ctor, arg, kalg))
    check(raised(r) == bad, "token %s, constructor %s, sigalg %s, key alg %s:"
          " %r" % (got, ctor, arg, kalg, r))
    c.done("rejected" if bad else "accepted")


def sticky(c):
    """fixing the algorithm holds for every token of a sequence"""
    from jwkest.jws import JWS
    want = c.choose("expected", ["HS256", "RS256", "ES256", "PS384"])
    seq = [c.choose("token %d" % i, ["HS256", "RS256", "ES256", "PS384",
                                     "none", "bad"]) for i in range(3)]
    pin = c.choose("pin", ["constructor", "sigalg"])
    j = JWS(alg=want) if pin == "constructor" else JWS()
    keys = [K.build(keyname(a), "keyrep", False) for a in (
        "HS256", "RS256", "ES256")]
    for a in seq:
        if a == "none":
            tok = ref.jws_make({"alg": "none"}, b"x", None)
        elif a == "bad":
            tok = token_for(want, keyname(want), "plain")
            tok = tok[:-8] + ("AAAAAAAA" if tok[-8:] != "AAAAAAAA" else
                              "BAAAAAAA")
        else:
            tok = token_for(a, keyname(a), "plain")
        r = verify(j, "compact", tok, keys,
                   **({"sigalg": want} if pin == "sigalg" else {}))
        check(raised(r) == (a != want), "%s expected, sequence %s: %s -> %r" %
              (want, seq, a, r))
    c.done("%d accepted" % seq.count(want))


def public_secrets(name):
    """octets an attacker can make of a public key"""
    mat = K.MAT[name]
    out = []
    if mat[0] == "RSA":
        k = mat[1].public_key()
        pem = k.export_key()
        out += [("pem", pem), ("pem nl", pem + b"\n"),
                ("pem crlf", pem.replace(b"\n", b"\r\n")),
                ("der", k.export_key("DER")),
                ("pkcs1 pem", k.export_key("PEM", pkcs=1)),
                ("openssh", k.export_key("OpenSSH")),
                ("n", ref.b64d(ref.uint_b64(k.n))),
                ("n b64", ref.uint_b64(k.n).encode()),
                ("n dec", str(k.n).encode()), ("e", b"\1\0\1"),
                ("repr", repr(k).encode()), ("str", str(k).encode())]
    else:
        cv = ref.CURVES[mat[1]]
        x, y = ref.i2o(mat[2][0], cv.bytes), ref.i2o(mat[2][1], cv.bytes)
        out += [("x", x), ("y", y), ("xy", x + y), ("sec1", b"\4" + x + y),
                ("comp", bytes([2 + mat[2][1] % 2]) + x),
                ("x b64", ref.b64e(x).encode()),
                ("tuple", str(mat[2]).encode()),
                ("repr", repr(mat[2]).encode()),
                ("crv", mat[1].encode())]
    jd = ref.jwk_of(K.pub(mat))
    out += [("jwk", json.dumps(jd).encode()),
            ("jwk sorted", json.dumps(jd, sort_keys=True,
                                      separators=(",", ":")).encode()),
            ("jwks", json.dumps({"keys": [jd]}).encode()),
            ("empty", b""), ("kty", mat[0].encode()), ("None", b"None"),
            ("zeros", b"\0" * 32)]
    return out


def confusion(c):
    """MACs made with a public key"""
    from jwkest import jws
    from jwkest.jws import JWS
    name = c.choose("public key", ["r0", "p256.3", "p384.3", "p521.3"])
    sec_name, secret = c.choose("secret", public_secrets(name))
    alg = c.choose("alg", HS)
    form = c.choose("key form", K.PUB_FORMS[K.MAT[name][0]] +
                    ["private"])
    extra = c.choose("other keys", ["none", "other hmac key", "kid"])
    api = c.choose("api", ["compact", "factory", "json"])
    ex = {"kid": "k"} if extra == "kid" else {}
    keys = [K.build(name, "object" if name == "r0" else "jwk", True, **ex)
            if form == "private" else
            K.build(name, form, False, **ex)]
    if extra == "other hmac key":
        keys.append(K.build("h0.32", "octets"))
    hdr = {"alg": alg}
    hdr.update(ex)
    tok = ref.jws_make(hdr, b"evil", ("oct", secret))
    j = JWS()
    if api == "factory":
        j = jws.factory(tok)
        if j is None:
            raise Prune()
    r = verify(j, "json" if api == "json" else "compact", tok, keys)
    check(raised(r), "MAC with %s of %s as %s key accepted" % (
        sec_name, name, form), "public key used as MAC secret")
    c.done("rejected")


UNKNOWN = ["HS", "HS1", "HS0256", "HS2560", "hs256", "Hs256", "HS256 ",
           " HS256", "HS256\0", "HS-256", "SHA256", "HMAC", "RS", "RS1",
           "rs256", "RS256 ", "RS128", "PS", "PS1", "ps256", "ES", "ES1",
           "es256", "ES256K", "ES521", "EdDSA", "A128KW", "AES", "A",
           "ECDH-ES", "RSA-OAEP", "RSA1_5", "dir", "nonee", "anone", "x",
           "\u0130", "HS256,none", "ALL", "*"]


def unknown(c):
    """algorithms nobody implements, signed with what is closest"""
    from jwkest import jws
    from jwkest.jws import JWS
    alg = c.choose("alg", UNKNOWN)
    near = c.choose("signed with", ["HS256", "RS256", "PS256", "ES256",
                                    "nothing", "sha256"])
    keys = c.choose("keys", ["all", "matching"])
    api = c.choose("api", ["compact", "json", "factory"])
    pin = c.choose("sigalg", ["none", "same", "constructor"])
    hdr = ref.enc_json({"alg": alg})
    si = ref.b64e(hdr) + "." + ref.b64e(b"evil")
    if near == "nothing":
        sig = b""
    elif near == "sha256":
        import hashlib
        sig = hashlib.sha256(si.encode()).digest()
    else:
        sig = ref.sig_sign(near, si.encode(), K.MAT[keyname(near)])
    tok = si + "." + ref.b64e(sig)
    names = ["HS256", "RS256", "ES256", "ES384", "ES512"]
    if keys == "matching" and near in names:
        names = [near]
    ks = [K.build(keyname(n), "keyrep", False) for n in names]
    kw = {"sigalg": alg} if pin == "same" else {}
    j = JWS(alg=alg) if pin == "constructor" else JWS()
    if api == "factory":
        j = jws.factory(tok)
        if j is None:
            c.done("not a JWS")
            return
    for allow in (False, True):
        r = verify(j, "json" if api == "json" else "compact", tok, ks,
                   allow_none=allow, **kw)
        check(raised(r), "algorithm %r accepted" % alg)
    c.done("rejected")


TYPES = [True, False, 0, 1, 256, 1.5, [], ["HS256"], {}, {"HS256": 1}, None]


def odd_types(c):
    from jwkest.jws import JWS
    alg = c.choose("alg", TYPES)
    near = c.choose("signed with", ["HS256", "RS256", "ES256", "nothing"])
    api = c.choose("api", ["compact", "json"])
    pin = c.choose("pin", ["none", "sigalg", "constructor"])
    si = ref.b64e(ref.enc_json({"alg": alg})) + "." + ref.b64e(b"evil")
    sig = b"" if near == "nothing" else ref.sig_sign(
        near, si.encode(), K.MAT[keyname(near)])
    tok = si + "." + ref.b64e(sig)
    ks = [K.build(keyname(n), "keyrep", False) for n in
          ("HS256", "RS256", "ES256")]
    j = JWS(alg="HS256") if pin == "constructor" else JWS()
    r = verify(j, api, tok, ks, **({"sigalg": "HS256"} if pin == "sigalg"
                                   else {}))
    check(raised(r), "alg %r accepted" % (alg,))
    c.done("rejected")


def jwe_alg(c):
    """the same for decryption: alg argument and key alg"""
    from jwkest.jwe import JWE
    algs = ref.RSA_ALGS + ref.KW_ALGS + ref.EC_ALGS
    want = c.choose("expected", algs)
    got = c.choose("in token", algs)
    pin = c.choose("pin", ["argument", "key alg", "unpinned"])
    hdr = {"alg": got, "enc": "A128CBC-HS256"}
    nm = {"R": "r0", "A": "h0.%d" % (int(got[1:4]) // 8 if got[0] == "A"
                                     else 16), "E": "p256.3"}[got[0]]
    mat = K.MAT[nm]
    if mat[0] == "oct":
        mat = ("oct", ref.oidc_kek(mat[1], got))
    tok = ref.jwe_make(hdr, b"secret", mat, b"c" * 32, b"i" * 16, epk_d=77)
    ex = {"alg": want} if pin == "key alg" else {}
    key = K.build(nm, "object" if nm == "r0" else "keyrep", True, **ex)
    kw = {"alg": want} if pin == "argument" else {}
    r = attempt(JWE().decrypt, tok, [key], **kw)
    if want == got or pin == "unpinned":
        check(r == b"secret", "%s not decrypted: %r" % (got, r))
        c.done("decrypted")
    else:
        check(raised(r), "%s decrypted although %s was fixed by %s" % (
            got, want, pin))
        c.done("rejected")


def spelled(want):
    """what looks like the algorithm but is another name"""
    return [want.lower(), want.capitalize(), want + " ", " " + want,
            want + "X", want + "0", want[:-1], want[1:], want + want,
            want + ",none", want + "\0", want + "\n", want[:2],
            want.replace("S", "\u017f"), want[:2] + "-" + want[2:], "",
            "none" + want]


def spelling(c):
    """an expectation in another spelling isn't met by the token"""
    from jwkest.jws import JWS
    alg = c.choose("alg", SIG_ALGS)
    odd = c.choose("spelling", range(len(spelled(alg))))
    odd = spelled(alg)[odd]
    where = c.choose("where", ["pin", "token"])
    pin = c.choose("pin", ["sigalg", "constructor", "key alg"])
    api = c.choose("api", ["compact", "verbose", "json"])
    if pin == "constructor" and api == "json" or not odd and where == "pin":
        raise Prune()
    want, got = (odd, alg) if where == "pin" else (alg, odd)
    name = keyname(alg)
    tok = ref.jws_make({"alg": got}, b"m", K.MAT[name], alg=alg)
    keys = [K.build(name, "keyrep", False,
                    **({"alg": want} if pin == "key alg" else {}))]
    j = JWS(alg=want) if pin == "constructor" else JWS()
    r = verify(j, api, tok, keys,
               **({"sigalg": want} if pin == "sigalg" else {}))
    check(raised(r), "%r expected (%s), token has %r: %r" % (
        want, pin, got, r))
    c.done("rejected")


def scopes(tier):
    return [
        Scope("pinned", pinned, 2, "all 144 ordered pairs x 5 ways to fix the "
              "algorithm x 4 APIs x 3 headers x allow_none"),
        Scope("two pins", two_pins, 2, "all triples of token, constructor and "
              "argument algorithm x key algorithms of the same type"),
        Scope("sequences", sticky, 2, "all sequences of 3 tokens out of 6"),
        Scope("confusion", confusion, 2, "all encodings of public keys x "
              "key forms x APIs"),
        Scope("unknown algorithms", unknown, 1, "40 names x 6 signatures"),
        Scope("alg types", odd_types, 1, "11 JSON values"),
        Scope("spelling", spelling, 1, "12 algorithms in 17 other spellings, "
              "expected or in the token"),
        Scope("JWE", jwe_alg, 1, "all 100 pairs x pins"),
    ]
