"""C07: with caller-supplied keys nothing in the token supplies keys."""
import functools
import json

from mc.core import Scope, check, Prune
from mc import ref, net, keys as K
from mc.jose import *

URL = "http://attacker.example/keys"
ATT = {"RS256": "r1", "PS256": "r1", "ES256": "p256.9", "ES384": "p384.9",
       "HS256": "h9.32"}
MEMBERS = ["jwk", "jku", "x5u", "x5c", "x5c+x5t", "jwk+kid", "jwk text",
           "jwk private", "jku https", "jku file", "x5u file", "all", "keys",
           "jwks", "jwk list", "k"]


def member_headers(member, alg):
    mat = K.MAT[ATT[alg]]
    jk = ref.jwk_of(mat)
    rsa = mat[0] == "RSA"
    h = {}
    if member in ("jwk", "all", "jwk+kid"):
        h["jwk"] = jk
    if member == "jwk+kid":
        h["jwk"] = dict(jk, kid="k")
        h["kid"] = "k"
    if member == "jwk text":
        h["jwk"] = json.dumps(jk)
    if member == "jwk private":
        h["jwk"] = ref.jwk_of(mat, True)
    if member == "jwk list":
        h["jwk"] = [jk]
    if member in ("jku", "all"):
        h["jku"] = URL
    if member == "jku https":
        h["jku"] = "https://127.0.0.1:1/x"
    if member == "jku file":
        h["jku"] = "file:///etc/passwd"
    if member == "x5u file":
        h["x5u"] = "file:///etc/passwd"
    if member in ("x5u", "all"):
        h["x5u"] = URL
    if member in ("x5c", "x5c+x5t", "all"):
        if not rsa:
            if member != "all":
                raise Prune()
        else:
            h["x5c"] = [K.cert_b64(1)]
            if member == "x5c+x5t":
                h["x5t"] = K.x5t(1)
    if member == "keys":
        h["keys"] = [jk]
    if member == "jwks":
        h["jwks"] = {"keys": [jk]}
    if member == "k":
        h.update({k: v for k, v in jk.items()})
    return h


def caller_keys(kind, alg):
    own = {"RS": "r0", "PS": "r0", "ES": keyname(alg), "HS": "h0.32"}[alg[:2]]
    if kind == "None":
        return None
    if kind == "empty":
        return []
    if kind == "same type":
        return [K.build(own, "object" if own == "r0" else "keyrep", False)]
    if kind == "same kid":
        return [K.build(own, "object" if own == "r0" else "keyrep", False,
                        kid="k")]
    if kind == "other type":
        return [K.build("h0.32" if own[0] != "h" else "p256.3", "keyrep",
                        False)]
    from jwkest.jwk import KEYS
    ks = KEYS()
    for n in ("h0.32", "r0", "p256.3", "p384.3"):
        ks.append(K.build(n, "object" if n == "r0" else "keyrep", False,
                          kid="k"))
    return ks


def jws_keys(c):
    from jwkest import jws
    from jwkest.jws import JWS
    alg = c.choose("alg", sorted(ATT))
    member = c.choose("header", MEMBERS)
    kk = c.choose("caller's keys", ["same type", "same kid", "other type",
                                    "all", "empty", "None"])
    api = c.choose("api", ["compact", "verbose", "json", "flat",
                           "json unprotected", "flat unprotected",
                           "json second"])
    how = c.choose("instance", ["JWS()", "JWS(alg)", "factory",
                                "after keyless", "after good"])
    kid = c.flag("kid header")
    extra = member_headers(member, alg)
    if kid:
        extra["kid"] = "k"
    keys = caller_keys(kk, alg)
    unprot = api.endswith("unprotected")
    hdr = {"alg": alg}
    if not unprot:
        for k, v in extra.items():
            hdr.setdefault(k, v)
    tok = ref.jws_make(hdr, b"evil", K.MAT[ATT[alg]])
    h, p, s = tok.split(".")
    e = {"protected": h, "signature": s}
    if unprot:
        e["header"] = extra
    if api.startswith("flat"):
        txt = json.dumps(dict(e, payload=p))
    elif api == "json second":
        if kk in ("empty", "None", "other type"):
            raise Prune()
        own = {"RS": "r0", "PS": "r0", "ES": keyname(alg),
               "HS": "h0.32"}[alg[:2]]
        g = ref.jws_make({"alg": alg}, b"evil", K.MAT[own]).split(".")
        txt = json.dumps({"payload": p, "signatures": [
            {"protected": g[0], "signature": g[2]}, e]})
    else:
        txt = json.dumps({"payload": p, "signatures": [e]})
    if api in ("compact", "verbose"):
        txt = tok
    elif kk == "None":
        raise Prune()       # JSON and no keys: the token's are all there is
    j = JWS(alg=alg) if how == "JWS(alg)" else JWS()
    if how == "factory":
        j = attempt(jws.factory, txt)
        if j is None or raised(j):
            raise Prune()
    elif how == "after keyless":
        # a keyless verification of the attacker's document before
        d = dict(protected=h, signature=s, payload=p)
        if unprot:
            d["header"] = extra
        attempt(j.verify_json, json.dumps(d))
    elif how == "after good":
        own = {"RS": "r0", "PS": "r0", "ES": keyname(alg),
               "HS": "h0.32"}[alg[:2]]
        attempt(j.verify_compact, ref.jws_make({"alg": alg}, b"x",
                                               K.MAT[own]),
                [K.build(own, "object" if own == "r0" else "keyrep", False)])
    net.reset()
    fn = {"compact": j.verify_compact, "verbose": j.verify_compact_verbose}
    r = attempt(fn.get(api, j.verify_json), txt, keys)
    what = "%s, header %s, keys %s, %s, %s" % (alg, member, kk, api, how)
    check(raised(r), "attacker's token accepted: %s" % what)
    check(not net.LOG, "network access %s: %s" % (net.LOG, what))
    c.done("rejected")


@functools.lru_cache(None)
def evil_jwe(alg, member, kid):
    jalg = {"R": "RS256", "A": "HS256", "E": "ES256"}[alg[0]]
    mat = K.MAT[ATT[jalg]]
    hdr = {"alg": alg, "enc": "A128CBC-HS256"}
    for k, v in member_headers(member, jalg).items():
        hdr.setdefault(k, v)
    if member == "jwk private":
        hdr["jwk"] = ref.jwk_of(mat, True)
    if kid:
        hdr["kid"] = "k"
    m = ("oct", ref.oidc_kek(mat[1], alg)) if mat[0] == "oct" else mat
    return ref.jwe_make(hdr, b"evil", m, b"c" * 32, b"i" * 16, epk_d=77)


def jwe_keys(c):
    from jwkest import jwe
    from jwkest.jwe import JWE
    alg = c.choose("alg", ["RSA1_5", "RSA-OAEP", "A128KW", "A256KW",
                           "ECDH-ES", "ECDH-ES+A128KW"])
    member = c.choose("header", MEMBERS)
    kk = c.choose("caller's keys", ["same type", "same kid", "other type",
                                    "empty", "None"])
    how = c.choose("instance", ["JWE()", "JWE(alg)", "factory"])
    kid = c.flag("kid header")
    tok = evil_jwe(alg, member, kid)
    nm = {"R": "r0", "A": "h0.32", "E": "p256.3"}[alg[0]]
    if kk == "None":
        keys = None
    elif kk == "empty":
        keys = []
    elif kk == "other type":
        keys = [K.build("p256.3" if nm[0] == "h" else "h0.32", "keyrep",
                        True)]
    else:
        ex = {"kid": "k"} if kk == "same kid" else {}
        keys = [K.build(nm, "object" if nm == "r0" else "keyrep", True, **ex)]
    net.reset()
    if how == "factory":
        j = jwe.factory(tok)
        if j is None:
            raise Prune()
        r = attempt(j.decrypt, None, keys)
    else:
        j = JWE(alg=alg) if how == "JWE(alg)" else JWE()
        r = attempt(j.decrypt, tok, keys)
    what = "%s, header %s, keys %s, %s" % (alg, member, kk, how)
    check(raised(r), "attacker's token decrypted: %s -> %r" % (what, r))
    check(not net.LOG, "network access %s: %s" % (net.LOG, what))
    c.done("rejected")


def offline(c):
    """honest tokens with such headers: nothing is fetched either"""
    from jwkest import jws, jwe
    from jwkest.jws import JWS
    from jwkest.jwe import JWE
    kind = c.choose("kind", ["jws", "json", "jwe"])
    member = c.choose("header", MEMBERS)
    cls = c.choose("classify", [False, True])
    alg = c.choose("alg", ["RS256", "HS256", "ES256"])
    nm = {"RS256": "r0", "HS256": "h0.32", "ES256": "p256.3"}[alg]
    mat = K.MAT[nm]
    key = K.build(nm, "object" if nm == "r0" else "keyrep", True)
    net.reset()
    if kind == "jwe":
        a = {"RS256": "RSA-OAEP", "HS256": "A128KW", "ES256": "ECDH-ES"}[alg]
        m = ("oct", ref.oidc_kek(mat[1], a)) if nm[0] == "h" else mat
        hdr = {"alg": a, "enc": "A128CBC-HS256"}
        for k, v in member_headers(member, alg).items():
            hdr.setdefault(k, v)
        hdr.pop("kid", None)
        tok = ref.jwe_make(hdr, b"m", m, b"c" * 32, b"i" * 16, epk_d=5)
        if cls:
            jwe.factory(tok)
        r = JWE().decrypt(tok, [key])
        check(r == b"m", "decrypt: %r" % r)
    else:
        hdr = {"alg": alg}
        for k, v in member_headers(member, alg).items():
            hdr.setdefault(k, v)
        hdr.pop("kid", None)
        tok = ref.jws_make(hdr, b"m", mat)
        if kind == "json":
            h, p, s = tok.split(".")
            tok = json.dumps(dict(protected=h, payload=p, signature=s))
        if cls:
            jws.factory(tok)
        r = (JWS().verify_json if kind == "json" else JWS().verify_compact)(
            tok, [key])
        check(r == "m", "verify: %r" % r)
    check(not net.LOG, "network access: %s" % net.LOG)
    c.done("verified")


def own(c):
    """a verifier that names its key itself, and is given no others"""
    from jwkest.jws import JWS
    alg = c.choose("alg", ["RS256", "ES256", "HS256"])
    form = c.choose("own key", ["jwk dict", "jwk text", "jwk object", "jku"])
    member = c.choose("header", ["none"] + MEMBERS)
    signer = c.choose("signer", ["attacker", "own"])
    api = c.choose("api", ["compact", "json", "json unprotected"])
    keys = c.choose("keys", [None, []])
    walg = c.choose("alg given", [True, False])
    kid = c.flag("kid header")
    okid = c.flag("own kid")
    before = c.choose("before", ["nothing", "attacker's", "own"])
    nm = {"RS": "r0", "PS": "r0", "ES": keyname(alg), "HS": "h0.32"}[alg[:2]]
    if nm[0] == "h" and form in ("jwk dict", "jwk text", "jwk object") and \
            kid != okid:
        raise Prune()
    spec = ref.jwk_of(K.MAT[nm])
    if okid:
        spec["kid"] = "k"
    if form == "jku":
        if okid:
            raise Prune()
        kw = {"jku": "http://own.example/keys"}
    elif form == "jwk object":
        kw = {"jwk": K.build(nm, "object" if nm == "r0" else "keyrep", False,
                             **({"kid": "k"} if okid else {}))}
    else:
        kw = {"jwk": spec if form == "jwk dict" else json.dumps(spec)}
    if walg:
        kw["alg"] = alg

    def token(who):
        extra = member_headers(member, alg) if member != "none" else {}
        if kid:
            extra["kid"] = "k"
        hdr = {"alg": alg}
        if api != "json unprotected":
            for k, v in extra.items():
                hdr.setdefault(k, v)
        t = ref.jws_make(hdr, b"evil" if who == "attacker" else b"m",
                         K.MAT[nm if who == "own" else ATT[alg]])
        if api == "compact":
            return t
        h, p, s = t.split(".")
        e = {"protected": h, "payload": p, "signature": s}
        if api != "json":
            e["header"] = extra
        return json.dumps(e)

    j = JWS(**kw)
    fn = j.verify_compact if api == "compact" else j.verify_json
    net.reset()
    if before != "nothing":
        r = attempt(fn, token("own" if before == "own" else "attacker"), keys)
        if before != "own":
            check(raised(r), "attacker's token accepted first")
    tok = token(signer)
    r = attempt(fn, tok, keys)
    what = "%s, own %s, header %s, keys %r, %s, %s" % (
        alg, form, member, keys, api, before)
    for l in net.LOG:
        check(form == "jku" and "attacker" not in repr(l),
              "network access %s: %s" % (net.LOG, what))
    if signer == "attacker" or form == "jku":
        check(raised(r), "accepted: %s -> %r" % (what, r))
        return c.done("rejected")
    if walg and (kid == okid or not kid) and "kid" not in member and \
            "crit" not in member:
        check(r == "m", "own token refused: %s -> %r" % (what, r))
        return c.done("accepted")
    check(raised(r) or r == "m", "%s -> %r" % (what, r))
    c.done("either")


def scopes(tier):
    return [
        Scope("own key", own, 3, "3 algorithms x 4 forms of the verifier's "
              "own key x 17 header members x signer x 3 APIs x histories",
              init=net.install),
        Scope("JWS", jws_keys, 3, "5 algorithms x 16 header members x 6 key "
              "arguments x 7 APIs x 5 instance histories", init=net.install),
        Scope("JWE", jwe_keys, 2, "6 algorithms x 16 header members x 5 key "
              "arguments x 3 instances", init=net.install),
        Scope("honest", offline, 2, "honest tokens with these members",
              init=net.install),
    ]
