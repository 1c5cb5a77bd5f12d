"""C09: critical extensions are not ignored."""
import json

from mc.core import Scope, check, Prune
from mc import ref, keys as K, jwe as J
from mc.jose import *

CRIT = [["exp"], ["alg"], ["b64"], ["x"], ["http://example.com/ext"],
        ["exp", "x"], [], "exp", "", None, False, True, 0, 1, {}, {"exp": 1},
        [""], [None], [["exp"]], ["crit"], ["kid"], ["enc", "alg"]]
EXTRA = [{}, {"exp": 1363284000, "x": 1, "b64": True,
              "http://example.com/ext": True}, {"kid": "k"}]


def jws_crit(c):
    from jwkest import jws
    from jwkest.jws import JWS
    crit = c.choose("crit", CRIT)
    alg = c.choose("alg", SIG_ALGS + ["none"])
    extra = c.choose("other headers", EXTRA)
    pos = c.choose("place", ["first", "last"])
    api = c.choose("api", ["compact", "verbose", "factory", "json", "flat",
                           "json second", "unprotected"])
    name = "h0.32" if alg == "none" else keyname(alg)
    hdr = {"crit": crit} if pos == "first" else {}
    hdr["alg"] = alg
    hdr.update(extra)
    hdr["crit"] = crit
    body = b'{"a":1}'
    if api == "unprotected":
        del hdr["crit"]
    tok = ref.jws_make(hdr, body, K.MAT[name])
    ex = {"kid": "k"} if "kid" in extra else {}
    keys = [K.build(name, "keyrep", False, **ex)]
    h, p, s = tok.split(".")
    j = JWS()
    if api == "factory":
        j = jws.factory(tok)
        if j is None:
            raise Prune()
    e = {"protected": h, "signature": s}
    good = ref.jws_make(dict(extra, alg=alg), body, K.MAT[name]).split(".")
    g = {"protected": good[0], "signature": good[2]}
    if api == "json":
        doc = {"payload": p, "signatures": [e]}
    elif api == "flat":
        doc = dict(e, payload=p)
    elif api == "json second":
        doc = {"payload": p, "signatures": [g, e]}
    elif api == "unprotected":
        doc = {"payload": p, "signatures": [dict(e, header={"crit": crit})]}
    if api in ("compact", "factory"):
        r = attempt(j.verify_compact, tok, keys, True)
        ok = attempt(JWS().verify_compact, ".".join(good), keys, True)
    elif api == "verbose":
        r = attempt(j.verify_compact_verbose, tok, keys, True)
        ok = attempt(JWS().verify_compact, ".".join(good), keys, True)
    else:
        r = attempt(j.verify_json, json.dumps(doc), keys, True)
        ok = attempt(JWS().verify_json, json.dumps(
            {"payload": p, "signatures": [g]}), keys, True)
    check(raised(r), "crit=%r ignored: %s %s" % (crit, alg, api))
    check(ok == {"a": 1}, "the token without crit is rejected: %r" % (ok,))
    c.done("rejected")


def jwe_crit(c):
    from jwkest import jwe
    from jwkest.jwe import JWE
    crit = c.choose("crit", CRIT)
    alg = c.choose("alg", ref.RSA_ALGS + ref.KW_ALGS + ref.EC_ALGS)
    enc = c.choose("enc", ["A128CBC-HS256", "A256CBC-HS512"])
    extra = c.choose("other headers", EXTRA)
    api = c.choose("api", ["decrypt", "factory", "cek", "class",
                           "class cek", "class JWEnc"])
    name = {"R": "r0", "A": "h0.32", "E": "p256.3"}[alg[0]]
    mat = K.MAT[name]
    if alg[0] == "A":
        mat = ("oct", ref.oidc_kek(mat[1], alg))
    hdr = {"alg": alg, "enc": enc}
    hdr.update(extra)
    ex = {"kid": "k"} if "kid" in extra else {}
    key = K.build(name, "object" if name == "r0" else "keyrep", True, **ex)
    cek = bytes(range(ref.CEKLEN[enc]))
    mk = lambda h: ref.jwe_make(h, b"secret", mat, cek, b"i" * 16, epk_d=77)
    tok, good = mk(dict(hdr, crit=crit)), mk(hdr)

    def run(t):
        j = JWE()
        if api.startswith("class"):
            return J.classes(t, key, alg, cek, api)
        if api == "factory":
            j = jwe.factory(t)
            return attempt(j.decrypt, None, [key])
        if api == "cek":
            return attempt(j.decrypt, t, [key], None, cek)
        return attempt(j.decrypt, t, [key])
    if api in ("cek", "class cek") and alg[0] == "E":
        raise Prune()
    r = run(tok)
    check(raised(r) or (api == "factory" and jwe.factory(tok) is None),
          "crit=%r ignored: %s %s %s" % (crit, alg, enc, api))
    r = run(good)
    check(r == b"secret", "the token without crit is rejected: %r" % (r,))
    c.done("rejected")


def scopes(tier):
    return [
        Scope("JWS", jws_crit, 2, "22 crit values x 13 algorithms x 3 header "
              "contents x 2 places x 7 APIs"),
        Scope("JWE", jwe_crit, 2, "22 crit values x 10 algorithms x 2 enc x 3 "
              "header contents x 3 APIs and 3 ways to use the family classes"),
    ]
