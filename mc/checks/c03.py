"""C03: unsigned tokens are only accepted when the caller says so."""
import json

from mc.core import Scope, check, Prune
from mc import ref, keys as K
from mc.jose import *

ALGS = [("missing", '{"typ":"JWT"}'), ("null", '{"alg":null}'),
        ("none", '{"alg":"none"}'), ("None", '{"alg":"None"}'),
        ("NONE", '{"alg":"NONE"}'), ("nOnE", '{"alg":"nOnE"}'),
        ("escaped", '{"alg":"\\u006eone"}'),
        ("empty", '{"alg":""}'), ("space", '{"alg":"none "}'),
        ("dotless", '{"alg":"n\u0131ne"}'), ("zero", '{"alg":0}'),
        ("false", '{"alg":false}'), ("true", '{"alg":true}'),
        ("list", '{"alg":["none"]}'), ("dict", '{"alg":{}}'),
        ("twice", '{"alg":"HS256","alg":"none"}'),
        ("twice2", '{"alg":"none","alg":"HS256"}'),
        ("case key", '{"ALG":"none"}'), ("enc", '{"alg":"none","enc":"A"}'),
        ("HS256", '{"alg":"HS256"}'), ("RS256", '{"alg":"RS256"}'),
        ("ES256", '{"alg":"ES256"}'), ("HS0", '{"alg":"HS"}'),
        ("not object", '["none"]'), ("string", '"none"'), ("nothing", ''),
        ("kid", '{"alg":"none","kid":"a"}'),
        ("jwk", '{"alg":"none","jwk":{"kty":"oct","k":"AAAA"}}')]
SIGS = ["empty", "zeros", "hmac empty key", "hmac none", "text"]
KEYS = ["None", "[]", "hmac", "all", "base key"]
HELPER = {"none", "None", "NONE", "nOnE", "null", "escaped", "twice", "enc",
          "kid", "jwk"}


def keylist(which):
    from jwkest.jwk import Key
    if which == "None":
        return None
    if which == "[]":
        return []
    if which == "hmac":
        return [K.build("h0.32", "octets")]
    if which == "base key":
        return [Key(kty="none"), Key(kty=""), Key(kty="None")]
    return [K.build(n, "jwk", False, kid="a") for n in (
        "h0.32", "r0", "p256.3")] + [K.build("h0.32", "octets")]


def sigof(kind, data):
    import hashlib
    import hmac
    if kind == "empty":
        return b""
    if kind == "zeros":
        return b"\0" * 32
    if kind == "hmac empty key":
        return hmac.new(b"", data, hashlib.sha256).digest()
    if kind == "hmac none":
        return hmac.new(b"none", data, hashlib.sha256).digest()
    return b"sig"


def unsigned(c):
    from jwkest import jws
    from jwkest.jws import JWS
    allow = c.choose("allow_none", ["default", False, True])
    name, hdr = c.choose("alg header", ALGS)
    sk = c.choose("signature", SIGS)
    kk = c.choose("keys", KEYS)
    how = c.choose("instance", ["JWS()", "JWS(alg)", "factory",
                                "JWS(alg=none)", "used for none"])
    api = c.choose("api", ["compact", "verbose", "json", "flat"])
    pin = c.choose("sigalg", [None, "HS256", "none"])
    h = ref.b64e(hdr.encode("utf-8"))
    p = ref.b64e(b'{"a":1}')
    s = ref.b64e(sigof(sk, (h + "." + p).encode()))
    tok = h + "." + p + "." + s
    keys = keylist(kk)
    if how == "JWS()":
        j = JWS()
    elif how == "JWS(alg)":
        j = JWS("m", alg="HS256")
    elif how == "JWS(alg=none)":
        j = JWS("m", alg="none")
    elif how == "used for none":
        j = JWS()
        t0 = ref.jws_make({"alg": "none"}, b"earlier", None)
        got = attempt(j.verify_compact, t0, keys, True)
        check(got == "earlier", "none token with allow_none=True: %r" % got)
    else:
        j = attempt(jws.factory, tok)
        if j is None or raised(j):
            raise Prune()
    kw = {} if allow == "default" else {"allow_none": allow}
    if pin:
        kw["sigalg"] = pin
    if api == "json":
        tok = json.dumps({"payload": p, "signatures": [
            {"protected": h, "signature": s}]})
    elif api == "flat":
        tok = json.dumps({"payload": p, "protected": h, "signature": s})
    fn = {"compact": j.verify_compact, "verbose": j.verify_compact_verbose,
          "json": j.verify_json, "flat": j.verify_json}[api]
    got = attempt(fn, tok, keys, **kw)
    what = "header %s, keys %s, %s, %s, sigalg=%s" % (hdr, kk, how, api, pin)
    if allow is not True:
        check(raised(got), "unsigned token accepted without allow_none: %s" %
              what, "accepted without allow_none")
        c.done("rejected")
        return
    # allowed: only a token that says none may go without a valid signature
    if name not in HELPER:
        check(raised(got), "token without a valid signature accepted: %s" %
              what, "accepted although not none")
        c.done("rejected, not none")
        return
    if raised(got):
        # the caller allows none, names no other algorithm and the token is
        # well formed: it has to be accepted
        check(not (name in ("none", "None", "NONE", "nOnE") and
                   sk == "empty" and how in ("JWS()", "factory",
                                             "used for none") and
                   pin is None),
              "allow_none=True has no effect: %s -> %r" % (what, got))
        c.done("rejected")
        return
    if api == "verbose":
        check("key" not in got or got["key"] is None,
              "a key is reported for an unsigned token")
        got = got["msg"]
    check(got == {"a": 1}, "payload %r" % (got,))
    c.done("allowed")


def signing(c):
    """none never comes out of signing unless asked for"""
    from jwkest.jws import JWS
    alg = c.choose("alg", SIG_ALGS + ["none", None, "", "HS1024", "RS", "X",
                                      "NONE", "None"])
    kk = c.choose("keys", ["none", "empty", "other type", "wrong kid",
                           "for encryption", "right", "key with alg"])
    kw = {"alg": alg}
    good = alg if alg in SIG_ALGS else "HS256"
    name = keyname(good)
    keys = {"none": None, "empty": [],
            "other type": [K.build(keyname(
                "RS256" if ktype(good) != "RSA" else "HS256"), "jwk")],
            "wrong kid": [K.build(name, "jwk", kid="other")],
            "for encryption": [K.build(name, "jwk", use="enc")],
            "right": [K.build(name, "jwk")],
            "key with alg": [K.build(name, "jwk", alg=good)]}[kk]
    if kk == "wrong kid":
        kw["kid"] = "wanted"
    api = c.choose("api", ["compact", "json", "flat"])
    msg = c.choose("payload", ["m", "", b"", {}])
    if kk == "wrong kid" and api != "compact":
        raise Prune()       # JSON: kid is given per signature (see C06)
    j = JWS(msg, **kw)
    if api == "compact":
        got = attempt(j.sign_compact, keys)
    else:
        got = attempt(j.sign_json, keys, None, api == "flat")
    if alg in SIG_ALGS and kk not in ("right", "key with alg"):
        check(raised(got), "signed without a usable key: %r" % (got,))
        c.done("refused")
        return
    if alg and alg not in SIG_ALGS and alg.lower() != "none":
        check(raised(got), "%s asked for: %r" % (alg, got))
        c.done("unknown")
        return
    if raised(got):
        check(not (alg in SIG_ALGS), "could not sign: %r" % got)
        c.done("refused")
        return
    if api == "compact":
        toks = [got]
    else:
        d = json.loads(got)
        toks = [".".join([e["protected"], d["payload"], e["signature"]])
                for e in d.get("signatures", [d])]
    for t in toks:
        h, _, s = t.split(".")
        hdr = json.loads(ref.b64d(h))
        if alg in SIG_ALGS:
            ref.jws_open(t, K.MAT[name], alg)
        else:
            # no algorithm was asked for: either the token says it is not
            # signed or it is signed with the key's own algorithm
            ha = hdr.get("alg")
            if ha in SIG_ALGS:
                ref.jws_open(t, K.MAT[name], ha)
                c.done("signed with " + ha)
                return
            check((ha is None or ha.lower() == "none") and s == "",
                  "header %r signature %r" % (hdr, s))
    c.done("signed" if alg in SIG_ALGS else "unsigned")


def entries(c):
    """one unsigned entry among the signatures of a JSON serialization"""
    from jwkest import jws
    from jwkest.jws import JWS
    n = c.choose("signatures", [2, 3, 4])
    pos = c.choose("unsigned one", range(n))
    name, hdr = c.choose("alg header", [a for a in ALGS if a[0] in HELPER])
    good = c.choose("others", ["HS256", "RS256", "ES256"])
    how = c.choose("instance", ["JWS()", "factory", "used for none"])
    allow = c.choose("allow_none", ["default", False])
    p = ref.b64e(b'{"a":1}')
    h, _, s = ref.jws_make({"alg": good}, b'{"a":1}',
                           K.MAT[keyname(good)]).split(".")
    es = [{"protected": h, "signature": s} for _ in range(n)]
    es[pos] = {"protected": ref.b64e(hdr.encode("utf-8")), "signature": ""}
    txt = json.dumps({"payload": p, "signatures": es})
    j = JWS()
    if how == "factory":
        j = jws.factory(txt)
        if j is None:
            raise Prune()
    elif how == "used for none":
        attempt(j.verify_compact, ref.jws_make({"alg": "none"}, b"e", None),
                [], True)
    got = attempt(j.verify_json, txt, [K.build(keyname(good), "keyrep",
                                               False)],
                  **({} if allow == "default" else {"allow_none": allow}))
    check(raised(got), "unsigned entry %d of %d accepted: %s" % (pos, n, hdr))
    c.done("rejected")


def scopes(tier):
    return [
        Scope("unsigned tokens", unsigned, 2, "28 alg headers x 5 signature "
              "parts x 5 key lists x allow_none x 5 instance histories x 4 "
              "APIs x 3 sigalg"),
        Scope("signing", signing, 1, "20 algorithms x 7 key lists x 3 APIs "
              "x 4 payloads"),
        Scope("unsigned entries", entries, 2, "an unsigned entry at each "
              "position among 2 to 4 signatures, 10 headers"),
    ]
