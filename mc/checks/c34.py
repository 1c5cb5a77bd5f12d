"""C34: key sets hold exactly the keys that were loaded into them."""
import functools
import gzip
import json
import os

from mc.core import Scope, check, Prune
from mc import ref, keys as K
from mc.jose import *
from mc.server import Server, response, free_port

for _v in ("http_proxy", "HTTP_PROXY", "all_proxy", "ALL_PROXY",
           "REQUESTS_CA_BUNDLE"):
    os.environ.pop(_v, None)
os.environ["no_proxy"] = "*"


# --- documents ---------------------------------------------------------------------
# a key is described by (name, kid, use): what the set has to hold

def spec(d):
    name, kid, use = d
    if name == "odd":
        s = {"kty": "foo", "p": "x"}
    elif name in ("ec-lower", "OCT"):
        s = {"kty": {"ec-lower": "ec", "OCT": "OCT"}[name]}
    else:
        s = ref.jwk_of(K.MAT[name])
    if kid:
        s["kid"] = kid
    if use:
        s["use"] = use
    return s


E1, E2 = ("p256.3", "k1", "sig"), ("p384.3", "", "")
O1, O2 = ("h0.32", "k1", ""), ("h1.5", "\u00e5", "enc")
R1, R2 = ("r0", "k2", "enc"), ("r1", "", "")
X1 = ("odd", "k1", "")
L1, L2 = ("ec-lower", "", ""), ("OCT", "k3", "")

GOOD = {"none": (), "E1": (E1,), "O1 R1": (O1, R1), "same twice": (E2, E2),
        "R2 X1 O2": (R2, X1, O2)}


def off_curve():
    s = ref.jwk_of(K.MAT["p256.3"])
    return dict(s, y=ref.b64e(ref.i2o(1, 32)))


BAD_KEYS = {
    "off curve": off_curve,
    "unknown curve": lambda: dict(spec(E1), crv="P-999"),
    "no curve point": lambda: {"kty": "EC", "crv": "P-256",
                               "x": "AA", "y": "AQ"},
    "no kty": lambda: {m: v for m, v in spec(E1).items() if m != "kty"},
    "n not base64url": lambda: dict(spec(R1), n="=!"),
    "e is a list": lambda: dict(spec(R1), e=[1]),
    "k not base64url": lambda: {"kty": "oct", "k": "a"},
    "null": lambda: None,
    "number": lambda: 7,
    "text": lambda: "x",
    "list": lambda: [],
    "bad x5c": lambda: {"kty": "RSA", "x5c": ["AAAA"]},
    "bad x5t": lambda: {"kty": "RSA", "x5c": [K.cert_b64(0)], "x5t": "AAAA"},
}
BAD_DOCS = {
    "empty": "", "not json": "{", "no keys": "{}", "keys null":
    '{"keys": null}', "keys number": '{"keys": 1}', "list": "[]",
    "null": "null", "keys text": '{"keys": "ab"}', "two": '{"keys": []} x',
}


def document(name):
    """-> (text, descriptions or None if it has to be refused)"""
    if name in GOOD:
        return json.dumps({"keys": [spec(d) for d in GOOD[name]]}), GOOD[name]
    if name in BAD_DOCS:
        return BAD_DOCS[name], None
    key, pos = name
    bad = BAD_KEYS[key]()
    lst = {"first": [bad, spec(E1)], "last": [spec(E1), bad],
           "middle": [spec(O1), bad, spec(R1)], "only": [bad]}[pos]
    return json.dumps({"keys": lst}), None


BAD = list(BAD_DOCS) + [(k, p) for k in BAD_KEYS
                        for p in ("first", "last", "middle", "only")]


# --- queries ---------------------------------------------------------------------------

def denotes(k, d):
    name, kid, use = d
    check(k.kid == kid and k.use == use, "kid %r use %r, not %r" % (
        k.kid, k.use, d))
    check(k.kty == spec(d)["kty"], "kty %r" % (k.kty,))
    if name in ("odd", "ec-lower", "OCT"):
        return
    m = K.MAT[name]
    if m[0] == "oct":
        check(bytes(k.key) == m[1], "octets")
    elif m[0] == "RSA":
        check((k.n, k.e) == (m[1].n, m[1].e) and k.key.n == m[1].n,
              "modulus")
    else:
        check((k.x, k.y) == m[2] and k.curve.name() == m[1], "point")


def agree(ks, want):
    """every query gives what the list of keys says"""
    got = list(ks)
    check(len(got) == len(want), "%d keys, not %d: %r" % (
        len(got), len(want), [k.kid for k in got]))
    for k, d in zip(got, want):
        denotes(k, d)
    check(len(ks) == len(want), "len is %d" % len(ks))
    check([id(k) for k in ks.keys()] == [id(k) for k in got], "keys()")
    check([id(k) for k in list(ks)] == [id(k) for k in got], "iteration")
    check(ks.kids() == [d[1] for d in want if d[1]], "kids() is %r" % (
        ks.kids(),))
    for kid in ("k1", "k2", "\u00e5", "k3", "other", "k", "", "K1", "1", "k11",
                " k1", "a\u030a", *sorted({d[1] for d in want[3:]})):
        check([id(k) for k in ks.by_kid(kid)] == [
            id(k) for k, d in zip(got, want) if d[1] == kid],
            "by_kid(%r)" % kid)
    types = [spec(d)["kty"] for d in want]
    for t in ("RSA", "rsa", "EC", "ec", "oct", "OCT", "foo", "none", "", "o", "octe",
              "rs", "c"):
        check([id(k) for k in ks[t]] == [
            id(k) for k, u in zip(got, types) if u.lower() == t.lower()],
            "[%r]" % t)
    check(sorted(ks.key_types()) == sorted(set(types)), "key_types() %r" % (
        ks.key_types(),))
    canon = {"rsa": "RSA", "ec": "EC", "oct": "oct", "foo": "foo"}
    exp = {}
    for k, u in zip(got, types):
        exp.setdefault(canon[u.lower()], []).append(id(k))
    check({t: [id(k) for k in l] for t, l in ks.as_dict().items()} == exp,
          "as_dict() %r" % (ks.as_dict(),))
    if all(t in ("RSA", "EC", "oct") for t in types):
        for text in (ks.dump_jwks(), str(ks), repr(ks)):
            check(json.loads(text) == {"keys": [spec(d) for d in want]},
                  "dumped %s" % text)
    else:
        check(len(json.loads(ks.dump_jwks())["keys"]) == len(want),
              "dumped %s" % ks.dump_jwks())


# --- histories ------------------------------------------------------------------------------

OPS = ([("load_jwks", d) for d in GOOD] +
       [("load_dict", d) for d in ("E1", "O1 R1")] +
       [("load_jwks", d) for d in ("not json", "no keys", "keys null",
                                   "keys text")] +
       [("load_jwks", (k, "last")) for k in BAD_KEYS] +
       [("load_jwks", ("off curve", "first")),
        ("load_dict", ("no kty", "middle")),
        ("load_dict", ("null", "last"))] +
       [("add", d) for d in (E1, O2, R1, X1, L1, L2)] +
       [("add bad", k) for k in BAD_KEYS] +
       [("append", d) for d in (E2, R2, O1)] +
       [("wrap_add", d) for d in (R1, R2, O1)] +
       [("wrap_add bad", w) for w in ("number", "none", "bytes")] +
       [("query", ""), ("other set", ""), ("iterate", "")])


def added(op):
    what, arg = op
    if what in ("load_jwks", "load_dict"):
        return document(arg)[1]
    if what in ("add", "append", "wrap_add"):
        return (arg,)
    if what in ("add bad", "wrap_add bad"):
        return None
    return ()


def step(state, op):
    return state + (added(op) or ())


def apply(ks, op, state):
    from jwkest import jwk
    what, arg = op
    if what == "load_jwks":
        return ks.load_jwks(document(arg)[0])
    if what == "load_dict":
        return ks.load_dict(json.loads(document(arg)[0]))
    if what == "add":
        return ks.add(spec(arg))
    if what == "add bad":
        return ks.add(BAD_KEYS[arg]())
    if what == "append":
        return ks.append(jwk.keyrep(spec(arg)))
    if what == "wrap_add":
        m = K.MAT[arg[0]]
        key = m[1] if m[0] == "RSA" else m[1].decode("latin-1")
        if m[0] == "oct":
            key = jwk_text(arg[0])
        return ks.wrap_add(key, use=arg[2], kid=arg[1])
    if what == "wrap_add bad":
        return ks.wrap_add({"number": 3, "none": None,
                            "bytes": bytearray(b"x")}[arg])
    if what == "query":
        return agree(ks, state)
    if what == "other set":
        return jwk.KEYS().load_jwks(document("O1 R1")[0])
    if what == "iterate":
        it = iter(ks)
        next(it, None)
        return [k for k in ks for _ in ks]


def jwk_text(name):
    return TEXT[name]


# symmetric keys that are text
K.MAT["h0.32"] = ("oct", b"0123456789abcdef0123456789abcdef")
K.MAT["h1.5"] = ("oct", b"abcde")
TEXT = {n: K.MAT[n][1].decode() for n in ("h0.32", "h1.5")}


DEEP = [("load_jwks", "E1"), ("load_jwks", ("off curve", "last")),
        ("add", O2), ("add bad", "no kty"), ("append", E2), ("wrap_add", O1),
        ("query", "")]
DEEP2 = [("load_dict", "O1 R1"), ("load_jwks", "not json"), ("add", X1)]


def run(history, c):
    from jwkest import jwk
    ks = jwk.KEYS()
    state = ()
    for i, op in enumerate(history):
        r = attempt(apply, ks, op, state)
        if op[0] == "query" and raised(r):
            raise r.e
        if added(op) is None:
            check(raised(r), "%r is accepted" % (op,))
        else:
            check(not raised(r), "%r fails: %r" % (op, r))
        state = step(state, op)
        # what was there before is still there, nothing else came in
        check(len(ks) == len(state), "%d keys after %r, not %d" % (
            len(ks), history[:i + 1], len(state)))
    agree(ks, state)
    c.done("%d keys" % len(state))


# --- every malformed document, on a set that has keys -----------------------------------

def malformed(c):
    from jwkest import jwk
    before = c.choose("before", ["none", "O1 R1"])
    name = c.choose("document", BAD)
    how = c.choose("how", ["load_jwks", "load_dict", "module"])
    text, _ = document(name)
    ks = jwk.KEYS().load_jwks(document(before)[0])
    if how == "load_jwks":
        r = attempt(ks.load_jwks, text)
    elif how == "module":
        r = attempt(jwk.load_jwks, text)
    else:
        try:
            d = json.loads(text)
        except ValueError:
            raise Prune()
        r = attempt(ks.load_dict, d)
    check(raised(r), "%r is loaded" % (text,))
    agree(ks, GOOD[before])
    agree(ks.load_jwks(document("E1")[0]), GOOD[before] + (E1,))
    c.done("refused")


# --- servers -------------------------------------------------------------------------------

def faults(body):
    """name -> (script, are the keys served?)   True: all is well"""
    ok = response(200, body, [("Content-Type", "application/json")])
    n = len(body)
    f = {
        "ok": ({"/": [ok]}, True),
        "ok in pieces": ({"/": [ok[:60], ok[60:100], ok[100:]]}, True),
        "no type": ({"/": [response(200, body)]}, True),
        "text/plain": ({"/": [response(200, body, [
            ("Content-Type", "text/plain")])]}, True),
        "html": ({"/": [response(200, body, [
            ("Content-Type", "text/html")])]}, True),
        "jwk-set": ({"/": [response(200, body, [
            ("Content-Type", "application/jwk-set+json")])]}, True),
        "charset": ({"/": [response(200, body, [
            ("Content-Type", "application/json; charset=utf-8")])]}, True),
        "until close": ({"/": [response(200, body, length=False)]}, True),
        "chunked": ({"/": [response(200, b"", [
            ("Transfer-Encoding", "chunked")], False) + b"5\r\n" + body[:5] +
            b"\r\n%x\r\n" % (n - 5) + body[5:] + b"\r\n0\r\n\r\n"]}, True),
        "gzip": ({"/": [response(200, gzip.compress(body, mtime=0), [
            ("Content-Encoding", "gzip")])]}, True),
        "redirect": ({"/": [response(302, b"", [("Location", "/x")])],
                      "/x": [ok]}, True),
        "two redirects": ({"/": [response(307, b"", [("Location", "/x")])],
                           "/x": [response(301, b"", [("Location", "/y")])],
                           "/y": [ok]}, True),
        # from here on no keys are served
        "refused": (None, False),
        "reset": ({"/": ["reset"]}, False),
        "closed": ({"/": ["close"]}, False),
        "half a header": ({"/": [ok[:20], "close"]}, False),
        "no http": ({"/": [body]}, False),
        "redirect loop": ({"/": [response(302, b"", [("Location", "/")])]},
                          False),
        "redirect to nothing": ({"/": [response(302, b"", [
            ("Location", "/gone")])]}, False),
        "redirect without location": ({"/": [response(302, body)]}, False),
        "bad gzip": ({"/": [response(200, body, [
            ("Content-Encoding", "gzip")])]}, False),
        "cut gzip": ({"/": [response(200, gzip.compress(body, mtime=0)[:-12],
                                     [("Content-Encoding", "gzip")])]},
                     None),
        "chunked, cut": ({"/": [response(200, b"", [
            ("Transfer-Encoding", "chunked")], False) + b"%x\r\n" % n +
            body[:-3]]}, False),
        "chunked, no end": ({"/": [response(200, b"", [
            ("Transfer-Encoding", "chunked")], False) + b"%x\r\n" % n +
            body + b"\r\n"]}, None),
        "reset in body": ({"/": [ok[:-4], "reset"]}, False),
        "html page": ({"/": [response(200, b"<html>nothing</html>")]}, False),
        "nothing": ({"/": [response(200, b"")]}, False),
    }
    # JSON is UTF-8: other octets, wherever they are, make it no document
    # (the name of a key must not become another one)
    for what, o in (("ff", b"\xff"), ("cut", b"\xc3"), ("lone", b"\x80"),
                    ("overlong", b"\xc0\xaf"), ("latin-1", b"\xe5")):
        for typ in ("", "application/json", "application/json; charset=utf-8"):
            hd = [("Content-Type", typ)] if typ else []
            for at, x in (("member", body[:1] + b'"note": "a' + o + b'b", ' +
                           body[1:]),
                          ("name", body.replace(b'"kid": "', b'"kid": "' + o)
                           if b'"kid": "' in body else o + body),
                          ("end", body + o)):
                if typ and at != "member":
                    continue
                f["%s, %s, %s" % (what, at, typ)] = (
                    {"/": [response(200, x, hd)]}, False)
    for s in (201, 202, 203, 204, 206, 300, 304, 400, 401, 403, 404, 410, 418,
              429, 500, 502, 503):
        f["status %d" % s] = ({"/": [response(s, body if s not in (204, 304)
                                              else b"")]}, False)
    for what, cut in (("1", 1), ("2", 2), ("3", 3), ("10", 10),
                      ("half", n // 2), ("all but 1", n - 1), ("all", n)):
        f["cut by %s" % what] = ({"/": [response(200, body[:n - cut],
                                                length=n)]}, False)
    return f


FAULTS = list(faults(b"{}" * 30))


def serve(c, docs, entry):
    from jwkest import jwk
    name = c.choose("document", docs)
    fault = c.choose("server", FAULTS)
    before = c.choose("before", ["none", "E1"])
    text, keys = document(name)
    body = text.encode()
    if c.flag("raw UTF-8"):
        try:
            body = json.dumps(json.loads(text), ensure_ascii=False).encode()
        except ValueError:
            raise Prune()
    script, served = faults(body)[fault]
    if script is None:
        srv, url = None, "http://127.0.0.1:%d/" % free_port()
    else:
        srv = Server(script)
        url = srv.url()
    try:
        ks = jwk.KEYS().load_jwks(document(before)[0])
        if entry == "KEYS":
            r = attempt(ks.load_from_url, url, timeout=20)
        else:
            r = attempt(jwk.load_jwks_from_url, url)
            if not raised(r):
                got, ks = r, jwk.KEYS()
                for k in got:
                    ks.append(k)
                before = "none"
    finally:
        if srv:
            srv.close()
    if served is None:      # either is fine
        served = not raised(r)
    if served and keys is not None:
        check(not raised(r), "%s: %r" % (fault, r))
        agree(ks, GOOD[before] + keys)
        c.done("loaded")
    else:
        check(raised(r), "%s: %r is loaded" % (fault, name))
        agree(ks, GOOD[before])
        c.done("raised")


def sequence(c, depth):
    """one set, loaded from a server that answers differently each time"""
    from jwkest import jwk
    names = ["ok", "status 500", "reset", "cut by 10", "status 404",
             "html page", "redirect"]
    docs = ["E1", "O1 R1"]
    seq = [(c.choose("server %d" % i, names), c.choose("document %d" % i,
                                                       docs))
           for i in range(depth)]
    script = {}
    for i, (f, d) in enumerate(seq):
        sc, _ = faults(document(d)[0].encode())[f]
        for p, a in sc.items():
            script["/%d%s" % (i, p)] = [
                x.replace(b"Location: /", b"Location: /%d/" % i)
                if isinstance(x, bytes) else x for x in a]
    srv = Server(script)
    want = ()
    ks = jwk.KEYS()
    try:
        for i, (f, d) in enumerate(seq):
            r = attempt(ks.load_from_url, srv.url("/%d/" % i), timeout=20)
            if f in ("ok", "redirect"):
                check(not raised(r), "%s: %r" % (f, r))
                want += GOOD[d]
            else:
                check(raised(r), "%s: keys are loaded" % f)
            agree(ks, want)
    finally:
        srv.close()
    c.done("%d keys" % len(want))


def wrapped(c):
    """what wrap_add makes of each kind of key instance"""
    from jwkest import jwk, jws, ecc
    what = c.choose("instance", ["RSA", "RSA public", "text", "P-256", "P-384",
                                 "P-521"])
    kid, use = c.choose("kid", ["", "K"]), c.choose("use", ["", "sig"])
    n = c.choose("keys before", [0, 1])
    ks = jwk.KEYS()
    for _ in range(n):
        ks.append(jwk.keyrep(spec(E1)))
    inst = {"RSA": K.MAT["r0"][1], "RSA public": K.MAT["r0"][1].public_key(),
            "text": "0123456789abcdef"}.get(what) or \
        ecc.NISTEllipticCurve.by_name(what)
    ks.wrap_add(inst, use=use, kid=kid)
    check(len(ks) == n + 1, "%d keys" % len(ks))
    k = list(ks)[n]
    check((k.kid, k.use) == (kid, use), "kid %r use %r" % (k.kid, k.use))
    alg = {"RSA": "RS256", "RSA public": "RS256", "text": "HS256",
           "P-256": "ES256", "P-384": "ES384", "P-521": "ES512"}[what]
    if what[0] == "P":
        check(k.kty == "EC" and k.crv == what and (k.x, k.y) ==
              ref.CURVES[what].pub(k.d), "not a key pair of %s" % what)
        mat = ("EC", what, (k.x, k.y), k.d)
    elif what == "text":
        check(k.kty == "oct", "kty %r" % k.kty)
        mat = ("oct", b"0123456789abcdef")
    else:
        check(k.kty == "RSA" and k.key.has_private() == (what == "RSA"),
              "private part")
        mat = K.MAT["r0"]
    t = ref.jws_make(dict({"kid": kid} if kid else {}, alg=alg), b"data", mat)
    check(jws.JWS().verify_compact(t, list(ks)) == "data", "verification")
    if what != "RSA public":
        t = jws.JWS("data", alg=alg).sign_compact([k])
        check(ref.jws_open(t, K.pub(mat), alg)[1] == b"data", "signature")
    c.done("wrapped")


# --- keys located by the caller's jku and x5u ------------------------------------------------

def located(c):
    """the caller, or a token whose headers the caller chose to trust, says
    where the key is"""
    from jwkest import jws
    param = c.choose("parameter", ["jku", "x5u"])
    fault = c.choose("server", FAULTS)
    content = c.choose("content", ["right", "wrong"])
    how = c.choose("how", ["argument", "header", "json", "argument, json"])
    mat = K.MAT["r0"]
    n = "r0" if content == "right" else "r1"
    body = K.cert_pem(int(n[1])).encode() if param == "x5u" else json.dumps(
        {"keys": [ref.jwk_of(K.MAT[n], kid="K")]}).encode()
    script, served = faults(body)[fault]
    srv = Server(script) if script is not None else None
    url = srv.url() if srv else "http://127.0.0.1:%d/" % free_port()
    hdr = {"alg": "RS256"}
    if param == "jku":
        hdr["kid"] = "K"
    if how[:8] != "argument":
        hdr[param] = url
    tok = ref.jws_make(hdr, b"data", mat)
    try:
        if how[-4:] == "json":
            p, d, s = tok.split(".")
            kw = {param: url} if how[:8] == "argument" else {}
            r = attempt(jws.JWS(**kw).verify_json, json.dumps(
                {"payload": d, "signatures": [{"protected": p,
                                               "signature": s}]}))
        elif how == "header":
            r = attempt(jws.factory(tok).verify_compact, tok)
            if raised(r) and r.name == "NoSuitableSigningKeys":
                r2 = attempt(jws.JWS(**hdr).verify_compact, tok)
                r = r2
        else:
            r = attempt(jws.JWS(**dict(hdr, **{param: url})).verify_compact,
                        tok)
    finally:
        if srv:
            srv.close()
    good = content == "right"
    if served is None or param == "x5u" and fault.startswith("cut") and \
            good:     # a certificate may be followed by anything
        served = not raised(r)
    if good and served:
        check(r == "data", "%s of %s: %r" % (fault, param, r))
        c.done("verified")
    else:
        check(raised(r), "%s of %s: verified" % (fault, param))
        c.done("rejected")


DOCS = [
    [("r0", ""), ("r1", ""), ("p256.3", "")],
    [("r1", "k1"), ("r0", "k2"), ("p256.4", ""), ("p256.3", "k2")],
    [("h0.32", ""), ("p384.3", "k1"), ("p256.3", "k1"), ("r0", "k1")],
    [("h0.32", "k1"), ("h1.16", "k2")],
    [],
]


def located_set(c):
    """a set of keys at the caller's own jku: each of them serves, and no
    other"""
    from jwkest import jws, jwe
    from mc import jwe as J
    doc = c.choose("document", range(len(DOCS)))
    keys = DOCS[doc]
    what = c.choose("operation", ["verify", "verify json", "encrypt"])
    kid = c.choose("kid", ["", "k1", "k2", "k3"])
    srv = Server({"/": [response(200, json.dumps({"keys": [
        spec((n, k, "")) for n, k in keys]}).encode())]})
    kw = {"jku": srv.url()}
    own = c.flag("kid is the caller's")
    try:
        if what == "encrypt":
            if not own:
                raise Prune()
            alg, kt = c.choose("alg", [("RSA-OAEP", "RSA"), ("ECDH-ES", "EC"),
                                       ("A128KW", "oct")])
            if kid:
                kw["kid"] = kid
            t = attempt(lambda: jwe.JWE(b"located", alg=alg,
                                        enc="A128CBC-HS256", **kw).encrypt())
            fit = [n for n, k in keys if K.MAT[n][0] == kt and
                   (not kid or k == kid)]
            if not fit:
                check(raised(t), "encrypted for a key that isn't there: %r" %
                      (t,))
                return c.done("refused")
            check(not raised(t), "%s for %s: %r" % (alg, fit, t))
            got = attempt(ref.jwe_open, t, J.mat(alg, fit[0]))
            check(not raised(got) and got[1] == b"located",
                  "%s: not for the first key that fits: %r" % (alg, got))
            return c.done("encrypted")
        alg, signer = c.choose("signed", [
            ("RS256", "r0"), ("RS256", "r1"), ("RS256", "r2"),
            ("ES256", "p256.3"), ("ES256", "p256.4"), ("ES256", "p256.5"),
            ("ES384", "p384.3"), ("HS256", "h0.32"), ("HS256", "h1.16"),
            ("PS256", "r0")])
        hdr = {"alg": alg}
        if kid and own:
            if what == "verify json":   # has a kid for each signature
                raise Prune()
            kw["kid"] = kid
        elif kid:
            hdr["kid"] = kid
        tok = ref.jws_make(hdr, b"located", K.MAT[signer])
        walg = c.flag("alg given")
        if walg:
            kw["alg"] = alg
        if what == "verify":
            r = attempt(jws.JWS(**kw).verify_compact, tok)
        else:
            h, p, s = tok.split(".")
            r = attempt(jws.JWS(**kw).verify_json, json.dumps(
                {"payload": p, "protected": h, "signature": s}))
    finally:
        srv.close()
    mine = [k for n, k in keys if n == signer]
    say = "%s by %s, kid %r of %s, document %s: %r" % (
        alg, signer, kid, "the caller" if own else "the token", keys, r)
    if not mine or kid and not any(k in ("", kid) for k in mine):
        check(raised(r), "accepted " + say)
        return c.done("rejected")
    if walg and (not kid or kid in mine):
        check(r == "located", "refused " + say)
        return c.done("verified")
    check(raised(r) or r == "located", say)
    c.done("either")


def located_sequence(c, depth):
    """the keys at the caller's URL change, or can't be had, from one
    operation to the next: only what is served now counts"""
    from jwkest import jws, jwe
    from mc import jwe as J
    param = c.choose("parameter", ["jku", "x5u"])
    srv = Server({})
    said = []
    try:
        for i in range(depth):
            served = c.choose("served %d" % i, ["r0", "r1", "500", "reset"])
            what = c.choose("operation %d" % i, ["verify r0", "verify r1",
                                                 "json r0", "encrypt"])
            if param == "x5u" and what == "encrypt" and served == "500":
                raise Prune()
            said.append((served, what))
            if served[0] == "r":
                n = int(served[1]) if served != "reset" else 0
                body = K.cert_pem(n).encode() if param == "x5u" else \
                    json.dumps({"keys": [ref.jwk_of(K.MAT["r%d" % n])]}
                               ).encode()
            srv.script["/"] = ["reset"] if served == "reset" else [
                response(500, b"{}")] if served == "500" else [
                    response(200, body)]
            kw = {param: srv.url()}
            if what == "encrypt":
                t = attempt(lambda: jwe.JWE(
                    b"located", alg="RSA-OAEP", enc="A128CBC-HS256",
                    **kw).encrypt())
                if served in ("r0", "r1"):
                    got = attempt(ref.jwe_open, t, K.MAT[served])
                    check(not raised(t) and got[1] == b"located",
                          "%r: %r" % (said, t))
                else:
                    check(raised(t), "encrypted, %r: %r" % (said, t))
                continue
            signer = what[-2:]
            tok = ref.jws_make({"alg": "RS256"}, b"located", K.MAT[signer])
            if what[0] == "v":
                r = attempt(jws.JWS(alg="RS256", **kw).verify_compact, tok)
            else:
                h, p, s = tok.split(".")
                r = attempt(jws.JWS(**kw).verify_json, json.dumps(
                    {"payload": p, "protected": h, "signature": s}))
            if signer == served:
                check(r == "located", "refused, %r: %r" % (said, r))
            else:
                check(raised(r), "verified, %r" % (said,))
    finally:
        srv.close()
    c.done("as served")


def many(c):
    """sets of many keys"""
    from jwkest import jwk
    n = c.choose("keys", [9, 16, 17, 32, 33, 65, 129, 257])
    how = c.choose("how", ["load_jwks", "load_dict", "add", "append",
                           "in two", "serve", "dump"])
    bad = c.choose("a bad one", ["none", "first", "middle", "last"])
    if bad != "none" and how in ("append", "dump"):
        raise Prune()
    names = ["h0.32", "p256.3", "odd", "h1.5"] + (
        ["r0"] if n < 64 else [])
    want = tuple((names[i % len(names)], ["k%d" % i, "", "same"][i % 3],
                  ["", "sig", "enc"][i % 7 % 3]) for i in range(n))
    specs = [spec(d) for d in want]
    ks = jwk.KEYS()
    out = list(specs)
    if bad != "none":
        out.insert({"first": 0, "middle": n // 2, "last": n}[bad],
                   off_curve())
    text = json.dumps({"keys": out})

    def go():
        if how == "load_jwks":
            ks.load_jwks(text)
        elif how == "load_dict":
            ks.load_dict({"keys": out})
        elif how == "add":
            for s in out:
                ks.add(s)
        elif how == "append":
            for s in out:
                ks.append(jwk.keyrep(s))
        elif how == "in two":
            ks.load_dict({"keys": out[:n // 2]})
            ks.load_dict({"keys": out[n // 2:]})
        elif how == "dump":
            ks.load_jwks(text)
            other = jwk.KEYS()
            other.load_jwks(ks.dump_jwks())
            check(len(other) == n, "%d of %d keys in the dump" % (
                len(other), n))
            check([k.kid for k in other] == [d[1] for d in want],
                  "other keys in the dump")
        else:
            srv = Server({"/": [response(200, text.encode())]})
            try:
                ks.load_from_url(srv.url(), timeout=20)
            finally:
                srv.close()
    r = attempt(go)
    if raised(r) and bad == "none":
        raise r.e
    if bad != "none":
        check(raised(r), "a bad key is accepted")
        keep = {"add": {"first": 0, "middle": n // 2, "last": n}[bad],
                "in two": 0 if bad == "first" else n // 2}.get(how, 0)
        want = want[:keep]
    agree(ks, want)
    c.done("%d" % len(want))


def scopes(tier):
    th = tier == "thorough"
    return [
        Scope("histories", lambda c: run([
            c.choose("op %d" % i, OPS) for i in range(3 if th else 2)], c), 2,
            "all histories of %d of %d operations"
            % (3 if th else 2, len(OPS))),
        Scope("deep histories", lambda c: run([
            c.choose("op %d" % i, DEEP + (DEEP2 if th else []))
            for i in range(5 if th else 4)], c), 3,
            "histories of %d of %d operations" % (
                (5, len(DEEP + DEEP2)) if th else (4, len(DEEP)))),
        Scope("malformed documents", malformed, 1,
              "%d documents x 3 loaders x 2 sets" % len(BAD)),
        Scope("servers", lambda c: serve(
            c, ["E1", "R2 X1 O2", "none", "not json", ("off curve", "last")],
            "KEYS"), 2, "5 documents x %d server behaviours x 2 sets x "
            "encoding" % len(FAULTS)),
        Scope("load_jwks_from_url", lambda c: serve(
            c, ["O1 R1", ("null", "first")], "module"), 2,
            "2 documents x server behaviours"),
        Scope("server sequences", lambda c: sequence(c, 3 if th else 2), 2,
              "all sequences of 7 behaviours x 2 documents"),
        Scope("wrapped keys", wrapped, 1,
              "6 kinds of key instances x kid x use x position"),
        Scope("jku and x5u", located, 2,
              "2 parameters x %d behaviours x right/wrong key x 4 APIs"
              % len(FAULTS)),
        Scope("many keys", many, 2,
              "sets of up to 257 keys x 7 ways to load x a bad key"),
        Scope("located sequences", lambda c: located_sequence(
            c, 3 if th else 2), 3, "sequences of %d of 4 answers x 4 "
            "operations, jku and x5u" % (3 if th else 2)),
        Scope("located sets", located_set, 2,
              "5 documents of up to 4 keys x kid x verify, verify_json, "
              "encrypt x algorithm and signer"),
    ]
