"""C06: JSON serialization of JWS: every signature must verify."""
import functools
import json

from mc.core import Scope, check, Prune
from mc import ref, keys as K
from mc.jose import *

BODY = b'{"a":1}'
OTHER = b'{"a":2}'

GOOD = ["HS256", "RS256", "ES256", "PS384", "HS512 kid", "extra protected",
        "unprotected", "unprotected kid"]
BAD = ["bit", "empty signature", "no signature", "other payload", "none",
       "none signed", "header swapped", "wrong key", "no protected",
       "protected not json", "unknown kid", "crit", "signature not text",
       "not an object", "null", "alg unprotected", "unknown alg",
       "truncated", "signature of first", "unprotected unknown kid",
       "unprotected kid of another"]


@functools.lru_cache(None)
def entry(kind, body=BODY):
    def e(hdr, name, b=body, unprot=None, sign=None):
        t = ref.jws_make(hdr, b, K.MAT[name], alg=sign).split(".")
        d = {"protected": t[0], "signature": t[2]}
        if unprot is not None:
            d["header"] = unprot
        return d
    if kind in ("HS256", "RS256", "ES256", "PS384"):
        return e({"alg": kind}, keyname(kind))
    if kind == "HS512 kid":
        return e({"alg": "HS512", "kid": "k5"}, keyname("HS512"))
    if kind == "extra protected":
        return e({"typ": "JOSE", "alg": "HS256", "x": {"y": [1]}},
                 keyname("HS256"))
    if kind == "unprotected":
        return e({"alg": "ES256"}, keyname("ES256"), unprot={"a": "b"})
    if kind == "unprotected unknown kid":
        return e({"alg": "HS512"}, keyname("HS512"), unprot={"kid": "nobody"})
    if kind == "unprotected kid of another":
        return e({"alg": "HS256"}, keyname("HS256"), unprot={"kid": "k5"})
    if kind == "unprotected kid":
        return e({"alg": "HS512"}, keyname("HS512"), unprot={"kid": "k5"})
    g = e({"alg": "HS256"}, keyname("HS256"))
    if kind == "bit":
        g["signature"] = b64flip(g["signature"], 7, 3)
    elif kind == "empty signature":
        g["signature"] = ""
    elif kind == "no signature":
        del g["signature"]
    elif kind == "other payload":
        return e({"alg": "HS256"}, keyname("HS256"), b=OTHER)
    elif kind == "none":
        g = {"protected": ref.b64e(b'{"alg":"none"}'), "signature": ""}
    elif kind == "none signed":
        g["protected"] = ref.b64e(b'{"alg":"none"}')
    elif kind == "header swapped":
        g["protected"] = ref.b64e(b'{"alg":"HS256" }')
    elif kind == "wrong key":
        return e({"alg": "HS256"}, "h7.32")
    elif kind == "no protected":
        del g["protected"]
    elif kind == "protected not json":
        g["protected"] = ref.b64e(b'{"alg":"HS256"')
    elif kind == "unknown kid":
        return e({"alg": "HS512", "kid": "nobody"}, keyname("HS512"))
    elif kind == "crit":
        return e({"alg": "HS256", "crit": ["x"], "x": 1}, keyname("HS256"))
    elif kind == "signature not text":
        g["signature"] = 5
    elif kind == "not an object":
        return [g["protected"], g["signature"]]
    elif kind == "null":
        return None
    elif kind == "alg unprotected":
        # signature over an empty protected header
        sig = ref.sig_sign("HS256", ("." + ref.b64e(body)).encode(),
                           K.MAT[keyname("HS512")])
        return {"header": {"alg": "HS256"}, "signature": ref.b64e(sig)}
    elif kind == "unknown alg":
        return e({"alg": "HS1"}, keyname("HS256"), sign="HS256")
    elif kind == "truncated":
        g["signature"] = ref.b64e(ref.b64d(g["signature"])[:-1])
    elif kind == "signature of first":
        t = ref.jws_make({"alg": "RS256"}, body, K.MAT["r0"]).split(".")
        g["signature"] = t[2]
    else:
        raise ValueError(kind)
    return g


def allkeys():
    return [K.build(keyname("HS256"), "octets"),
            K.build(keyname("HS512"), "octets", kid="k5"),
            K.build("r0", "object", False),
            K.build(keyname("ES256"), "keyrep", False)]


def usable(kind, keys):
    """would the kid/keys selection let this entry verify"""
    return True


def entries(n, alphabet):
    def body(c):
        from jwkest import jws
        from jwkest.jws import JWS
        kinds = [c.choose("entry %d" % i, alphabet) for i in range(n)]
        how = c.choose("instance", ["JWS()", "factory", "allow_none"])
        doc = {"payload": ref.b64e(BODY),
               "signatures": [entry(k) for k in kinds]}
        txt = json.dumps(doc)
        j = JWS()
        if how == "factory":
            j = jws.factory(txt)
            check(j is not None, "factory doesn't know it: %s" % txt)
        keys = allkeys()
        r = attempt(j.verify_json, txt, keys, how == "allow_none")
        good = all(k in GOOD for k in kinds)
        if how == "allow_none" and any(k.startswith("none") for k in kinds):
            raise Prune()           # C03
        if good:
            check(r == {"a": 1}, "rejected: %s -> %r" % (kinds, r))
            check(j.msg == {"a": 1}, "JWS.msg %r" % (j.msg,))
            c.done("accepted")
        else:
            check(raised(r), "accepted with %s: %r" % (kinds, r))
            c.done("rejected")
    return body


def flattened(c):
    from jwkest import jws
    from jwkest.jws import JWS
    kind = c.choose("entry", GOOD + BAD)
    how = c.choose("instance", ["JWS()", "factory"])
    as_bytes = c.flag("bytes")
    e = entry(kind)
    if not isinstance(e, dict):
        raise Prune()
    txt = json.dumps(dict(e, payload=ref.b64e(BODY)))
    j = JWS()
    if how == "factory":
        j = jws.factory(txt)
        if j is None:
            check(kind not in GOOD, "factory doesn't know it: %s" % txt)
            c.done("not a JWS")
            return
    r = attempt(j.verify_json, txt.encode() if as_bytes else txt, allkeys())
    if kind in GOOD:
        check(r == {"a": 1}, "rejected: %s -> %r" % (kind, r))
        c.done("accepted")
    else:
        check(raised(r), "accepted: %s -> %r" % (kind, r))
        c.done("rejected")


def documents(c):
    """malformed documents"""
    from jwkest.jws import JWS
    sigs = c.choose("signatures", [
        "absent", [], {}, "", None, 0, "text", "entry", "dict of entries",
        "good"])
    pl = c.choose("payload", ["good", "absent", "other", None, 1, {"a": 1},
                              "@@@", "empty", "padded"])
    top = c.choose("top level", ["nothing", "signature", "both",
                                 "header only"])
    d = {}
    if pl == "good":
        d["payload"] = ref.b64e(BODY)
    elif pl == "other":
        d["payload"] = ref.b64e(OTHER)
    elif pl == "empty":
        d["payload"] = ""
    elif pl == "padded":
        d["payload"] = ref.b64e(BODY) + "="
    elif pl != "absent":
        d["payload"] = pl
    g = entry("HS256")
    if sigs == "entry":
        d["signatures"] = g
    elif sigs == "dict of entries":
        d["signatures"] = {"0": g}
    elif sigs == "good":
        d["signatures"] = [g]
    elif sigs != "absent":
        d["signatures"] = sigs
    if top == "signature":
        d["signature"] = g["signature"]
    elif top == "both":
        d.update(g)
    elif top == "header only":
        d["protected"] = g["protected"]
    r = attempt(JWS().verify_json, json.dumps(d), allkeys())
    fine = pl == "good" and (
        (sigs == "good" and top == "nothing") or
        (sigs == "absent" and top == "both"))
    if fine:
        check(r == {"a": 1}, "rejected: %s -> %r" % (d, r))
        c.done("accepted")
        return
    if pl == "good" and (sigs == "good" or top == "both"):
        # both serializations at once: no verdict except that it was signed
        check(raised(r) or r == {"a": 1}, "got %r" % (r,))
        c.done("either")
        return
    check(raised(r), "accepted: %s -> %r" % (d, r))
    c.done("rejected")


def bothforms(c):
    """members of both serializations: if the list counts, all of it does"""
    from jwkest.jws import JWS
    n = c.choose("entries", [2, 3])
    bad = c.choose("flawed", range(n))
    kind = c.choose("flaw", [k for k in BAD if not k.startswith("not an obj")
                             and k != "null"])
    top = c.choose("top", ["HS256", "RS256", "as first"])
    members = c.choose("members", [("protected", "signature"),
                                   ("signature",), ("protected",)])
    order = c.choose("order", ["list first", "list last"])
    es = [entry(["HS256", "RS256", "ES256"][i]) for i in range(n)]
    es[bad] = entry(kind)
    t = es[0] if top == "as first" else entry(top)
    t = {m: t[m] for m in members if m in t}
    d = {"payload": ref.b64e(BODY)}
    d.update(dict({"signatures": es}, **t) if order == "list first" else
             dict(t, signatures=es))
    r = attempt(JWS().verify_json, json.dumps(d), allkeys())
    check(raised(r), "accepted with %s at %d: %r" % (kind, bad, r))
    c.done("rejected")


PROT = [None, {}, {"alg": "HS256"}, {"alg": "ES256"},
        {"alg": "RS256", "kid": "kr"}, {"typ": "JOSE"}, {"x": [1, {"y": 2}]},
        {"alg": "PS512", "n": 1}]
UNPROT = [None, {}, {"a": "b"}, {"jku": "http://localhost/x", "n": 1}]


def signkeys():
    return [K.build(keyname("HS256"), "octets"),
            K.build("r0", "object", True, kid="kr"),
            K.build(keyname("ES256"), "keyrep", True)]


SNAME = {"HS": "h0.32", "RS": "r0", "PS": "r0", "ES": "p256.3"}


def signing(n):
    def body(c):
        from jwkest.jws import JWS
        alg = c.choose("alg", ["HS256", "ES256", "RS256"])
        heads = None
        if n:
            heads = []
            for i in range(n):
                p = c.choose("protected %d" % i, PROT)
                u = c.choose("unprotected %d" % i, UNPROT)
                heads.append((json.loads(json.dumps(p)),
                              json.loads(json.dumps(u))))
        want = json.loads(json.dumps(heads))
        flat = c.flag("flatten")
        msg = c.choose("payload", [
            "text", {"a": 1}, b"\xff\x00"] if n < 2 else [{"a": 1}])
        keys = signkeys()
        txt = JWS(msg, alg=alg).sign_json(keys, heads, flatten=flat)
        d = json.loads(txt)
        if want is None:
            want = [(None, None)]
        if flat and len(want) == 1:
            check("signatures" not in d, "not flattened: %s" % txt)
            es = [{k: d[k] for k in d if k != "payload"}]
        else:
            check(set(d) == {"payload", "signatures"}, "members %s" % txt)
            es = d["signatures"]
        check(len(es) == len(want), "number of signatures: %s" % txt)
        check(ref.b64d(d["payload"]) == payload_octets(msg), "payload")
        for e, (p, u) in zip(es, want):
            p = p or {}
            a = p.get("alg", alg)
            tok = ".".join([e["protected"], d["payload"], e["signature"]])
            hdr, _ = ref.jws_open(tok, K.MAT[SNAME[a[:2]]], a)
            for k in p:
                check(k in hdr and hdr[k] == p[k],
                      "protected header %s lost: %r" % (k, hdr))
            check(set(hdr) - set(p) <= {"alg", "kid"},
                  "surplus protected headers %r for %r" % (hdr, p))
            if a[:2] in ("RS", "PS"):
                check(hdr.get("kid") == "kr", "kid %r" % hdr)
            else:
                check("kid" not in hdr, "kid %r" % hdr)
            check((e.get("header") or {}) == (u or {}),
                  "unprotected header %r for %r" % (e.get("header"), u))
        pub = [K.build(keyname("HS256"), "octets"),
               K.build("r0", "object", False, kid="kr"),
               K.build(keyname("ES256"), "keyrep", False)]
        got = JWS().verify_json(txt, pub)
        check(same(got, payload_value(payload_octets(msg))), "got %r" %
              (got,))
        c.done("%d signatures" % len(es))
    return body


def somekeys(c):
    """an entry whose key the caller doesn't have makes it fail"""
    from jwkest.jws import JWS
    kinds = [c.choose("entry %d" % i, GOOD) for i in range(2)]
    have = [c.flag("key %d" % i) for i in range(4)]
    keys = [k for k, h in zip(allkeys(), have) if h]
    if not keys:
        keys = [K.build("h9.32", "octets")]
    need = {"HS256": 0, "extra protected": 0, "HS512 kid": 1,
            "unprotected kid": 1, "RS256": 2, "PS384": 2, "ES256": 3,
            "unprotected": 3}
    txt = json.dumps({"payload": ref.b64e(BODY),
                      "signatures": [entry(k) for k in kinds]})
    r = attempt(JWS().verify_json, txt, keys)
    if all(have[need[k]] for k in kinds):
        check(r == {"a": 1}, "rejected: %r" % (r,))
        c.done("accepted")
    else:
        check(raised(r), "accepted %s with only %s" % (kinds, have))
        c.done("rejected")


def payload_tamper(c):
    """every bit of the common payload counts for every signature"""
    from jwkest.jws import JWS
    kinds = c.choose("entries", [["HS256"], ["RS256"], ["ES256"],
                                 ["HS256", "RS256"], ["ES256", "HS256"]])
    flat = c.flag("flat")
    if flat and len(kinds) > 1:
        raise Prune()
    pos = c.choose("octet", range(len(BODY)))
    bit = c.choose("bit", range(8))
    p = b64flip(ref.b64e(BODY), pos, bit)
    es = [entry(k) for k in kinds]
    d = dict(es[0], payload=p) if flat else {"payload": p, "signatures": es}
    r = attempt(JWS().verify_json, json.dumps(d), allkeys())
    check(raised(r), "accepted")
    c.done("rejected")


def many(c):
    """documents with many signatures: one of them doesn't verify"""
    from jwkest.jws import JWS
    n = c.choose("signatures", [4, 5, 6, 8, 9, 12, 17, 33])
    pos = c.choose("flawed one", [None, 0, 1, 2, n // 2, n - 2, n - 1])
    kind = c.choose("flaw", ["bit", "none", "other payload", "unknown kid"]) \
        if pos is not None else None
    alike = c.choose("others", ["alike", "different"])
    es = [dict(entry("HS256" if alike == "alike" else
                     ["HS256", "RS256", "HS512 kid", "extra protected"][i % 4]))
          for i in range(n)]
    if kind:
        es[pos] = entry(kind)
    r = attempt(JWS().verify_json, json.dumps(
        {"payload": ref.b64e(BODY), "signatures": es}), allkeys())
    if kind:
        check(raised(r), "accepted with %s at %d of %d" % (kind, pos, n))
        c.done("rejected")
    else:
        check(r == {"a": 1}, "%d signatures: %r" % (n, r))
        c.done("accepted")


def large(c):
    """one octet of a long payload counts"""
    from jwkest.jws import JWS
    n = c.choose("length", LARGE)
    kinds = c.choose("algs", [["HS256"], ["RS256"], ["HS256", "RS256"]])
    at = c.choose("flipped", [None, 0, n // 2, n - 1])
    body = b'"' + pattern(n).hex()[:n].encode() + b'"'
    es = [entry(k, body) for k in kinds]
    b = bytearray(body)
    if at is not None:
        b[at + 1] = ord("z")
    r = attempt(JWS().verify_json, json.dumps(
        {"payload": ref.b64e(bytes(b)), "signatures": es}), allkeys())
    if at is None:
        check(r == body[1:-1].decode(), "%d: %r" % (n, r))
        c.done("accepted")
    else:
        check(raised(r), "%d octets, one changed at %d: accepted" % (n, at))
        c.done("rejected")


def scopes(tier):
    t = tier == "thorough"
    three = GOOD[:3] + BAD[:6]
    out = [
        Scope("one entry", entries(1, GOOD + BAD), 1, "29 kinds of entries"),
        Scope("two entries", entries(2, GOOD + BAD), 2, "all ordered pairs"),
        Scope("three entries", entries(3, GOOD + BAD if t else three), 2,
              "all ordered triples of 9 (thorough: 27) kinds"),
        Scope("flattened", flattened, 1, "29 kinds"),
        Scope("documents", documents, 1, "10 signatures members x 9 payloads "
              "x 4 top level members"),
        Scope("both forms", bothforms, 1, "2 or 3 entries, one flawed, and "
              "top level members"),
        Scope("sign default", signing(0), 1, ""),
        Scope("sign 1", signing(1), 2, "8 protected x 4 unprotected headers"),
        Scope("sign 2", signing(2), 3, "pairs of those"),
        Scope("missing keys", somekeys, 2, "pairs of entries x subsets of "
              "keys"),
        Scope("many signatures", many, 1, "4 to 33 signatures, one of 4 "
              "flaws at 6 positions"),
        Scope("large payloads", large, 2, "13 lengths to 64 KiB x one octet "
              "changed"),
        Scope("payload bits", payload_tamper, 1, "every bit"),
    ]
    return out
