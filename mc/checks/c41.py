"""C41: tokens are classified totally and exclusively."""
import functools
import itertools
import json

from mc.core import Scope, check, Prune
from mc import ref, keys as K, jwe as J
from mc.jose import *


def ask(tok):
    """-> (is it a JWS, is it a JWE), by every way to ask"""
    from jwkest import jws, jwe
    r = {}
    for n, f in (("jws.factory", jws.factory),
                 ("is_jws", jws.JWS().is_jws), ("jwe.factory", jwe.factory)):
        x = attempt(f, tok)
        check(not raised(x), "%s(%r) raises %r" % (n, tok, x))
        r[n] = x
    check(r["jws.factory"] is None or isinstance(r["jws.factory"], jws.JWS),
          "jws.factory gives %r" % (r["jws.factory"],))
    check(r["jwe.factory"] is None or isinstance(r["jwe.factory"], jwe.JWE),
          "jwe.factory gives %r" % (r["jwe.factory"],))
    s, e = r["jws.factory"] is not None, r["jwe.factory"] is not None
    check(isinstance(r["is_jws"], bool) and r["is_jws"] == s,
          "is_jws %r, factory %r" % (r["is_jws"], s))
    check(not (s and e), "%r is both" % (tok,))
    # asking does not change the answer
    j = jws.JWS()
    for t in (tok, "x.y", tok):
        x = j.is_jws(t)
    check(x == s, "asked again, is_jws is %r" % x)
    return s, e


def both_types(tok):
    """text and octets are the same token"""
    a = ask(tok)
    try:
        o = tok.encode("utf-8")
    except UnicodeEncodeError:
        return a
    b = ask(o)
    check(a == b, "as text %r, as octets %r: %r" % (a, b, tok))
    return a


# --- headers -------------------------------------------------------------------------

HEADERS = [
    "", "{}", "[]", "5", '"x"', "null", "true", "{", "\xff", '{"a":1}',
    '{"alg":null}', '{"alg":5}', '{"alg":[]}', '{"alg":{}}', '{"alg":""}',
    '{"alg":"none"}', '{"alg":"HS256"}', '{"alg":"hs256"}', '{"alg":"XX"}',
    '{"alg":["HS256"]}', '{"alg":"HS256","alg":"XX"}', '["alg"]',
    '{"alg":"RSA-OAEP"}', '{"alg":"RSA-OAEP","enc":"A128GCM"}',
    '{"alg":"RSA-OAEP","enc":[]}', '{"alg":"RSA-OAEP","enc":null}',
    '{"alg":[],"enc":"A128GCM"}', '{"alg":{},"enc":{}}',
    '{"alg":"HS256","enc":"A128GCM"}', '{"alg":"dir","enc":"A128GCM"}',
    '{"typ":"JWE"}', '{"typ":"jwe"}', '{"typ":5}', '{"typ":null}',
    '{"typ":[]}', '{"typ":"JWS"}', '{"typ":"JWS","alg":"HS256"}',
    '{"typ":"JWE","alg":"HS256"}', '{"typ":{},"alg":"HS256"}',
    '{"alg":"ES256","crit":["x"]}', '{"enc":"A128GCM"}', '"alg"', '"typ"',
    '{"alg":"ECDH-ES","enc":"A256GCM","epk":5}', '{"alg":true}',
    # five parts are no proof of encryption, whatever they are said to be
    '{"typ":"JWT"}', '{"typ":"JWT","enc":"A128CBC-HS256"}',
    '{"typ":"JWT","alg":"XX","enc":"A128CBC-HS256"}',
    '{"typ":"JWT","alg":"HS256","enc":"A128GCM"}',
    '{"typ":"JWT","alg":"RSA-OAEP","enc":"XX"}',
    '{"typ":"JWT","alg":"RSA-OAEP","enc":"A128CBC-HS256"}',
    '{"typ":"JWT","alg":"ES256"}', '{"typ":"JOSE","enc":"A128GCM"}',
    '{"cty":"JWT","enc":"A128GCM"}', '{"typ":"jwt","enc":"A256GCM"}',
    '{"typ":"JOSE+JSON","enc":"A128GCM","alg":"none"}',
]
LATER = ["", "AAAA", "A", "!", "AA==", "\u00e9"]


def header_object(h):
    try:
        o = json.loads(h.encode("latin-1").decode("utf-8"))
    except ValueError:
        return None
    return o if isinstance(o, dict) else None


def shapes(c):
    h = c.choose("header", HEADERS)
    n = c.choose("parts", [1, 2, 3, 4, 5, 6, 7])
    later = c.choose("other parts", LATER)
    last = c.choose("last part", LATER)
    lead = c.choose("around", ["", " ", "\n", ".", "{", "=", "\ufeff"])
    at = c.choose("at", ["start", "end"])
    if not lead and at == "end" or n == 1 and (later or last) or \
            n == 2 and later:
        raise Prune()
    parts = [ref.b64e(h.encode("latin-1"))] + [later] * (n - 2) + [last] * (
        n > 1)
    tok = ".".join(parts)
    tok = lead + tok if at == "start" else tok + lead
    s, e = both_types(tok)
    o = header_object(h)
    clean = all(x in ("", "AAAA", "AA==") for x in parts[1:]) and not lead
    if not clean or o is None:
        # unless a dot made an empty part, nothing of the kind can be a token
        if lead in ("", " ", "\n", "{", "\ufeff") or o is None:
            check(not s and not e, "%r: JWS %r, JWE %r" % (tok, s, e))
    else:
        if n != 3 or "alg" not in o:
            check(not s, "%r is a JWS" % tok)
        elif o["alg"] in SIG_ALGS if isinstance(o["alg"], str) else False:
            check(s, "%r is no JWS" % tok)
        elif o["alg"] in ("none", None):
            check(s, "%r is no JWS" % tok)
        else:
            check(not s, "%r is a JWS" % tok)
        if n != 5:
            check(not e, "%r is a JWE" % tok)
        elif o.get("alg") in J_ALGS and o.get("enc") in ref.ENCS if \
                isinstance(o.get("alg"), str) and \
                isinstance(o.get("enc"), str) else False:
            check(e, "%r is no JWE" % tok)
        elif not (isinstance(o.get("typ"), str) and
                  o["typ"].lower() == "jwe"):
            if o.get("alg") != "dir":   # listed, though not implemented
                check(not e, "%r is a JWE" % tok)
    c.done("JWS" if s else "JWE" if e else "neither")


J_ALGS = ["RSA1_5", "RSA-OAEP", "RSA-OAEP-256", "A128KW", "A192KW", "A256KW",
          "ECDH-ES", "ECDH-ES+A128KW", "ECDH-ES+A192KW", "ECDH-ES+A256KW"]


# --- JSON documents --------------------------------------------------------------------

VALUES = ["null", "5", '""', '"AAAA"', "[]", "{}", "[5]", '[{}]', "true",
          '[{"signature": 5}]']


def documents(c):
    """all objects of up to three of these members"""
    members = ["payload", "signatures", "signature", "protected", "ciphertext"]
    n = c.choose("members", [0, 1, 2, 3])
    names = [c.choose("member %d" % i, members) for i in range(n)]
    vals = [c.choose("value %d" % i, VALUES) for i in range(n)]
    if len(set(names)) < n or names != sorted(names, key=members.index):
        raise Prune()
    tok = "{%s}" % ", ".join('"%s": %s' % x for x in zip(names, vals))
    s, e = both_types(tok)
    check(not e, "%r is a JWE" % tok)
    if "payload" not in names or not {"signature", "signatures"} & set(names):
        check(not s, "%r is a JWS" % tok)
    c.done("JWS" if s else "neither")


def other_json(c):
    tok = c.choose("text", [
        "", " ", "null", "5", "1.5", "-1.5.2", "true", '""', '"payload"', "[]",
        '["payload", "signature"]', '[{"payload": 1, "signature": 2}]', "{",
        '"payload signature signatures"', "NaN", "1e999", "[" * 200,
        "[" * 100000, '{"a":' * 100000, "0" * 5000, "1" * 5000,
        '"\\ud800"', "\ud800", "\0", "a.b.c", "....", "..", ".", "..\n",
        "\u00e9.\u00e9.\u00e9", "{}.{}.{}", "e30", "e30.e30.e30.e30.e30",
        '{"payload": "a.b", "signature": "c.d.e"}', "x" * 10000,
        "." * 10000, " {} ", "\ufeff{}"])
    s, e = both_types(tok)
    check(not e, "%r is a JWE" % tok[:100])
    check(not s or tok.startswith('{"payload'), "%r is a JWS" % tok[:100])
    c.done("JWS" if s else "neither")


def octets(c):
    """octets that are not text"""
    pos = c.choose("position", list(range(8)))
    b = c.choose("octet", list(range(128, 256)) + [0, 9, 10, 13, 32, 34, 127])
    base = c.choose("in", [b"eyJhbGciOiJIUzI1NiJ9.AAAA.AAAA", b'{"payload": 1}',
                           b"eyJ0eXAiOiJKV0UifQ.A" + b"AAA.AAAA.AAAA.AAAA"])
    t = bytearray(base)
    t.insert(pos * len(t) // 8, b)
    s, e = ask(bytes(t))
    check(not s and not e, "%r: JWS %r, JWE %r" % (bytes(t), s, e))
    c.done("neither")


def short(c, n):
    """every text of up to n characters"""
    alpha = [".", "e", "{", "}", "[", '"', "1", "\u00e9", "\n", "="]
    first = [c.choose("character %d" % i, [""] + alpha) for i in range(2)]
    if not first[0] and first[1]:
        raise Prune()
    rest = range(n - 1) if first[1] else [0]
    for k in rest:
        for r in itertools.product(alpha, repeat=k):
            tok = "".join(first) + "".join(r)
            s, e = ask(tok)
            check(not s and not e, "%r: JWS %r, JWE %r" % (tok, s, e))
            c.evals += 1
    c.done("neither")


# --- real tokens -------------------------------------------------------------------------

def real_jws(c):
    from jwkest import jws
    alg = c.choose("alg", SIG_ALGS + ["none"])
    body = c.choose("payload", [b"", "text", {"a": 1}, b"\xff\0", "{}", "a.b"])
    how = c.choose("made by", ["sign_compact", "reference", "sign_json",
                               "sign_json flattened", "two signatures"])
    extra = c.choose("headers", [{}, {"typ": "JWT"}, {"typ": "JWS+JSON"},
                                 {"kid": "\u00e5"}, {"cty": "JWE"},
                                 {"typ": "JOSE"}])
    if alg == "none":
        if how not in ("sign_compact", "reference"):
            raise Prune()
        tok = jws.JWS(body, alg="none", **extra).sign_compact() \
            if how == "sign_compact" else ".".join([
                ref.b64e(ref.enc_json(dict(extra, alg="none"))),
                ref.b64e(payload_octets(body)), ""])
        s, e = both_types(tok)
        check(s and not e, "%r: JWS %r, JWE %r" % (tok, s, e))
        c.done("JWS")
        return
    name = keyname(alg)
    if how == "reference":
        tok = ref.jws_make(dict(extra, alg=alg), payload_octets(body),
                           K.MAT[name])
    else:
        key = K.build(name, "object" if name[0] == "r" else "keyrep", True,
                      **({"kid": extra["kid"]} if "kid" in extra else {}))
        if how == "sign_compact":
            tok = jws.JWS(body, alg=alg, **extra).sign_compact([key])
        else:
            n = 2 if how == "two signatures" else 1
            tok = jws.JWS(body, alg=alg).sign_json(
                [key] * n, headers=[(dict(extra, alg=alg), {"x": 1})
                                    for _ in range(n)],
                flatten=how == "sign_json flattened")
    s, e = both_types(tok)
    check(s and not e, "%r: JWS %r, JWE %r" % (tok, s, e))
    f = jws.factory(tok)
    if "{" != tok[0] and how != "sign_compact" and "kid" not in extra:
        pk = K.build(name, "object" if name[0] == "r" else "keyrep", False)
        check(same(f.verify_compact(tok, [pk]), payload_value(
            payload_octets(body))) or extra.get("cty"), "verification")
    c.done("JWS")


def real_jwe(c):
    from jwkest import jwe
    alg = c.choose("alg", J_ALGS)
    enc = c.choose("enc", list(ref.ENCS))
    how = c.choose("made by", ["library", "reference"])
    if how == "library":
        extra = c.choose("headers", [{}, {"typ": "JWT"}, {"zip": "DEF"},
                                     {"cty": "JWT"}])
        tok = jwe.JWE(b"data", alg=alg, enc=enc, **extra).encrypt(
            [J.key(dict(J.KM)[alg])])
    else:
        extra = c.choose("headers", [
            {}, {"typ": "JWT"}, {"typ": "JWE"}, {"typ": 5}, {"typ": None},
            {"typ": ["JWE"]}, {"alg2": 1}, {"kid": "\u00e5"}])
        mat = J.mat(alg, dict(J.KM)[alg])
        tok = ref.jwe_make(dict(extra, alg=alg, enc=enc), b"data",
                           mat, b"k" * ref.CEKLEN[enc], b"i" * (
                               12 if "GCM" in enc else 16), epk_d=7)
    s, e = both_types(tok)
    check(e and not s, "%r: JWS %r, JWE %r" % (tok, s, e))
    c.done("JWE")


def scopes(tier):
    th = tier == "thorough"
    return [
        Scope("header shapes", shapes, 2,
              "%d headers x 1..7 parts x 6 x 6 other parts x 7 characters "
              "around" % len(HEADERS)),
        Scope("JSON documents", documents, 2,
              "all objects of up to 3 of 5 members x 10 values"),
        Scope("other texts", other_json, 1, "38 other texts"),
        Scope("octets", octets, 1, "135 octets at 8 places in 3 tokens"),
        Scope("short texts", lambda c: short(c, 5 if th else 4), 2,
              "all texts up to %d characters of 10" % (5 if th else 4)),
        Scope("JWS", real_jws, 1, "13 algorithms x 6 payloads x 5 ways x "
              "6 headers"),
        Scope("JWE", real_jwe, 2, "10 x 6 algorithms, made by the library or "
              "not, x headers"),
    ]
