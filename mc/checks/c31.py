"""C31: private key material is not written where public keys are."""
import base64
import functools
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

from Cryptodome.PublicKey import RSA

from mc.core import Scope, check, Prune
from mc import ref, keys as K, jwe as J
from mc.jose import *


# --- the search ------------------------------------------------------------------

def numbers_of(mat):
    if mat[0] == "EC":
        return {"d": mat[3]}
    k = mat[1]
    return {"d": k.d, "p": k.p, "q": k.q, "dp": k.d % (k.p - 1),
            "dq": k.d % (k.q - 1), "qi": pow(k.q, -1, k.p),
            "pi": pow(k.p, -1, k.q)}


@functools.lru_cache(None)
def needles(name):
    """(what, octets), (what, text)"""
    raw, txt = [], []
    mat = K.MAT[name]
    for what, n in numbers_of(mat).items():
        ln = (n.bit_length() + 7) // 8
        o = ref.i2o(n, ln)
        raw.append((what, o))
        raw.append((what, o[::-1]))
        txt += [(what, str(n)), (what, "%x" % n), (what, "%X" % n),
                (what, ", ".join(str(b) for b in o)),
                (what, ",".join(str(b) for b in o)),
                (what, ":".join("%02x" % b for b in o))]
        for shift in range(3):
            for f in (base64.b64encode, base64.urlsafe_b64encode):
                e = f(b"\0" * shift + o).decode().rstrip("=")
                # the characters that depend on the octets alone
                txt.append((what, e[(8 * shift + 5) // 6:-1]))
    return raw, txt


LONG = re.compile(r"[A-Za-z0-9_/+-]{20,}")


def scan(text, name, where, depth=0):
    raw, txt = needles(name)
    if isinstance(text, (bytes, bytearray)):
        text = bytes(text)
        for what, o in raw:
            check(o not in text, "%s of the private key in %s" % (what, where))
        try:
            text = text.decode("latin-1")
        except UnicodeDecodeError:
            return
    low = re.sub(r"\s+", "", text) if depth == 0 else text
    for what, t in txt:
        check(t not in text and t not in low,
              "%s of the private key in %s: %s" % (what, where, text[:200]))
    if depth < 3:
        for m in LONG.findall(text):
            for alt in (b"-_", b"+/"):
                try:
                    o = base64.b64decode(m + "=" * (-len(m) % 4), alt)
                except ValueError:
                    continue
                scan(o, name, where, depth + 1)


def deep(o, name, where, seen=None, depth=0):
    """everything reachable from an object"""
    seen = set() if seen is None else seen
    if id(o) in seen or depth > 6:
        return
    seen.add(id(o))
    if isinstance(o, (str, bytes)):
        scan(o, name, where)
    elif isinstance(o, bool) or o is None:
        pass
    elif isinstance(o, int) or type(o).__name__.startswith("Integer"):
        check(int(o) not in numbers_of(K.MAT[name]).values(),
              "a private number in %s" % where)
    elif isinstance(o, dict):
        for k, v in o.items():
            deep(k, name, where, seen, depth + 1)
            deep(v, name, where, seen, depth + 1)
    elif isinstance(o, (list, tuple, set)):
        for v in o:
            deep(v, name, where, seen, depth + 1)
    elif hasattr(o, "__dict__") and not isinstance(o, type):
        deep(vars(o), name, where, seen, depth + 1)


# --- histories --------------------------------------------------------------------

def alg_of(name):
    if name[0] == "r":
        return "RS256"
    return {"p256": "ES256", "p384": "ES384", "p521": "ES512"}[name[:4]]


def before(op, k, name):
    """something done to the private key before it is published"""
    from jwkest import jwk, jws, jwe
    alg = alg_of(name)
    if op == "private":
        k.serialize(private=True)
    elif op == "to_dict":
        k.to_dict()
    elif op == "str":
        str(k)
    elif op == "keys":
        k.keys()
    elif op == "thumbprint":
        k.thumbprint("SHA-256")
    elif op == "hash":
        hash(k)
    elif op == "add_kid":
        k.add_kid()
    elif op == "sign":
        jws.JWS("x", alg=alg).sign_compact([k])
    elif op == "header":
        jws.JWS("x", alg=alg, jwk=k).sign_compact()
    elif op == "decrypt":
        ealg = "RSA-OAEP" if name[0] == "r" else "ECDH-ES+A128KW"
        t = ref.jwe_make({"alg": ealg, "enc": "A128CBC-HS256"}, b"x",
                         K.MAT[name], b"k" * 32, b"i" * 16, epk_d=99)
        jwe.JWE().decrypt(t, [k])
    elif op == "copy":
        jwk.make_public_copy(k)
    elif op == "deserialize":
        k.deserialize()
    elif op == "dump":
        ks = jwk.KEYS()
        ks.append(k)
        ks.dump_jwks()
    elif op == "reload":
        return jwk.keyrep(json.loads(json.dumps(k.serialize(private=True))))
    elif op == "class":
        return type(k)(**k.serialize(private=True))
    elif op == "wrap" and name[0] == "r":
        ks = jwk.KEYS()
        ks.wrap_add(k.key)
        return list(ks)[0]
    elif op == "extra":
        # a JWK with the CRT values and members the library doesn't know
        spec = ref.jwk_of(K.MAT[name], private=True, key_ops=["sign"])
        for m, v in numbers_of(K.MAT[name]).items():
            if m not in ("d", "p", "q", "pi"):
                spec[m] = ref.uint_b64(v)
        return jwk.keyrep(spec)
    elif op == "load_key" and name[0] == "r":
        k.load_key(K.MAT[name][1])
    return k


BEFORE = ["private", "to_dict", "str", "thumbprint", "hash", "add_kid", "sign",
          "header", "decrypt", "copy", "deserialize", "dump", "reload",
          "class", "wrap", "extra", "load_key", "keys"]


def publish(how, k, name):
    from jwkest import jwk, jws, jwe
    alg = alg_of(name)
    crv = name[0] == "p"

    def ks():
        s = jwk.KEYS()
        s.append(k)
        return s
    if how == "serialize":
        scan(json.dumps(k.serialize()), name, how)
        scan(repr(k.serialize(False)), name, how)
    elif how == "dump":
        s = ks()
        scan(s.dump_jwks(), name, how)
        scan(str(s), name, how)
        scan(repr(s), name, how)
    elif how == "dump with others":
        s = jwk.KEYS()
        s.append(K.build("p256.11", "ints"))
        s.append(k)
        s.append(jwk.SYMKey(key="0123456789abcdef"))
        s.append(k)
        scan(s.dump_jwks(), name, how)
        scan(s.dump_jwks(), "p256.11", how)
    elif how == "copy":
        c = jwk.make_public_copy(k)
        deep(c, name, how)
        scan(str(c), name, how)
        scan(json.dumps(c.serialize(private=True)), name, how)
        scan(repr(c.to_dict()), name, how)
        check(not (isinstance(c.key, RSA.RsaKey) and c.key.has_private()),
              "the public copy has a private key")
    elif how == "copy of copy":
        c = jwk.make_public_copy(jwk.make_public_copy(k))
        deep(c, name, how)
    elif how == "jws header":
        for j in (jws.JWS("msg", alg=alg, jwk=k),
                  jws.JWS("msg", alg=alg, jwk=k.serialize(private=True)),
                  jws.JWS("msg", alg=alg, jwk=json.dumps(
                      k.serialize(private=True)))):
            t = j.sign_compact()
            scan(t, name, how)
            scan(repr(j.headers()), name, how)
    elif how == "jws protected":
        j = jws.JWS("msg", alg=alg)
        scan(j.sign_compact([k], protected={"typ": "JWT"}), name, how)
    elif how == "jws":
        scan(jws.JWS("msg", alg=alg).sign_compact([k]), name, how)
        scan(jws.JWS("msg", alg=alg).sign_json([k]), name, how)
        scan(jws.JWS("msg", alg=alg).sign_json(
            [k], headers=[({"alg": alg}, {"kid": "x"})]), name, how)
    elif how == "jwe":
        ealg = "ECDH-ES" if crv else "RSA1_5"
        j = jwe.JWE(b"msg", alg=ealg, enc="A128CBC-HS256")
        scan(j.encrypt([k]), name, how)
    elif how == "jwe header":
        # the recipient's key as jwk header
        ealg = "ECDH-ES" if crv else "RSA1_5"
        j = jwe.JWE(b"msg", alg=ealg, enc="A128CBC-HS256", jwk=k)
        r = attempt(j.encrypt, [k])
        if not raised(r):
            scan(r, name, how)
        scan(repr(attempt(j.headers)), name, how)
    elif how == "thumbprint":
        scan(k.thumbprint("SHA-256"), name, how)
        k.add_kid()
        scan(k.kid, name, how)
    elif how == "repr":
        scan(repr(k), name, how)
        scan(repr([k]), name, how)
    elif how == "public dict":
        scan(repr(jwk.key_from_jwk_dict(
            k.serialize(private=True), private=False).serialize(True)), name,
            how)
    elif how == "sets":
        s = ks()
        scan(repr(s.kids()) + repr(s.key_types()), name, how)


PUBLISH = ["serialize", "dump", "dump with others", "copy", "copy of copy",
           "jws header", "jws protected", "jws", "jwe", "jwe header",
           "thumbprint", "repr", "public dict", "sets"]


def history(c, names, depth, befores=BEFORE, pubs=PUBLISH):
    name = c.choose("key", names)
    form = c.choose("form", K.PRIV_FORMS[K.MAT[name][0]])
    how = c.choose("publish", pubs)
    ops = []
    for i in range(depth):
        op = c.choose("op %d" % i, [None] + befores)
        if op is None:
            break
        ops.append(op)
    k = K.build(name, form, True, kid="key") if form != "wrap" else K.build(
        name, form, True)
    for op in ops:
        try:
            k = before(op, k, name)
        except Exception as e:
            check(False, "%s fails: %r" % (op, e))
    publish(how, k, name)
    c.done("clean")


def sym_copy(c):
    """public copies of keys without public part, and of no keys at all"""
    from jwkest import jwk
    what = c.choose("what", ["dict", "str", "none", "int"])
    v = {"dict": {"kty": "RSA"}, "str": "x", "none": None, "int": 3}[what]
    check(raised(attempt(jwk.make_public_copy, v)), "copy of %s" % what)
    c.done("refused")


# --- ephemeral keys ------------------------------------------------------------------

def ephemeral(c):
    from jwkest.jwe import JWE
    alg = c.choose("alg", ref.EC_ALGS)
    crv = c.choose("curve", list(ref.CURVES))
    parts = c.choose("apu/apv", [{}, {"apu": "QWxpY2U", "apv": "Qm9i"}])
    n = c.choose("encryptions", [1, 2])
    name = K.ecname(crv, 3)
    given = c.choose("epk", [None, "key", "JWK", "JWK with kid", "enc_setup"])
    own = K.ecname(crv, 9)
    kw = {"key": lambda: K.build(own, "ints", True),
          "JWK": lambda: ref.jwk_of(K.MAT[own], private=True),
          "JWK with kid": lambda: ref.jwk_of(K.MAT[own], private=True,
                                             kid="E", use="enc")}
    kw = {"epk": kw[given]()} if given in kw else {}
    j = JWE(b"msg", alg=alg, enc="A128CBC-HS256", **dict(parts, **kw))
    cv = ref.CURVES[crv]
    for _ in range(n):
        if given == "enc_setup":
            from jwkest.jwe import JWE_EC
            e = JWE_EC(b"msg", alg=alg, enc="A128CBC-HS256")
            r = e.enc_setup(b"msg", "", K.build(name, "ints", False),
                            epk=K.build(own, "ints", True))
            scan(json.dumps(r[3], default=repr), own, "the parameters")
            continue
        t = attempt(j.encrypt, [K.build(name, "ints", False)])
        if raised(t) and given:
            continue
        check(not raised(t), "%r" % (t,))
        if given:
            scan(t, own, "a token with the caller's ephemeral key")
        hdr = json.loads(ref.b64d(t.split(".")[0]))
        epk = hdr["epk"]
        P = tuple(ref.o2i(ref.b64d(epk[m])) for m in "xy")
        check(set(epk) <= {"kty", "crv", "x", "y", "alg", "use", "kid"},
              "epk is %r" % (epk,))
        for m in ref.b64d(t.split(".")[0]).decode().split('"'):
            try:
                v = ref.o2i(ref.b64d(m))
            except ref.Reject:
                continue
            check(not 0 < v < cv.n or cv.pub(v) != P,
                  "the ephemeral private key is in the header")
    c.done("clean")


# --- scripts -----------------------------------------------------------------------------

def scripts(c):
    what = c.choose("script", ["export", "create"])
    arg = c.choose("key", ["r0", "r2"] if what == "export" else [1024])
    repo = os.environ.get("MC_REPO", "/repo")
    d = tempfile.mkdtemp(prefix="c31-")
    try:
        env = {"PATH": os.environ.get("PATH", ""),
               "PYTHONPATH": os.path.join(repo, "src"),
               "PYTHONDONTWRITEBYTECODE": "1", "HOME": d}
        argv = [sys.executable, os.path.join(
            repo, "script", "jwk_%s.py" % what), "-n", "out", "-p", d]
        argv += ["-k", os.path.join(K.D, "rsa%s.pem" % arg[1])] \
            if what == "export" else ["-s", str(arg)]
        p = subprocess.run(argv, env=env, cwd=d, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=90)
        check(p.returncode == 0, "%s fails: %s" % (what, p.stdout[-300:]))
        with open(os.path.join(d, "out.jwk")) as f:
            doc = f.read()
        if what == "create":
            with open(os.path.join(d, "out.key")) as f:
                key = RSA.import_key(f.read())
            K.MAT["tmp"] = ("RSA", key)
            needles.cache_clear()
            with open(os.path.join(d, "out.pub")) as f:
                pub = f.read()
            check(not RSA.import_key(pub).has_private(), "out.pub is private")
            scan(pub, "tmp", "out.pub")
        name = arg if what == "export" else "tmp"
        scan(doc, name, "out.jwk")
        scan(p.stdout, name, "stdout")
        spec = json.loads(doc)
        spec = spec["keys"][0] if "keys" in spec else spec
        k = K.MAT[name][1]
        check(spec["n"] == ref.uint_b64(k.n) and spec["e"] ==
              ref.uint_b64(k.e), "not the public key")
    finally:
        shutil.rmtree(d)
        K.MAT.pop("tmp", None)
    c.done("clean")


def selftest():
    """the search finds what it looks for"""
    k = K.MAT["r0"][1]
    for t in (str(k.d), "x%x" % k.p, json.dumps(ref.jwk_of(
            K.MAT["r0"], private=True)), k.export_key().decode(),
            ref.b64e(json.dumps({"a": ref.uint_b64(k.q)}).encode()),
            base64.b64encode(b"ab" + ref.i2o(k.d, 256)).decode()):
        try:
            scan(t, "r0", "test")
        except Exception:
            continue
        raise AssertionError(t[:100])
    scan(json.dumps(ref.jwk_of(K.MAT["r0"])), "r0", "test")


def scopes(tier):
    th = tier == "thorough"
    selftest()
    ec = ["p256.3", K.ZX["P-256"], "p521.3"]
    if th:
        ec += ["p384.3", K.ZX["P-521"], K.ZY["P-384"]]
    # d with a leading zero octet
    i = 0
    while K.MAT["p256.%d" % i][3] >> 248:
        i += 1
    ec.append("p256.%d" % i)
    cheap = ["serialize", "dump", "copy", "jws header", "jws protected",
             "public dict", "dump with others"]
    return [
        Scope("RSA", lambda c: history(c, ["r0", "r1"], 1), 3,
              "2 keys x 7 forms x 14 ways to publish x each of 18 operations "
              "before"),
        Scope("EC", lambda c: history(c, ec if not th else ec, 1), 3,
              "EC keys x 4 forms x 14 ways to publish x 18 operations before"),
        Scope("EC histories", lambda c: history(
            c, ["p256.3"] if not th else ["p256.3", "p521.9"], 2,
            [b for b in BEFORE if b not in ("wrap", "load_key")],
            cheap if not th else PUBLISH), 4, "two operations before"),
        Scope("RSA histories", lambda c: history(
            c, ["r0"], 2, BEFORE if th else
            ["private", "to_dict", "add_kid", "copy", "wrap", "header",
             "load_key", "extra"], ["serialize", "dump", "copy"] if not th
            else cheap), 4, "two operations before"),
        Scope("no keys", sym_copy, 0, "things that aren't keys"),
        Scope("ephemeral keys", ephemeral, 2,
              "4 algorithms x 3 curves x apu/apv x 2 encryptions x generated "
              "or the caller's"),
        Scope("scripts", scripts, 2, "jwk_export of 2 keys, jwk_create"),
    ]
