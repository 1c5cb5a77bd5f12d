"""C51: the command line tools do what they say."""
import contextlib
import functools
import io
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
import warnings

from mc.core import Scope, check, Prune, ROOT
from mc.rng import RNG
from mc import ref, server, keys as K, jwe as J
from mc.jose import *

REPO = os.environ.get("MC_REPO", "/repo")
SCRIPTS = os.path.join(REPO, "script")
CBC = "A128CBC-HS256"
ALNUM = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"


class Out(object):
    def __init__(self, rc, out, err, files):
        self.rc, self.out, self.err, self.files = rc, out, err, files

    @property
    def text(self):
        """the line that was printed"""
        check(self.rc == 0, "status %r: %s" % (self.rc, self.err[-600:]))
        check(self.out.endswith("\n"), "no line was printed: %r" % self.out)
        return self.out[:-1]

    def refused(self, what):
        check(self.rc != 0, "%s: status 0 and output %r" % (what, self.out))
        check(self.out == "", "%s: fails, but prints %r" % (what, self.out))


def run(script, args, files=(), stdin="", dirs=()):
    """the script in this process, in a scratch directory"""
    d = tempfile.mkdtemp(prefix="mc51")
    old = os.getcwd(), sys.argv, sys.stdin
    out, err = io.StringIO(), io.StringIO()
    rc = 0
    try:
        for n, v in dict(files).items():
            with open(os.path.join(d, n), "wb") as f:
                f.write(v if isinstance(v, bytes) else v.encode())
        for n in dirs:
            os.mkdir(os.path.join(d, n))
        os.chdir(d)
        sys.argv = [script] + list(args)
        sys.stdin = io.StringIO(stdin)
        try:
            with contextlib.redirect_stdout(out), \
                    contextlib.redirect_stderr(err), \
                    warnings.catch_warnings():
                warnings.simplefilter("ignore")
                runpy.run_path(os.path.join(SCRIPTS, script),
                               run_name="__main__")
        except SystemExit as e:
            rc = e.code if isinstance(e.code, int) else \
                (0 if e.code is None else 1)
        except Exception as e:
            rc = 1
            err.write("%s: %s" % (type(e).__name__, e))
        got = {}
        for r, _, fs in os.walk(d):
            for n in fs:
                p = os.path.join(r, n)
                with open(p, "rb") as f:
                    got[os.path.relpath(p, d)] = f.read()
        for n in dict(files):
            got.pop(n, None)
    finally:
        os.chdir(old[0])
        sys.argv, sys.stdin = old[1:]
        shutil.rmtree(d)
    return Out(rc, out.getvalue(), err.getvalue(), got)


# --- generating keys ----------------------------------------------------------------

def gen(c):
    from jwkest import jwk
    n = c.choose("length", [None, 1, 2, 15, 16, 17, 32, 48, 64, 100])
    kid = c.choose("kid", [None, "a", "\u00e9 b", "0"])
    seed = c.choose("randomness", ["a", "b", b"\0", b"\xff"])
    args = ([] if n is None else ["-n", str(n)]) + \
        ([] if kid is None else ["--kid", kid])

    def once(seed):
        RNG.reset(seed)
        if isinstance(seed, bytes):
            left = [40]

            def script(m):
                left[0] -= 1
                return seed * m if left[0] > 0 else None
            RNG.script = script
        return run("gen_symkey.py", args).text
    t = once(seed)
    d = json.loads(t)
    check(list(d) == ["keys"] and len(d["keys"]) == 1, "not a JWKS: %s" % t)
    k = d["keys"][0]
    check(k["kty"] == "oct" and k.get("kid") == kid, "JWK %s" % t)
    v = ref.b64d(k["k"]).decode()
    check(len(v) == (48 if n is None else n) and set(v) <= set(ALNUM),
          "key %r" % v)
    ks = jwk.KEYS().load_jwks(t)
    check(list(ks)[0].key == v.encode(), "loads as %r" % list(ks)[0].key)
    if (n or 48) > 14 and isinstance(seed, str):
        check(once("other") != t, "the key does not depend on the system's "
              "randomness")
        check(run("gen_symkey.py", args).text != run(
            "gen_symkey.py", args).text, "the same key twice")
        # every character can be at every place
        seen = [set() for _ in v]
        if n in (15, 16) and kid is None:
            for i in range(500):
                w = ref.b64d(json.loads(once("r%d" % i))["keys"][0]["k"])
                for s, x in zip(seen, w.decode()):
                    s.add(x)
            check(all(s == set(ALNUM) for s in seen), "some characters "
                  "never occur: %r" % [len(s) for s in seen])
    c.done("key")


def create(c, sizes):
    from Cryptodome.PublicKey import RSA
    size = c.choose("size", sizes)
    name = c.choose("name", [None, "my.key"])
    path = c.choose("path", [None, "sub"])
    args = ([] if size is None else ["-s", str(size)]) + \
        ([] if name is None else ["-n", name]) + \
        ([] if path is None else ["-p", path])
    seed = c.choose("randomness", ["a", "b"])
    RNG.reset(seed)
    r = run("jwk_create.py", args, dirs=["sub"])
    check(r.rc == 0, "status %r %s" % (r.rc, r.err))
    base = os.path.join(path or "", name or "pyoidc")
    check(sorted(r.files) == sorted(base + x for x in
                                    (".key", ".pub", ".jwk")),
          "files %r" % sorted(r.files))
    key = RSA.import_key(r.files[base + ".key"])
    pub = RSA.import_key(r.files[base + ".pub"])
    j = json.loads(r.files[base + ".jwk"])
    check(key.has_private() and key.size_in_bits() == (size or 1024),
          "private key of %d bits" % key.size_in_bits())
    check(not pub.has_private() and (pub.n, pub.e) == (key.n, key.e),
          "public key")
    check(j == ref.jwk_of(("RSA", pub)), "JWK %r" % j)
    if seed == "a":
        RNG.reset("z")
        r2 = run("jwk_create.py", args, dirs=["sub"])
        check(r2.files[base + ".jwk"] != r.files[base + ".jwk"],
              "the key does not depend on the system's randomness")
    c.done("key pair")


def pem(n, private=True):
    m = K.MAT[n][1]
    return (m if private else m.public_key()).export_key()


def export(c):
    key = c.choose("key", ["r0", "r1", "r2"])
    private = c.flag("private")
    name = c.choose("name", [None, "x", "k.jwk"])
    path = c.choose("path", [None, "sub"])
    r = run("jwk_export.py", ["-k", "in.pem"] + (
        [] if name is None else ["-n", name]) + (
        [] if path is None else ["-p", path]),
        files={"in.pem": pem(key, private)}, dirs=["sub"])
    check(r.rc == 0, "status %r %s" % (r.rc, r.err))
    f = os.path.join(path or "", name or "pyoidc") + ".jwk"
    check(list(r.files) == [f], "files %r" % list(r.files))
    check(json.loads(r.files[f]) == {"keys": [ref.jwk_of(
        ("RSA", K.MAT[key][1]))]}, "JWKS %r" % r.files[f])
    c.done("exported")


# --- encryption ----------------------------------------------------------------------

def jwks(*names, **kw):
    return json.dumps({"keys": [ref.jwk_of(K.MAT[n], private=kw.get(
        "private", False)) for n in names]})


def source(kind, name, private=False, one=False):
    """-> (arguments, files, server) that give a script the key"""
    if kind == "jwks":
        return ["-j", "k.jwks"], {"k.jwks": jwks(name, private=private)}, None
    if kind == "url":
        s = server.Server({"/": [server.response(200, jwks(
            name, private=private).encode())]})
        return ["-J", s.url()], {}, s
    if kind == "pem":
        return ["-r", "k.pem"], {"k.pem": pem(name, private)}, None
    if kind == "cert":
        return ["-x", "c.pem"], {"c.pem": K.cert_pem(int(name[1]))}, None
    if kind == "cert url":
        s = server.Server({"/": [server.response(
            200, K.cert_pem(int(name[1])).encode())]})
        return ["-X", s.url()], {}, s
    raise ValueError(kind)


MSGS = ["hello", "", "\u00e9\u20ac", " line 1\n\tline 2 ", '{"a": "b c"}',
        "x" * 300]


def deliver(how, msg):
    """-> (arguments, files, stdin)"""
    if how == "argument":
        return [msg], {}, ""
    if how == "file":
        return ["-f", "msg"], {"msg": msg}, ""
    return ["-"], {}, msg


def fits(alg, name):
    return J.kt(alg) == K.MAT[name][0]


def jwenc(c, kinds, algs, encs, msgs):
    kind = c.choose("key from", kinds)
    name = c.choose("key", ["r0", "r1", "h0.16", "p256.3"])
    if (kind not in ("jwks", "url")) and name[0] != "r":
        raise Prune()
    alg = c.choose("alg", algs)
    enc = c.choose("enc", encs)
    how = c.choose("message from", ["argument", "file", "stdin"])
    msg = c.choose("message", msgs)
    if how == "argument" and msg[:1] == "-":
        raise Prune()
    a, f, s = source(kind, name)
    b, g, stdin = deliver(how, msg)
    f.update(g)
    try:
        r = run("jwenc.py", ["-a", alg, "-e", enc] + a + b, f, stdin)
    finally:
        if s:
            s.close()
    from jwkest.jwe import SUPPORTED
    if not fits(alg, name) or alg not in SUPPORTED["alg"] or (
            msg == "" and r.rc):
        r.refused("%s with %s" % (alg, name))
        c.done("refused")
        return
    h, pt, cek, iv = ref.jwe_open(r.text, J.mat(alg, name))
    check((h["alg"], h["enc"]) == (alg, enc), "header %r" % h)
    check(pt == msg.encode(), "encrypts %r, not %r" % (pt, msg))
    # jwdecrypt opens it
    if name[0] == "r":
        dk, df = ["-r", "k.pem"], {"k.pem": pem(name)}
    else:
        dk, df = ["-j", "k"], {"k": jwks(name, private=True)}
    df["m"] = r.text + "\n"
    d = run("jwdecrypt.py", dk + ["-f", "m"], df)
    check(d.text == msg, "jwdecrypt gives %r, not %r" % (d.out, msg))
    c.done("encrypted")


def jwenc_bad(c):
    """what is missing or unknown is an error"""
    what, args = c.choose("arguments", [
        ("no key", ["-a", "RSA-OAEP", "-e", CBC, "m"]),
        ("no alg", ["-r", "k", "-e", CBC, "m"]),
        ("no enc", ["-r", "k", "-a", "RSA-OAEP", "m"]),
        ("neither", ["-r", "k", "m"]),
        ("alg", ["-r", "k", "-a", "RSA-XXX", "-e", CBC, "m"]),
        ("alg none", ["-r", "k", "-a", "none", "-e", CBC, "m"]),
        ("enc", ["-r", "k", "-a", "RSA-OAEP", "-e", "A128CBC", "m"]),
        ("enc none", ["-r", "k", "-a", "RSA-OAEP", "-e", "none", "m"]),
        ("no such key", ["-r", "none", "-a", "RSA-OAEP", "-e", CBC, "m"]),
        ("no such file", ["-r", "k", "-a", "RSA-OAEP", "-e", CBC, "-f", "n"]),
        ("key is garbage", ["-r", "g", "-a", "RSA-OAEP", "-e", CBC, "m"]),
        ("jwks is garbage", ["-j", "g", "-a", "RSA-OAEP", "-e", CBC, "m"]),
        ("empty jwks", ["-j", "e", "-a", "RSA-OAEP", "-e", CBC, "m"]),
        ("option", ["-r", "k", "-a", "RSA-OAEP", "-e", CBC, "-q", "m"])])
    r = run("jwenc.py", args, {"k": pem("r0"), "g": "garbage",
                               "e": '{"keys": []}'})
    r.refused(what)
    c.done("refused")


@functools.lru_cache(None)
def token(alg, name, msg, enc=CBC):
    return ref.jwe_make({"alg": alg, "enc": enc}, msg.encode(),
                        J.mat(alg, name), J.octs("k" + alg, ref.CEKLEN[enc]),
                        J.octs("i" + alg, ref.IVLEN[enc]), epk_d=7771)


def jwdec(c, msgs, scripts):
    script = c.choose("script", scripts)
    alg, name = c.choose("alg", [
        ("RSA-OAEP", "r0"), ("RSA1_5", "r1"), ("A128KW", "h0.16"),
        ("A256KW", "h0.32"), ("ECDH-ES", "p256.3"),
        ("ECDH-ES+A128KW", "p384.3"), ("RSA-OAEP-256", "r0")])
    keys = c.choose("keys", ["right", "wrong", "none", "wrong and right",
                             "public"])
    kind = c.choose("from", ["jwks", "url", "pem"])
    how = c.choose("token from", ["argument", "file"])
    mod = c.choose("token", [None, "tag", "key", "short", "garbage"])
    msg = c.choose("message", msgs)
    other = {"r": "r2", "h": "h9.16", "p": "p256.9"}[name[0]]
    names = {"right": [name], "wrong": [other], "none": [],
             "wrong and right": [other, name], "public": [name]}[keys]
    if keys == "public" and name[0] == "h":
        raise Prune()
    if kind == "pem" and (name[0] != "r" or len(names) > 1):
        raise Prune()
    if mod and (keys, kind, msg) != ("right", "jwks", msgs[0]):
        raise Prune()
    util = script == "jwkutil.py"
    s = None
    doc = jwks(*names, private=keys != "public")
    if not names:
        a, f = (["-j", "e"], {"e": '{"keys": []}'}) if kind == "jwks" else \
            ([], {})
        if util and a:
            a = ["-J", "e"]
    elif kind == "jwks":
        a, f = ["-J" if util else "-j", "k"], {"k": doc}
    elif kind == "url":
        s = server.Server({"/": [server.response(200, doc.encode())]})
        a, f = ["-u" if util else "-J", s.url()], {}
    else:
        a, f = ["-r", "k"], {"k": pem(names[0], keys != "public")}
    t = token(alg, name, msg)
    if mod == "garbage":
        t = "garbage"
    elif mod == "short":
        t = t.rsplit(".", 1)[0]
    elif mod:
        ps = t.split(".")
        i = {"tag": 4, "key": 1}[mod]
        if not ps[i]:
            raise Prune()
        ps[i] = b64flip(ps[i], 3, 1)
        t = ".".join(ps)
    b, g, _ = deliver(how, t + ("\n" if how == "file" else ""))
    f.update(g)
    try:
        r = run(script, (["-d"] if util else []) + a + b, f)
    finally:
        if s:
            s.close()
    if mod or "right" not in keys:
        r.refused("%s, %s key" % (mod, keys))
        c.done("refused")
        return
    check(r.text == msg, "prints %r, not %r" % (r.out, msg))
    c.done("decrypted")


# --- jwkutil ----------------------------------------------------------------------------

def usource(kind, name, private, kid=None, alg=None):
    """jwkutil's options"""
    m = K.MAT[name]
    x = {}
    if kid:
        x["kid"] = kid
    if alg:
        x["alg"] = alg
    j = ref.jwk_of(m, private=private, **x)
    if kind == "-k":
        return ["-k", m[1].hex()], {}, None
    if kind == "-j":
        return ["-j", "k"], {"k": json.dumps(j)}, None
    if kind == "-J":
        return ["-J", "k"], {"k": json.dumps({"keys": [j]})}, None
    if kind == "-u":
        s = server.Server({"/": [server.response(
            200, json.dumps({"keys": [j]}).encode())]})
        return ["-u", s.url()], {}, s
    return ["-r", "k"] + (["-i", kid] if kid else []), \
        {"k": pem(name, private)}, None


def umat(kind, name):
    if kind == "-k":
        return ("oct", K.MAT[name][1].hex().encode())
    return K.MAT[name]


def usign(c, msgs):
    kind = c.choose("key from", ["-k", "-j", "-J", "-u", "-r"])
    name = c.choose("key", ["h0.32", "r0", "p256.3"])
    alg = c.choose("alg", ["HS256", "HS512", "RS256", "PS384", "ES256",
                           "none", None, "XS256", "key's"])
    how = c.choose("message from", ["argument", "file", "stdin"])
    msg = c.choose("message", msgs)
    typ = c.choose("typ", [None, "JWT"])
    kid = c.choose("kid", [None, "my kid"])
    if kind == "-k" and (name[0] != "h" or kid) or \
            kind == "-r" and name[0] != "r":
        raise Prune()
    if msg != msgs[0] and (typ or kid) or how == "argument" and not msg:
        raise Prune()
    kalg = None
    if alg == "key's":
        if kind in ("-k", "-r"):
            raise Prune()
        kalg = {"h": "HS384", "r": "RS512", "p": "ES256"}[name[0]]
    a, f, s = usource(kind, name, True, kid, kalg)
    b, g, stdin = deliver(how, msg)
    f.update(g)
    try:
        r = run("jwkutil.py", ["-s"] + (
            ["-a", alg] if alg and not kalg else []) + (
            ["-t", typ] if typ else []) + a + b, f, stdin)
    finally:
        if s:
            s.close()
    alg = kalg or alg
    ok = alg == "none" or alg in SIG_ALGS and ktype(alg) == K.MAT[name][0]
    if not ok:
        r.refused("signing with %s and %s" % (alg, name))
        c.done("refused")
        return
    t = r.text
    if alg == "none":
        check(t.split(".")[2] == "", "signature with none")
        h, p = json.loads(ref.b64d(t.split(".")[0])), ref.b64d(t.split(
            ".")[1])
        check(h.get("alg") == "none", "alg %r" % h)
    else:
        h, p = ref.jws_open(t, umat(kind, name), alg)
        check(h.get("kid") == kid, "kid %r" % h)
    check(h.get("typ") == typ, "typ %r" % h)
    check(p == msg.encode(), "payload %r" % p)
    # it reads its own tokens
    a, f, s = usource(kind, name, kind == "-k", kid)
    try:
        v = run("jwkutil.py", ["-v"] + a + [t], f)
    finally:
        if s:
            s.close()
    if alg == "none":
        v.refused("an unsigned token")
    else:
        check(v.text == str(payload_value(msg.encode())),
              "-v prints %r" % v.out)
    c.done("signed")


@functools.lru_cache(None)
def stok(alg, name, msg, k=False, kid=None):
    h = {"alg": alg}
    if kid:
        h["kid"] = kid
    return ref.jws_make(h, msg.encode(), umat("-k" if k else "", name))


def uverify(c, msgs):
    kind = c.choose("key from", ["-k", "-j", "-J", "-u", "-r"])
    alg, name = c.choose("alg", [
        ("HS256", "h0.32"), ("RS256", "r0"), ("ES256", "p256.3"),
        ("PS512", "r0"), ("HS512", "h0.32"), ("ES512", "p521.3")])
    keys = c.choose("key", ["right", "wrong", "other type"])
    how = c.choose("token from", ["argument", "file"])
    mod = c.choose("token", [None, "signature", "payload", "stripped", "none",
                             "two parts", "empty"])
    msg = c.choose("message", msgs)
    if mod and (msg != msgs[0] or keys != "right"):
        raise Prune()
    use = {"right": name, "wrong": {"h": "h7.32", "r": "r2",
                                    "p": name[:5] + "8"}[name[0]],
           "other type": {"h": "r0", "r": "h0.32", "p": "r0"}[name[0]]}[keys]
    if kind == "-k" and use[0] != "h" or kind == "-r" and use[0] != "r":
        raise Prune()
    t = stok(alg, name, msg, kind == "-k" and name[0] == "h")
    ps = t.split(".")
    if mod == "signature":
        ps[2] = b64flip(ps[2], 5, 5)
    elif mod == "payload":
        ps[1] = b64flip(ps[1], 0, 0)
    elif mod == "stripped":
        ps[2] = ""
    elif mod == "none":
        ps = [ref.b64e(b'{"alg":"none"}'), ps[1], ""]
    elif mod == "two parts":
        ps = ps[:2]
    elif mod == "empty":
        ps = [""]
    t = ".".join(ps)
    if how == "argument" and not t:
        raise Prune()
    a, f, s = usource(kind, use, False)
    b, g, _ = deliver(how, t + ("\n" if how == "file" else ""))
    f.update(g)
    try:
        r = run("jwkutil.py", ["-v"] + a + b, f)
    finally:
        if s:
            s.close()
    if mod or keys != "right":
        r.refused("%s, %s key" % (mod, keys))
        c.done("refused")
        return
    check(r.text == str(payload_value(msg.encode())), "prints %r" % r.out)
    c.done("verified")


def uenc(c):
    kind = c.choose("key from", ["-j", "-J", "-u", "-r"])
    name = c.choose("key", ["h0.32", "r0", "p256.3"])
    alg = c.choose("alg", ["RSA-OAEP", "RSA1_5", "A256KW", "ECDH-ES",
                           "ECDH-ES+A128KW"])
    enc = c.choose("enc", [CBC, "A256CBC-HS512"])
    how = c.choose("message from", ["argument", "file", "stdin"])
    msg = c.choose("message", ["hello", "\u00e9\n2"])
    if kind == "-r" and name[0] != "r":
        raise Prune()
    a, f, s = usource(kind, name, False)
    b, g, stdin = deliver(how, msg)
    f.update(g)
    try:
        r = run("jwkutil.py", ["-e", "-A", alg, "-E", enc] + a + b, f, stdin)
    finally:
        if s:
            s.close()
    if not fits(alg, name):
        r.refused("%s with %s" % (alg, name))
        c.done("refused")
        return
    h, pt, _, _ = ref.jwe_open(r.text, J.mat(alg, name))
    check((h["alg"], h["enc"], pt) == (alg, enc, msg.encode()),
          "%r %r" % (h, pt))
    a, f, s = usource(kind, name, True)
    try:
        d = run("jwkutil.py", ["-d"] + a + [r.text], f)
    finally:
        if s:
            s.close()
    check(d.text == msg, "-d prints %r" % d.out)
    c.done("encrypted")


def nested(c):
    """-s -e and -d -v"""
    alg, encalg = c.choose("algorithms", [
        ("RS256", "RSA-OAEP"), ("HS256", "RSA1_5"), ("RS256", "A128KW"),
        ("ES256", "RSA-OAEP"), ("ES256", "ECDH-ES"), ("HS256", "A256KW")])
    mine = c.choose("made by", ["jwkutil", "reference"])
    mod = c.choose("inner", [None, "signature", "payload", "none"])
    flags = c.choose("options", ["-d -v", "-d", "-v"])
    msg = c.choose("message", ["hello", '{"a": 1}'])
    names = sorted({{"H": "h0.32", "R": "r0", "E": "p256.3"}[alg[0]],
                    {"A": "h0.32", "R": "r0", "E": "p256.3"}[encalg[0]]})
    f = {"k": jwks(*names, private=True)}
    sn = {"H": "h0.32", "R": "r0", "E": "p256.3"}[alg[0]]
    en = {"A": "h0.32", "R": "r0", "E": "p256.3"}[encalg[0]]
    if mine == "jwkutil":
        if mod:
            raise Prune()
        t = run("jwkutil.py", ["-s", "-a", alg, "-e", "-A", encalg, "-E", CBC,
                               "-J", "k", msg], f).text
        inner = ref.jwe_open(t, J.mat(encalg, en))[1].decode()
        check(ref.jws_open(inner, K.MAT[sn], alg)[1] == msg.encode(),
              "signs something else")
    else:
        ps = stok(alg, sn, msg).split(".")
        if mod == "signature":
            ps[2] = b64flip(ps[2], 1, 1)
        elif mod == "payload":
            ps[1] = b64flip(ps[1], 0, 0)
        elif mod == "none":
            ps = [ref.b64e(b'{"alg":"none"}'), ps[1], ""]
        inner = ".".join(ps)
        t = token(encalg, en, inner)
    r = run("jwkutil.py", flags.split() + ["-J", "k", t], f)
    if flags == "-v" or mod and flags == "-d -v":
        r.refused("nested, %s, %s" % (mod, flags))
        c.done("refused")
        return
    if flags == "-d":
        check(r.text == inner, "prints %r" % r.out)
    else:
        check(r.text == str(payload_value(msg.encode())),
              "prints %r" % r.out)
    c.done("opened")


def nokeys(c):
    """no keys: nothing is done"""
    act = c.choose("action", [
        ["-s", "-a", "HS256"], ["-s", "-a", "none"], ["-v"], ["-d"],
        ["-e", "-A", "RSA-OAEP", "-E", CBC]])
    keys = c.choose("keys", [[], ["-J", "e"], ["-r", "missing"],
                             ["-j", "g"], ["-J", "g"], ["-r", "g"],
                             ["-u", "http://127.0.0.1:9/"]])
    t = c.choose("message", ["hello", ref.jws_make(
        {"alg": "none"}, b"x", None), stok("HS256", "h0.32", "m")])
    r = run("jwkutil.py", act + keys + [t], {"e": '{"keys": []}',
                                             "g": "garbage"})
    r.refused("%r %r" % (act, keys))
    c.done("refused")


def peek(c):
    kind = c.choose("token", ["jws", "jwe", "none", "text", "", "a.b", "a.b.c",
                              "1.2.3.4.5", "....", "jws json", "reference",
                              "\u00e9"])
    if kind == "jws":
        alg, name = c.choose("alg", [("HS256", "h0.32"), ("RS256", "r0"),
                                     ("ES512", "p521.3")])
        t = stok(alg, name, "hello", kid="k")
    elif kind == "none":
        t = ref.jws_make({"alg": "none"}, b"hello", None)
    elif kind == "jwe":
        alg, name = c.choose("alg", [("RSA-OAEP", "r0"), ("A128KW", "h0.16"),
                                     ("ECDH-ES", "p256.3")])
        t = token(alg, name, "hello")
    elif kind == "text":
        t = "text"
    else:
        t = kind
    r = run("peek.py", [t])
    if kind == "jwe":
        check(r.text == "jwe", "a JWE: %r" % r.out)
    elif kind in ("jws", "none"):
        h = {"alg": alg, "kid": "k"} if kind == "jws" else {"alg": "none"}
        check(r.text.split("\n") == ["jws", str(h), str(b"hello")],
              "a JWS: %r" % r.out)
    else:
        check(r.out == "", "%r is called %r" % (t, r.out))
    c.done(kind)


# --- as processes ------------------------------------------------------------------------

def process(c):
    """the scripts as they are run: exit status, files, standard output"""
    what = c.choose("what", ["gen", "export", "enc", "enc fails", "dec",
                             "dec fails", "sign", "verify", "verify fails",
                             "peek", "log", "no key", "create"])
    d = tempfile.mkdtemp(prefix="mc51")

    def go(script, *args, **kw):
        env = dict(os.environ, PYTHONPATH=os.path.join(REPO, "src"),
                   PYTHONDONTWRITEBYTECODE="1", PYTHONUTF8="1")
        p = subprocess.run([sys.executable, "-W", "ignore", os.path.join(
            SCRIPTS, script)] + list(args), cwd=d, env=env,
            capture_output=True, timeout=60,
            input=kw.get("stdin", "").encode())
        return p.returncode, p.stdout.decode()
    try:
        for n, v in {"r0.pem": pem("r0"), "r1.pem": pem("r1"),
                     "r0.pub": pem("r0", False)}.items():
            with open(os.path.join(d, n), "wb") as f:
                f.write(v)
        if what == "gen":
            r1, o1 = go("gen_symkey.py")
            r2, o2 = go("gen_symkey.py")
            check((r1, r2) == (0, 0) and o1 != o2 and json.loads(o1),
                  "%r %r" % (o1, o2))
        elif what == "create":
            r, o = go("jwk_create.py", "-n", "k")
            j = json.load(open(os.path.join(d, "k.jwk")))
            check(r == 0 and sorted(j) == ["e", "kty", "n"], "%r" % j)
        elif what == "export":
            r, o = go("jwk_export.py", "-k", "r0.pem", "-n", "o")
            j = json.load(open(os.path.join(d, "o.jwk")))
            check(r == 0 and j == json.loads(jwks("r0")), "%r" % j)
        elif what == "enc":
            r, o = go("jwenc.py", "-r", "r0.pub", "-a", "RSA-OAEP", "-e", CBC,
                      "-", stdin="h\u00e9")
            check(r == 0 and ref.jwe_open(o.strip(), K.MAT["r0"])[1] ==
                  "h\u00e9".encode(), "%r %r" % (r, o))
        elif what == "enc fails":
            for a in (["-r", "r0.pub", "-a", "A128KW", "-e", CBC, "m"],
                      ["-a", "RSA-OAEP", "-e", CBC, "m"],
                      ["-r", "r0.pub", "m"]):
                r, o = go("jwenc.py", *a)
                check(r != 0 and not o, "%r: %r %r" % (a, r, o))
        elif what == "dec":
            r, o = go("jwdecrypt.py", "-r", "r0.pem", token(
                "RSA-OAEP", "r0", "h\u00e9"))
            check(r == 0 and o == "h\u00e9\n", "%r %r" % (r, o))
        elif what == "dec fails":
            for a in (["-r", "r1.pem"], ["-r", "r0.pub"], []):
                r, o = go("jwdecrypt.py", *(a + [token(
                    "RSA-OAEP", "r0", "h\u00e9")]))
                check(r != 0 and not o, "%r: %r %r" % (a, r, o))
        elif what == "sign":
            r, o = go("jwkutil.py", "-s", "-r", "r0.pem", "-a", "RS256", "m")
            check(r == 0 and ref.jws_open(o.strip(), K.MAT["r0"], "RS256"),
                  "%r %r" % (r, o))
        elif what == "verify":
            r, o = go("jwkutil.py", "-v", "-r", "r0.pub", stok(
                "RS256", "r0", "m"))
            check((r, o) == (0, "m\n"), "%r %r" % (r, o))
        elif what == "verify fails":
            for t in (stok("RS256", "r1", "m"), ref.jws_make(
                    {"alg": "none"}, b"m", None)):
                r, o = go("jwkutil.py", "-v", "-r", "r0.pub", t)
                check(r != 0 and not o, "%r %r" % (r, o))
        elif what == "peek":
            r, o = go("peek.py", stok("RS256", "r0", "m"))
            check(r == 0 and o.startswith("jws\n"), "%r %r" % (r, o))
        elif what == "log":
            r, o = go("jwkutil.py", "-v", "-r", "r0.pub", "-l", "log", stok(
                "RS256", "r0", "m"))
            check((r, o) == (0, "m\n"), "%r %r" % (r, o))
            check(os.path.exists(os.path.join(d, "log")), "no log")
        else:
            r, o = go("jwkutil.py", "-s", "-a", "none", "m")
            check(r != 0 and not o, "%r %r" % (r, o))
    finally:
        shutil.rmtree(d)
    c.done(what)


def scopes(tier):
    th = tier == "thorough"
    algs = ["RSA-OAEP", "RSA1_5", "A128KW", "ECDH-ES"] + (
        ["RSA-OAEP-256", "ECDH-ES+A128KW"] if th else [])
    return [
        Scope("gen_symkey", gen, 2, "10 lengths x 4 kids x 4 random streams"),
        Scope("jwk_create", lambda c: create(
            c, [None, 1024, 1280] if not th else [None, 1024, 1536, 2048]), 4,
            "sizes x names x paths x random streams"),
        Scope("jwk_export", export, 1, "6 keys x names x paths"),
        Scope("jwenc", lambda c: jwenc(
            c, ["jwks", "pem", "cert", "url", "cert url"], algs, [CBC],
            (MSGS if th else MSGS[1:4]) + ["\n x\n"]), 3,
            "5 ways to give a key x 4 keys x algorithms x messages"),
        Scope("jwenc methods", lambda c: jwenc(
            c, ["jwks"], ["RSA-OAEP", "A128KW"], ref.ENCS, MSGS[:1]), 3,
            "all content encryption methods"),
        Scope("jwenc errors", jwenc_bad, 1, "14 wrong command lines"),
        Scope("decrypting", lambda c: jwdec(
            c, MSGS if th else MSGS[2:4], ["jwdecrypt.py", "jwkutil.py"]), 2,
            "2 scripts x 7 algorithms x 5 key sets x 3 sources x 5 tokens"),
        Scope("signing", lambda c: usign(c, MSGS if th else MSGS[:1] +
                                         MSGS[3:5]), 3,
              "5 sources x 3 keys x 9 algorithms x 3 ways x typ, kid"),
        Scope("verifying", lambda c: uverify(
            c, MSGS if th else [MSGS[0], MSGS[2], MSGS[4]]), 2,
            "5 sources x 6 algorithms x 3 keys x 7 tokens"),
        Scope("encrypting", uenc, 2, "4 sources x 3 keys x 5 algorithms"),
        Scope("nested", nested, 2, "6 pairs of algorithms"),
        Scope("no keys", nokeys, 2, "5 actions x 7 unusable key sets"),
        Scope("peek", peek, 1, "12 kinds of token"),
        Scope("processes", process, 1, "13 uses of the scripts as processes"),
    ]
