"""A battery of decisions of the library, run under one configuration of the
interpreter: python [flags] -m mc.battery -> JSON {case: outcome}.

Each case is (name, function, expected outcome); "rejected" stands for any
exception."""
import hashlib
import json
import os
import sys
import tempfile

if __name__ == "__main__":
    from mc import rng
    rng.install()
    sys.path.insert(0, os.path.join(os.environ.get("MC_REPO", "/repo"),
                                    "src"))
    import logging
    logging.disable(logging.CRITICAL)

from mc import ref, keys as K, jwe as J
from mc.rng import RNG
from mc.jose import *

CBC = "A128CBC-HS256"
MSG = {"iss": "\u00e9", "n": [1, None, True]}
PT = "plain \u20ac text".encode()
REJ = "rejected"


def cases():
    out = []

    def add(name, fn, want):
        out.append((name, fn, want))

    # --- JWS
    for alg in SIG_ALGS:
        n, w = keyname(alg), keyname(alg, 1)
        t = ref.jws_make({"alg": alg, "kid": "\u00e9"},
                         json.dumps(MSG).encode(), K.MAT[n], k=123457)
        p = t.split(".")

        def key(name, private=False, **x):
            return K.build(name, {"r": "object", "h": "octets",
                                  "p": "ints"}[name[0]], private, **x)

        def v(tok, *names, **kw):
            def f():
                from jwkest.jws import JWS
                return JWS().verify_compact(
                    tok, keys=[key(x) for x in names], **kw)
            return f

        def s(alg=alg, n=n):
            from jwkest.jws import JWS
            t = JWS(MSG, alg=alg).sign_compact([key(n, True)])
            return json.loads(ref.jws_open(t, K.MAT[n], alg)[1])
        t2 = ref.jws_make({"alg": alg}, json.dumps(MSG).encode(), K.MAT[n],
                          k=123457)
        add(alg + " sign", s, MSG)
        add(alg + " verify", v(t2, n), MSG)
        add(alg + " second key", v(t2, w, n), MSG)
        add(alg + " wrong key", v(t2, w), REJ)
        add(alg + " no key", v(t2), REJ)
        add(alg + " kid", v(t, n), REJ if alg[0] == "x" else None)
        q = t2.split(".")
        for i in range(3):
            r = list(q)
            r[i] = b64flip(r[i], 1, 2)
            add("%s part %d modified" % (alg, i), v(".".join(r), n), REJ)
        add(alg + " no signature", v(q[0] + "." + q[1] + ".", n), REJ)
        add(alg + " two parts", v(q[0] + "." + q[1], n), REJ)
        add(alg + " four parts", v(t2 + ".", n), REJ)
        add(alg + " short", v(t2[:-4], n), REJ)
        none = ref.b64e(b'{"alg":"none"}') + "." + q[1] + "."
        add(alg + " none", v(none, n), REJ)
        add(alg + " none allowed", v(none, n, allow_none=True), MSG)
        add(alg + " sigalg", v(t2, n, sigalg="HS256" if alg != "HS256"
                               else "HS512"), REJ)
        crit = ref.jws_make({"alg": alg, "crit": ["x"], "x": 1}, b"1",
                            K.MAT[n], k=1234)
        add(alg + " crit", v(crit, n), REJ)
        for other in SIG_ALGS:
            if ktype(other) != ktype(alg):
                h = ref.b64e(json.dumps({"alg": other}).encode())
                add("%s as %s" % (alg, other),
                    v(".".join([h, q[1], q[2]]), n), REJ)
    zero = ref.b64e(b"\0" * 64)
    for crv, alg in (("p256", "ES256"),):
        h = ref.b64e(b'{"alg":"ES256"}') + "." + ref.b64e(b"1") + "."
        N = ref.CURVES["P-256"].n
        for nm, sig in (("zero", b"\0" * 64), ("n", ref.i2o(N, 32) * 2),
                        ("r=0", b"\0" * 32 + b"\1" * 32),
                        ("s=0", b"\1" * 32 + b"\0" * 32),
                        ("empty", b""), ("63", b"\1" * 63),
                        ("long", b"\1" * 65)):
            add("ES256 signature " + nm, v(h + ref.b64e(sig), "p256.3"), REJ)

    def js(mod):
        def f():
            from jwkest.jws import JWS
            es = []
            for a in ("HS256", "ES256"):
                t = ref.jws_make({"alg": a}, b'{"a":1}', K.MAT[keyname(a)],
                                 k=99).split(".")
                es.append({"protected": t[0], "signature": t[2]})
            d = {"payload": t[1], "signatures": es}
            if mod == "second":
                es[1]["signature"] = b64flip(es[1]["signature"], 3, 3)
            elif mod == "payload":
                d["payload"] = ref.b64e(b'{"a":2}')
            elif mod == "none left":
                d["signatures"] = []
            elif mod == "none":
                es[0] = {"protected": ref.b64e(b'{"alg":"none"}'),
                         "signature": ""}
            return JWS().verify_json(json.dumps(d), keys=[
                key("h0.32"), key("p256.3")])
        return f
    add("JSON", js(None), {"a": 1})
    for m in ("second", "payload", "none left", "none"):
        add("JSON " + m, js(m), REJ)

    # --- JWE
    for alg, n in [("RSA-OAEP", "r0"), ("RSA1_5", "r0"),
                   ("RSA-OAEP-256", "r0"), ("A128KW", "h0.16"),
                   ("A256KW", "h0.32"), ("ECDH-ES", "p256.3"),
                   ("ECDH-ES+A128KW", "p384.3")]:
        for enc in (CBC, "A256CBC-HS512") + (
                ("A128GCM",) if alg == "A128KW" else ()):
            t = ref.jwe_make({"alg": alg, "enc": enc}, PT, J.mat(alg, n),
                             J.octs("c", ref.CEKLEN[enc]),
                             J.octs("i", ref.IVLEN[enc]), epk_d=4321)

            def d(tok, *names):
                def f():
                    from jwkest.jwe import JWE
                    return JWE().decrypt(tok, [J.key(x) for x in names])
                return f

            def e(alg=alg, enc=enc, n=n):
                from jwkest.jwe import JWE
                t = JWE(PT, alg=alg, enc=enc).encrypt([J.key(n, False)])
                return ref.jwe_open(t, J.mat(alg, n))[1]
            nm = "%s %s" % (alg, enc)
            other = {"r": "r1", "h": "h5.16", "p": n[:5] + "7"}[n[0]]
            add(nm + " encrypt", e, PT)
            add(nm + " decrypt", d(t, n), PT)
            add(nm + " second key", d(t, other, n), PT)
            add(nm + " wrong key", d(t, other), REJ)
            add(nm + " no key", d(t), REJ)
            q = t.split(".")
            for i in range(5):
                r = list(q)
                if not r[i]:
                    r[i] = "AAAA"
                else:
                    r[i] = b64flip(r[i], 2, 0)
                add("%s part %d modified" % (nm, i), d(".".join(r), n), REJ)
            add(nm + " short tag", d(t[:-4], n), REJ)
            add(nm + " no tag", d(".".join(q[:4]) + ".", n), REJ)
            add(nm + " four parts", d(".".join(q[:4]), n), REJ)
            add(nm + " six parts", d(t + ".", n), REJ)
            h = json.loads(ref.b64d(q[0]))
            if "epk" in h:
                h["epk"] = dict(h["epk"], y=h["epk"]["x"])
                add(nm + " off curve", d(".".join([ref.b64e(json.dumps(
                    h).encode())] + q[1:]), n), REJ)

    # --- key wrap
    def unwrap(x):
        def f():
            from jwkest.aes_key_wrap import aes_unwrap_key
            return aes_unwrap_key(b"k" * 16, x)
        return f

    def wrap(x):
        def f():
            from jwkest.aes_key_wrap import aes_wrap_key
            return aes_wrap_key(b"k" * 16, x)
        return f
    w = ref.kw_wrap(b"k" * 16, b"abcdefgh" * 3)
    add("wrap", wrap(b"abcdefgh" * 3), w)
    add("unwrap", unwrap(w), b"abcdefgh" * 3)
    for n in (0, 1, 7, 15, 17, 23, 25):
        add("wrap %d" % n, wrap(b"x" * n), REJ)
        add("unwrap %d" % n, unwrap(w[:n]), REJ)
    for i in range(len(w)):
        add("unwrap modified %d" % i, unwrap(
            w[:i] + bytes([w[i] ^ 1]) + w[i + 1:]), REJ)

    # --- keys
    def load(spec, fn="keyrep"):
        def f():
            from jwkest import jwk
            if fn == "keyrep":
                k = jwk.keyrep(spec)
            else:
                k = list(jwk.KEYS().load_jwks(json.dumps({"keys": [spec]})))[0]
            j = k.serialize()
            j.pop("x5c", None)  # those are compared by C30 and C35
            j.pop("x5t", None)
            return j
        return f
    for n in ("r0", "p256.3", "p384.3", "p521.3", "h0.32"):
        j = ref.jwk_of(K.MAT[n], kid="k", use="sig")
        add("load " + n, load(j), j)
        add("load JWKS " + n, load(j, "jwks"), j)

        def th(j=j):
            from jwkest import jwk
            return jwk.keyrep(j).thumbprint("SHA-256")
        if n[0] != "p":
            add("thumbprint " + n, th, ref.thumbprint(j, "SHA-256"))
    for n in ("p256.3", "p384.3", "p521.3"):
        j = ref.jwk_of(K.MAT[n])
        for mod in (dict(y=j["x"]), dict(x=ref.b64e(b"\0" * 32)),
                    dict(crv="P-999"), dict(x="!")):
            add("bad EC %s %r" % (n, mod), load(dict(j, **mod)), REJ)
    x5 = {"kty": "RSA", "x5c": [K.cert_b64(0)]}
    good = dict(ref.jwk_of(K.MAT["r0"]))
    add("x5c", load(x5), good)
    add("x5t", load(dict(x5, x5t=K.x5t(0))), good)
    for bad in (K.x5t(1), "AAAA", K.x5t(0)[:-2] + "AA"):
        add("bad x5t " + bad, load(dict(x5, x5t=bad)), REJ)

    def eq(a, b):
        def f():
            ka, kb = K.build(a, "keyrep"), K.build(b, "keyrep")
            return ka == kb, ka != kb, len({ka, kb})
        return f
    for a in ("r0", "r1", "p256.3", "p256.4", "h0.32", "h1.32"):
        for b in ("r0", "r1", "p256.3", "p256.4", "h0.32", "h1.32"):
            add("%s == %s" % (a, b), eq(a, b),
                (a == b, a != b, 1 if a == b else 2))

    def dump():
        from jwkest import jwk
        ks = jwk.KEYS()
        for n in ("r0", "p256.3"):
            ks.append(K.build(n, "keyrep", True, kid="\u00e9" + n))
        return json.loads(ks.dump_jwks())
    add("dump", dump, {"keys": [ref.jwk_of(K.MAT[n], kid="\u00e9" + n)
                                for n in ("r0", "p256.3")]})

    # --- files
    def file(fn, name, attr="n"):
        def f():
            from jwkest import jwk
            return getattr(getattr(jwk, fn)(os.path.join(K.D, name)), attr)
        return f
    add("rsa_load", file("rsa_load", "rsa0.pem"), K.MAT["r0"][1].n)
    add("import_rsa_key_from_file", file("import_rsa_key_from_file",
                                         "rsa1.pem"), K.MAT["r1"][1].n)
    add("pem_cert2rsa", file("pem_cert2rsa", "cert1.pem"), K.MAT["r1"][1].n)

    # --- codecs
    def call(mod, fn, *a):
        def f():
            import importlib
            return getattr(importlib.import_module(mod), fn)(*a)
        return f
    for x in (b"", b"a", b"ab", b"abc", bytes(range(256))):
        add("b64e %r" % x[:4], call("jwkest", "b64e", x),
            ref.b64e(x).encode())
        add("b64d %r" % x[:4], call("jwkest", "b64d", ref.b64e(x).encode()),
            x)
    for x in ("!", "a", "ab+/", "ab=c", "a b c", "\u00e9\u00e9\u00e9\u00e9"):
        add("b64d bad %r" % x, call("jwkest", "b64d", x.encode()), REJ)
    for x in ("x.y", "", "a.b.c", "....", "\u00e9.\u00e9.\u00e9"):
        add("unpack %r" % x, lambda x=x: __import__(
            "jwkest.jwt").jwt.JWT().unpack(x), REJ)
    add("pbkdf2", lambda: __import__("jwkest.PBKDF2").PBKDF2.PBKDF2(
        "p", "s", 5).read(40), hashlib.pbkdf2_hmac("sha1", b"p", b"s", 5, 40))
    for a in (("p", "s", 0), ("p", "s", -1), (1, "s", 1), ("p", 1, 1),
              ("p", "s", "1")):
        add("pbkdf2 %r" % (a,), lambda a=a: __import__(
            "jwkest.PBKDF2").PBKDF2.PBKDF2(*a).read(1), REJ)
    return [x for x in out if x[2] is not None]


def norm(x):
    if raised(x):
        return REJ
    if isinstance(x, dict):
        return "json " + json.dumps(x, sort_keys=True)
    return repr(x)


def expected():
    return {n: (REJ if w == REJ else norm(w)) for n, f, w in cases()}


def main():
    out = {}
    for n, f, w in cases():
        RNG.reset(n)
        x = attempt(f)
        out[n] = norm(x), repr(x)
    sys.stdout.write(json.dumps(dict(
        flags=[sys.flags.optimize, sys.flags.hash_randomization],
        debug=__debug__, out=out)))


if __name__ == "__main__":
    main()
