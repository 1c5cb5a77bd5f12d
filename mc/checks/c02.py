"""C02: a compact JWS that was altered in any way is rejected."""
import itertools

from mc.core import Scope, check, Prune
from mc import ref, special, keys as K
from mc.jose import *

MSG = b'{"a":1}'


def token(alg, i=0, msg=MSG, hdr=None):
    h = {"alg": alg}
    h.update(hdr or {})
    return ref.jws_make(h, msg, K.MAT[keyname(alg, i)])


def vkey(alg, i=0):
    return K.build(keyname(alg, i), "keyrep", False)


_cache = {}


def cached(fn, *a):
    if (fn, a) not in _cache:
        _cache[(fn, a)] = fn(*a)
    return _cache[(fn, a)]


def must_reject(tok, keys, what, **kw):
    from jwkest.jws import JWS
    j = JWS()
    got = attempt(j.verify_compact, tok, keys, **kw)
    check(raised(got), "%s accepted, returned %r, token %r" % (
        what, got, tok), "accepted: " + what)
    check(j.msg is None, "%s: payload %r left in the instance" % (what, j.msg))


def bitflips(c):
    alg = c.choose("alg", SIG_ALGS)
    tok = cached(token, alg)
    parts = tok.split(".")
    pi = c.choose("part", [0, 1, 2])
    raw = ref.b64d(parts[pi])
    pos = c.choose("octet", range(len(raw)))
    bits = range(8)
    if TIER == "quick" and pi == 2 and alg[:2] != "HS":
        bits = [pos % 8]
    bit = c.choose("bit", bits)
    parts[pi] = b64flip(parts[pi], pos, bit)
    must_reject(".".join(parts), [cached(vkey, alg)], "flipped bit")
    c.done("rejected")


CHARS = [chr(x) for x in range(0, 128)] + [u"\u00e5", u"\uff21"]


def chars(c):
    """each character of the token replaced, deleted, doubled"""
    alg = c.choose("alg", ["HS256", "RS256", "ES256"])
    tok = cached(token, alg)
    pos = c.choose("position", range(len(tok)))
    full = alg == "HS256" or TIER != "quick"
    op = c.choose("op", ["delete", "double", "swap"] + (
        CHARS if full else ["A", ".", "=", "\n", "-", "\0"]))
    if op == "delete":
        new = tok[:pos] + tok[pos + 1:]
    elif op == "double":
        new = tok[:pos] + tok[pos] + tok[pos:]
    elif op == "swap":
        if pos + 1 >= len(tok):
            raise Prune()
        new = tok[:pos] + tok[pos + 1] + tok[pos] + tok[pos + 2:]
    else:
        new = tok[:pos] + op + tok[pos + 1:]
    if new == tok:
        raise Prune()
    try:
        a, b = ref.jws_parts(tok), ref.jws_parts(new)
        # the unused bits of the last character of the signature are not
        # covered: the octets are what they were
        if a[:2] == b[:2] and ref.b64d(a[2]) == ref.b64d(b[2]):
            raise Prune()
    except (ref.Reject, UnicodeError):
        pass
    must_reject(new, [cached(vkey, alg)], "changed character")
    c.done("rejected")


AFFIX = ["", "\n", " ", "\r\n", ".", "..", "=", "==", "\0", "A", "AA", "AAAA",
         ".AAAA", "\t", "====", "%20"]


def affixes(c):
    """something before, after, or between the parts"""
    alg = c.choose("alg", ["HS256", "RS256", "PS256", "ES256"])
    tok = cached(token, alg)
    where = c.choose("where", ["before", "after", "part0", "part1", "start1",
                               "start2"])
    x = c.choose("what", AFFIX[1:])
    asb = c.flag("bytes")
    h, p, s = tok.split(".")
    new = {"before": x + tok, "after": tok + x, "part0": h + x + "." + p + "." + s,
           "part1": h + "." + p + x + "." + s,
           "start1": h + "." + x + p + "." + s,
           "start2": h + "." + p + "." + x + s}[where]
    if where == "after" and set(x) == {"="}:
        raise Prune()       # padding of the signature: same octets
    must_reject(new.encode() if asb else new, [cached(vkey, alg)], "affix")
    c.done("rejected")


def sizes(c):
    """signature octets removed, added, moved"""
    alg = c.choose("alg", SIG_ALGS)
    tok = cached(token, alg)
    h, p, s = tok.split(".")
    sig = ref.b64d(s)
    half = len(sig) // 2
    ops = ["empty", "reverse", "halves swapped", "twice", "zeros", "ones",
           "split at dot"]
    n = len(sig)
    cuts = list(range(1, n + 1))
    if TIER == "quick" and n > 128:
        cuts = cuts[:20] + cuts[-20:]
    ops += [("tail cut", k) for k in cuts]
    ops += [("head cut", k) for k in cuts]
    ops += [("tail", b) for b in (b"\0", b"\0" * 8, b"\1", sig[-1:], b"\xff")]
    ops += [("head", b) for b in (b"\0", b"\0" * 8, b"\1", sig[:1])]
    ops += [("middle", b) for b in (b"\0", b"\0\0", b"\0" * 8, b"\1")]
    op = c.choose("op", ops)
    if op == "empty":
        new = b""
    elif op == "reverse":
        new = sig[::-1]
    elif op == "halves swapped":
        new = sig[half:] + sig[:half]
    elif op == "twice":
        new = sig + sig
    elif op == "zeros":
        new = b"\0" * n
    elif op == "ones":
        new = b"\xff" * n
    elif op == "split at dot":
        must_reject("%s.%s.%s.%s" % (h, p, ref.b64e(sig[:half]),
                                     ref.b64e(sig[half:])),
                    [cached(vkey, alg)], "signature in two parts")
        c.done("rejected")
        return
    elif op[0] == "tail cut":
        new = sig[:-op[1]]
    elif op[0] == "head cut":
        new = sig[op[1]:]
    elif op[0] == "tail":
        new = sig + op[1]
    elif op[0] == "head":
        new = op[1] + sig
    else:
        new = sig[:half] + op[1] + sig[half:]
    must_reject(h + "." + p + "." + ref.b64e(new), [cached(vkey, alg)],
                "signature %s" % (op if isinstance(op, str) else op[0]))
    c.done("rejected")


def edged(alg, at, value):
    for i in range(1 << 14):
        t = token(alg, 0, b"edge %d" % i)
        s = ref.b64d(t.split(".")[2])
        if s[at if at < len(s) else len(s) // 2] == value:
            return t


def edges(c):
    """signatures that start or end with an octet that padding is made of
    (also within: the start of an ECDSA signature's s)"""
    alg = c.choose("alg", SIG_ALGS)
    at = c.choose("end", [0, -1] + ([999] if alg[:2] == "ES" else []))
    value = c.choose("octet", [0, 0x20, 0x0a, 0x3d, 0xff]
                     if alg[:2] == "HS" else [0])
    how = c.choose("how", ["without", "twice", "other end", "moved"])
    t = cached(edged, alg, at, value)
    h, p, s = t.split(".")
    s = ref.b64d(s)
    i = {0: 0, -1: len(s) - 1, 999: len(s) // 2}[at]
    b = s[i:i + 1]
    rest = s[:i] + s[i + 1:]
    new = {"without": rest, "twice": s[:i] + b + s[i:],
           "other end": s + b if at != -1 else b + s,
           "moved": rest + b if at != -1 else b + rest}[how]
    if new == s:
        raise Prune()
    must_reject("%s.%s.%s" % (h, p, ref.b64e(new)), [cached(vkey, alg)],
                "signature with %02x at %d: %s" % (value, at, how))
    c.done("rejected")


def pool():
    if "pool" not in _cache:
        _cache["pool"] = [
            token("HS256", 0, b"one"), token("HS256", 0, b"two"),
            token("HS256", 1, b"one"), token("HS384", 0, b"one"),
            token("HS256", 0, b"one", {"kid": "z"}),
            token("RS256", 0, b"one"), token("ES256", 0, b"one"),
            token("ES256", 0, b"two"),
            # the same octets cut elsewhere: dots are part of what is signed
            token("HS256", 0, b"")]
    return _cache["pool"]


def splice(c):
    """parts of different valid tokens combined"""
    P = pool()
    segs = sorted({s for t in P for s in t.split(".")})
    a = c.choose("header", segs)
    b = c.choose("payload", segs)
    s = c.choose("signature", segs + [""])
    tok = ".".join([a, b, s])
    if tok in P:
        raise Prune()
    keys = [K.build("h0.32", "octets"), K.build("h0.48", "octets"),
            K.build("r0", "jwk", False),
            K.build("p256.3", "jwk", False)]
    must_reject(tok, keys, "spliced token")
    c.done("rejected")


def shapes(c):
    """wrong number of parts"""
    alg = c.choose("alg", ["HS256", "RS256", "ES256"])
    tok = cached(token, alg)
    h, p, s = tok.split(".")
    seq = c.choose("parts", [
        t for n in (0, 1, 2, 3, 4, 5)
        for t in itertools.product("hps-", repeat=n)])
    new = ".".join({"h": h, "p": p, "s": s, "-": ""}[x] for x in seq)
    if new == tok:
        raise Prune()
    must_reject(new, [cached(vkey, alg)], "wrong shape")
    c.done("rejected")


def wrong_alg(c):
    """the signature was made with another algorithm (same or other key)"""
    a = c.choose("header alg", SIG_ALGS)
    b = c.choose("signed with", SIG_ALGS)
    own = c.flag("with the key that goes with the header")
    if a == b:
        raise Prune()
    if own and (ktype(a) != ktype(b) or a[:2] == "ES"):
        raise Prune()
    mat = K.MAT[keyname(a if own else b)]
    hb = ref.enc_json({"alg": a})
    tok = ref.jws_make(hb, MSG, mat, alg=b)
    keys = [K.build(keyname(a), "keyrep", False)]
    if keyname(a) != keyname(b):
        keys.append(K.build(keyname(b), "keyrep", False))
    must_reject(tok, keys, "alg %s but signed with %s" % (a, b))
    c.done("rejected")


def wrong_key(c):
    alg = c.choose("alg", SIG_ALGS)
    how = c.choose("keys", ["other", "none", "empty", "others", "other types",
                            "one bit", "prefix"])
    kw = {}
    if how == "other":
        keys = [cached(vkey, alg, 1)]
    elif how == "none":
        keys = None
    elif how == "empty":
        keys = []
    elif how == "others":
        keys = [K.build(n, "jwk", False) for n in
                ("r1", "h1.32", "h1.48", "h1.64", "p256.9", "p384.9",
                 "p521.9")]
    elif how == "other types":
        keys = [K.build(n, "jwk", False) for n in
                ("r0", "h0.32", "h0.48", "h0.64", "p256.3", "p384.3",
                 "p521.3") if K.MAT[n] is not K.MAT[keyname(alg)]]
    else:
        if alg[:2] != "HS":
            raise Prune()
        from jwkest.jwk import SYMKey
        k = bytearray(K.MAT[keyname(alg)][1])
        if how == "one bit":
            pos = c.choose("octet", range(len(k)))
            k[pos] ^= 1 << c.choose("bit", range(8))
        else:
            k = k[:c.choose("length", range(1, len(k)))]
        keys = [SYMKey(key=bytes(k))]
    must_reject(cached(token, alg), keys, "wrong key")
    c.done("rejected")


def ec_forged(c):
    """(r, s) on the edges of their range"""
    alg = c.choose("alg", ES)
    crv = ref.ES[alg][0]
    cv = ref.CURVES[crv]
    top = (1 << (8 * cv.bytes)) - 1
    edge = [0, 1, 2, cv.n - 1, cv.n, cv.n + 1, cv.p, cv.g[0] % cv.n, top]
    edge = [e for e in edge if e <= top]
    r = c.choose("r", edge + ["real", "real+n"])
    s = c.choose("s", edge + ["real", "real+n"])
    pubkey = c.choose("key", ["normal", "generator"])
    if r == "real" and s == "real":
        raise Prune()
    mat = K.MAT[keyname(alg)] if pubkey == "normal" else (
        "EC", crv, cv.g, 1)
    h, p, sg = ref.jws_make({"alg": alg}, MSG, mat).split(".")
    sig = ref.b64d(sg)
    rr, ss = ref.o2i(sig[:cv.bytes]), ref.o2i(sig[cv.bytes:])
    vals = []
    for v, real in ((r, rr), (s, ss)):
        if v == "real":
            v = real
        elif v == "real+n":
            v = real + cv.n
            if v > top:
                raise Prune()
        vals.append(ref.i2o(v, cv.bytes))
    new = vals[0] + vals[1]
    z = ref.hash_int(alg[2:], (h + "." + p).encode(), cv.n)
    if ref.ecdsa_verify(cv, z, new, mat[2]):
        raise Prune()
    from jwkest.jwk import keyrep
    must_reject(h + "." + p + "." + ref.b64e(new),
                [keyrep(ref.jwk_of(mat))], "forged (r, s)")
    c.done("rejected")


def ec_unreduced(c):
    """r and s that are right modulo the group order only"""
    alg = c.choose("alg", ES)
    crv, bits = ref.ES[alg]
    cv = ref.CURVES[crv]
    top = 1 << (8 * cv.bytes)
    which = c.choose("which", ["r", "s", "r and s"])
    x = c.choose("x of R", [1, 1000, cv.n + 1, (cv.n + cv.p) // 2])
    s = c.choose("s", [1, 2, 1000])
    mult = c.choose("times n", [1, 2, -1, (top - 1) // cv.n])
    si = ref.b64e(ref.enc_json({"alg": alg})) + "." + ref.b64e(MSG)
    z = ref.hash_int(bits, si.encode(), cv.n)
    mat, r = cached(special.key_for_r, crv, z, x, s)
    if "r" in which.split():
        r += mult * cv.n
    if "s" in which.split():
        s += mult * cv.n
    if not (0 <= r < top and 0 <= s < top):
        raise Prune()
    from jwkest.jwk import keyrep
    must_reject(si + "." + ref.b64e(ref.i2o(r, cv.bytes) +
                                    ref.i2o(s, cv.bytes)),
                [keyrep(ref.jwk_of(mat))], "unreduced (r, s)")
    c.done("rejected")


def rsa_forged(c):
    """signature representatives on the edges; other paddings"""
    alg = c.choose("alg", RS + PS)
    key = K.MAT["r0"][1]
    kind = c.choose("kind", [
        "0", "1", "n-1", "n", "n+1", "sig+n", "raw hash", "raw digestinfo",
        "short ff run", "garbage after hash", "no digestinfo",
        "type 2 block", "e root"])
    hb = ref.enc_json({"alg": alg})
    h, p, s = ref.jws_make(hb, MSG, K.MAT["r0"], alg=alg).split(".")
    data = (h + "." + p).encode()
    dig = ref.HLIB[alg[2:]](data).digest()
    prefix = {"256": "3031300d060960864801650304020105000420",
              "384": "3041300d060960864801650304020205000430",
              "512": "3051300d060960864801650304020305000440"}[alg[2:]]
    di = bytes.fromhex(prefix) + dig
    k = key.size_in_bytes()
    n = key.n

    def raw(em):
        return ref.i2o(pow(ref.o2i(em), key.d, n), k)
    if kind in ("0", "1", "n-1", "n", "n+1"):
        v = {"0": 0, "1": 1, "n-1": n - 1, "n": n, "n+1": n + 1}[kind]
        sig = ref.i2o(v, k)
    elif kind == "sig+n":
        sig = ref.i2o(ref.o2i(ref.b64d(s)) + n, k + 1)
    elif kind == "raw hash":
        sig = raw(dig)
    elif kind == "raw digestinfo":
        sig = raw(di)
    elif kind == "short ff run":
        sig = raw(b"\0\1" + b"\xff" * 8 + b"\0" + di + b"\0" * (
            k - 11 - len(di)))
    elif kind == "garbage after hash":
        sig = raw(b"\0\1" + b"\xff" * (k - 3 - len(di) - 16) + b"\0" + di +
                  b"g" * 16)
    elif kind == "no digestinfo":
        sig = raw(b"\0\1" + b"\xff" * (k - 3 - len(dig)) + b"\0" + dig)
    elif kind == "type 2 block":
        sig = raw(b"\0\2" + b"\xff" * (k - 3 - len(di)) + b"\0" + di)
    else:
        # integer root of a padded block with garbage at the end
        v = ref.o2i(b"\0\1" + b"\xff" * 8 + b"\0" + di + b"\0" * (
            k - 11 - len(di)))
        sig = ref.i2o(int(round(v ** 0.5)) if v < 2 ** 1000 else
                      __import__("math").isqrt(v), k)
    if ref.sig_verify(alg, data, sig, K.MAT["r0"]):
        raise Prune()
    must_reject(h + "." + p + "." + ref.b64e(sig), [cached(vkey, alg)],
                "forged RSA signature: " + kind)
    c.done("rejected")


def large(c):
    """one changed octet anywhere in a long token"""
    alg = c.choose("alg", ["HS256", "HS512", "RS256", "PS384", "ES256",
                           "ES512"])
    n = c.choose("size", HUGE)
    what = c.choose("what", ["payload", "header"])
    if what == "header" and n > 65537:
        raise Prune()
    body = pattern(n)
    if what == "payload":
        tok = cached(token, alg, 0, body)
        part = 1
    else:
        if (alg, n) not in _cache:
            _cache[alg, n] = token(alg, 0, b"m", {"h": ref.b64e(body)})
        tok = _cache[alg, n]
        part = 0
    parts = tok.split(".")
    end = len(ref.b64d(parts[part]))
    ops = ["cut", "append", "cut half", "swap halves"] + sorted(
        {x for x in [0, 1, end // 2, end - 2, end - 1] + [
            (1 << k) + d for k in range(6, 21) for d in (-1, 0, 1)]
         if 0 <= x < end})
    op = c.choose("op", ops)
    raw = ref.b64d(parts[part])
    if op == "cut":
        new = raw[:-1]
    elif op == "append":
        new = raw + b"\0"
    elif op == "cut half":
        new = raw[:end // 2]
    elif op == "swap halves":
        new = raw[end // 2:] + raw[:end // 2]
    else:
        new = bytearray(raw)
        new[op] ^= 1
    parts[part] = ref.b64e(bytes(new))
    must_reject(".".join(parts), [cached(vkey, alg)], "%s of %d octets, %s" % (
        what, n, op))
    c.done("rejected")


def histories(c):
    """what was verified before has no influence on what is accepted"""
    from jwkest.jws import JWS
    alg = c.choose("alg", SIG_ALGS if TIER != "quick" else [
        "HS256", "RS512", "PS384", "ES256"])
    one = c.flag("one JWS object")
    if ("hist", alg) not in _cache:
        good = [token(alg, 0, b'"one"'), token(alg, 0, b'"two"')]
        a, b = good[0].split("."), good[1].split(".")
        other = token(alg, 1, b'"one"')
        hdr = ref.b64e(ref.enc_json({"alg": alg, "typ": "x"}))
        _cache["hist", alg] = [
            (good[0], "one"), (good[1], "two"),
            (".".join([a[0], a[1], b[2]]), None),
            (".".join([a[0], b[1], a[2]]), None),
            (".".join([hdr, a[1], a[2]]), None),
            (".".join([a[0], a[1], ""]), None),
            (".".join([a[0], a[1], b64flip(a[2], 0, 0)]), None),
            (".".join([a[0], a[1], b64flip(a[2], len(ref.b64d(a[2])) - 1,
                                           0)]), None),
            (".".join([a[0], a[1], other.split(".")[2]]), None)]
    tokens = _cache["hist", alg]
    keys = [cached(vkey, alg)]
    js = [JWS(), JWS()]
    for step in range(3):
        tok, want = tokens[c.choose("token", range(len(tokens)))]
        j = js[0] if one else js[step % 2]
        if step == 2 and not one:
            j = JWS()
        got = attempt(j.verify_compact, tok, keys)
        if want is None:
            check(raised(got), "modified token accepted after others: %r" % (
                got,))
        else:
            check(got == want, "valid token: %r" % (got,))
    c.done("ok")


TIER = "quick"


def scopes(tier):
    global TIER
    TIER = tier
    from jwkest import jws, jwk
    return [
        Scope("bit flips", bitflips, 3, "every bit of header and payload "
              "octets; every octet (quick) or bit (thorough, HS always) of the "
              "signature; 12 algorithms"),
        Scope("characters", chars, 2, "every position of a token x 130 "
              "replacement characters, deletion, doubling, transposition"),
        Scope("affixes", affixes, 1, "15 strings at 6 places"),
        Scope("signature sizes", sizes, 1, "every truncation at either end, "
              "insertions"),
        Scope("edges", edges, 1, "signatures that start or end with a zero "
              "octet (or 4 others), without it, twice, moved"),
        Scope("splices", splice, 1, "all triples of parts from 9 tokens"),
        Scope("shapes", shapes, 1, "all sequences of up to 5 parts over "
              "{header, payload, signature, empty}"),
        Scope("other algorithm", wrong_alg, 1, "12 x 12 algorithm pairs"),
        Scope("wrong keys", wrong_key, 1, "every one-bit neighbour and prefix "
              "of a HMAC key; 5 kinds of key lists"),
        Scope("forged ecdsa", ec_forged, 1, "11 x 11 values of (r, s), 2 "
              "keys, 3 curves"),
        Scope("unreduced ecdsa", ec_unreduced, 1, "multiples of the group "
              "order added to r, s or both of signatures with small values"),
        Scope("large tokens", large, 2, "payloads and headers of 14 sizes up "
              "to 1 MiB, changed around every power of 2"),
        Scope("histories", histories, 2, "all sequences of 3 of 9 valid and "
              "modified tokens, same key objects, 4 algorithms (thorough 12)"),
        Scope("forged rsa", rsa_forged, 1, "13 forgeries x 6 algorithms"),
    ]
