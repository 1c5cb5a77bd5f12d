"""C11: a modified JWE is never decrypted."""
import functools
import itertools
import json

from mc.core import Scope, check, Prune
from mc import ref, keys as K, jwe as J
from mc.jose import *

PARTS = ["header", "encrypted key", "iv", "ciphertext", "tag"]
PT = b"attack at dawn, twenty"
FAST = "A128CBC-HS256"


@functools.lru_cache(None)
def token(alg, name, enc, i=0, z=False, extra=()):
    hdr = dict({"alg": alg, "enc": enc}, **dict(extra))
    if z:
        hdr["zip"] = "DEF"
    return ref.jwe_make(hdr, PT if i == 0 else b"another message %d" % i,
                        J.mat(alg, name), J.octs("cek%d" % i,
                                                 ref.CEKLEN[enc]),
                        J.octs("iv%d" % i, ref.IVLEN[enc]),
                        epk_d=1000003 + i * 17)


def opens(tok, alg, name, api="decrypt", cek=None):
    from jwkest import jwe
    from jwkest.jwe import JWE
    keys = [J.key(name)]
    if api.startswith("class"):
        return J.classes(tok, keys[0], alg, cek, api)
    if api == "factory":
        j = attempt(jwe.factory, tok)
        if j is None or raised(j):
            return j if raised(j) else Raised(ValueError("not a JWE"))
        return attempt(j.decrypt, None, keys)
    if api == "cek":
        return attempt(JWE().decrypt, tok, None, None, cek)
    return attempt(JWE().decrypt, tok, keys)


def reject(c, tok, orig, alg, name, what, api="decrypt", cek=None):
    if tok == orig:
        raise Prune()
    r = opens(tok, alg, name, api, cek)
    check(raised(r), "%s: decrypts to %r\n%s" % (what, r, tok))
    c.done(r.name)


CASES_CBC = [("A128KW", "h0.16", e) for e in J.CBC] + [
    (a, n, FAST) for a, n in J.KM
    if a != "A128KW" and not n.startswith(("p384", "p521"))]


def bits(cases, parts, apis, step=1, bitset=range(8), z=False):
    def body(c):
        alg, name, enc = c.choose("token", cases)
        p = c.choose("part", parts)
        api = c.choose("api", apis)
        t = token(alg, name, enc, 0, z)
        ps = t.split(".")
        n = len(ref.b64d(ps[p]))
        if n == 0 or (
                api.endswith("cek") and (p == 1 or alg[0] == "E")):
            raise Prune()
        pos = c.choose("octet", range(0, n, step))
        bit = c.choose("bit", bitset)
        ps[p] = b64flip(ps[p], pos, bit)
        reject(c, ".".join(ps), t, alg, name, "%s %s, %s octet %d bit %d" % (
            alg, enc, PARTS[p], pos, bit), api, J.octs(
                "cek0", ref.CEKLEN[enc]))
    return body


def lengths(cases, cuts, apis=("decrypt",)):
    """parts cut, extended, emptied"""
    def body(c):
        alg, name, enc = c.choose("token", cases)
        p = c.choose("part", range(5))
        api = c.choose("api", apis) if len(apis) > 1 else apis[0]
        if api == "class cek" and (alg[0] == "E" or p == 1):
            raise Prune()
        t = token(alg, name, enc)
        ps = t.split(".")
        raw = ref.b64d(ps[p])
        how = c.choose("how", ["cut end", "cut start", "append", "prepend",
                               "empty", "twice", "zeros instead"])
        k = 0
        if how[:3] in ("cut", "app", "pre"):
            k = c.choose("octets", cuts)
            if how.startswith("cut") and k > len(raw):
                raise Prune()
        fill = c.choose("fill", [b"\0", b"\x10", b"A"]) \
            if how in ("append", "prepend") else b"\0"
        raw = {"cut end": raw[:len(raw) - k], "cut start": raw[k:],
               "append": raw + fill * k, "prepend": fill * k + raw,
               "empty": b"", "twice": raw + raw,
               "zeros instead": bytes(len(raw))}[how]
        ps[p] = ref.b64e(raw)
        reject(c, ".".join(ps), t, alg, name, "%s %s, %s %s %d %s" % (
            alg, enc, PARTS[p], how, k, api), api,
            J.octs("cek0", ref.CEKLEN[enc]))
    return body


def reframe(c):
    """octets moved across part boundaries, the concatenation unchanged"""
    alg, name, enc = c.choose("token", [("A128KW", "h0.16", e)
                                        for e in J.CBC] +
                              [("ECDH-ES", "p256.3", FAST)])
    a = c.choose("boundary", [(1, 2), (2, 3), (3, 4), (0, 2), (2, 4)])
    k = c.choose("octets moved", [x for x in range(-33, 34) if x])
    t = token(alg, name, enc)
    ps = t.split(".")
    x, y = ref.b64d(ps[a[0]]), ref.b64d(ps[a[1]])
    if a[0] == 0:
        # the text of the header part is what's authenticated
        x = ps[0].encode()
    s = x + y
    cut = len(x) + k
    if cut < 0 or cut > len(s):
        raise Prune()
    if a[0] == 0:
        try:
            ps[0] = s[:cut].decode("ascii")
        except UnicodeDecodeError:
            raise Prune()
        if "." in ps[0]:
            raise Prune()
    else:
        ps[a[0]] = ref.b64e(s[:cut])
    ps[a[1]] = ref.b64e(s[cut:])
    reject(c, ".".join(ps), t, alg, name, "%s %s: %d octets over boundary %s" %
           (alg, enc, k, a))


CLASSES = ["class", "class JWEnc", "class cek"]


def counts(c):
    alg, name, enc = c.choose("token", CASES_CBC)
    api = c.choose("api", ["decrypt"] + CLASSES)
    if api == "class cek" and alg[0] == "E":
        raise Prune()
    cek = J.octs("cek0", ref.CEKLEN[enc])
    how = c.choose("how", ["drop", "add", "dup", "swap", "short", "glue",
                           "sep"])
    t = token(alg, name, enc)
    ps = t.split(".")
    if how == "drop":
        k = c.choose("which", [x for n in (1, 2, 3)
                               for x in itertools.combinations(range(5), n)])
        ps = [p for i, p in enumerate(ps) if i not in k]
    elif how == "add":
        i = c.choose("at", range(6))
        ps.insert(i, c.choose("part", ["", "AAAA", ps[4], ps[0], ps[1]]))
    elif how == "dup":
        i = c.choose("which", range(5))
        for _ in range(c.choose("times", [1, 2, 5])):
            ps.append(ps[i])
    elif how == "swap":
        ps = list(c.choose("order", [p for p in itertools.permutations(ps)
                                     if list(p) != ps]))
    elif how == "short":
        n = c.choose("characters", range(0, len(t)))
        return reject(c, t[:n], t, alg, name, "cut to %d characters" % n,
                      api, cek)
    elif how == "glue":
        i = c.choose("dot", range(4))
        ps[i:i + 2] = [ps[i] + ps[i + 1]]
    else:
        s = c.choose("separator", ["..", " .", ",", "\n", "%2E", ":"])
        i = c.choose("dot", range(4))
        tok = ".".join(ps[:i + 1]) + s + ".".join(ps[i + 1:])
        if s == " .":
            raise Prune()       # white space around base64 is not judged
        return reject(c, tok, t, alg, name, "separator %r" % s, api,
                      cek)
    if api == "class cek":
        a, b = t.split("."), ps
        if len(b) == 5 and [x for i, x in enumerate(a) if i != 1] == \
                [x for i, x in enumerate(b) if i != 1]:
            raise Prune()       # only the encrypted key, which is not needed
    reject(c, ".".join(ps), t, alg, name, "%s: %d parts, %s" % (
        how, len(ps), api), api, cek)


POOLS = {
    "RSA": [("RSA-OAEP", "r0", FAST, 0), ("RSA-OAEP", "r0", FAST, 1),
            ("RSA1_5", "r0", FAST, 2), ("RSA-OAEP", "r0", J.CBC[1], 3)],
    "KW": [("A128KW", "h0.16", FAST, 0), ("A128KW", "h0.16", FAST, 1),
           ("A256KW", "h0.16", FAST, 2), ("A128KW", "h0.16", J.CBC[2], 3)],
    "EC": [("ECDH-ES", "p256.3", FAST, 0), ("ECDH-ES", "p256.3", FAST, 1),
           ("ECDH-ES+A128KW", "p256.3", FAST, 2),
           ("ECDH-ES+A128KW", "p256.3", FAST, 3)],
}


def splice(c):
    """every recombination of the parts of four tokens for the same key"""
    pn = c.choose("pool", sorted(POOLS))
    pool = POOLS[pn]
    idx = [c.choose(PARTS[i], range(4)) for i in range(5)]
    toks = [token(a, n, e, i) for a, n, e, i in pool]
    if len(set(idx)) > 3:
        raise Prune()
    t = ".".join(toks[i].split(".")[k] for k, i in enumerate(idx))
    if t in toks:
        raise Prune()
    alg, name = pool[idx[0]][:2]
    reject(c, t, None, alg, name, "%s splice %s" % (pn, idx))


def header(c):
    """the header says something else, everything else stays"""
    alg, name, enc = c.choose("token", CASES_CBC)
    z = c.flag("zip")
    t = token(alg, name, enc, 0, z)
    ps = t.split(".")
    h = json.loads(ref.b64d(ps[0]))
    fam = [a for a in ref.RSA_ALGS + ref.KW_ALGS + ref.EC_ALGS]
    edit = c.choose("edit", [("alg", a) for a in fam + ["dir", "none"]] +
                    [("enc", e) for e in ref.ENCS + ["none", ""]] +
                    [("zip", x) for x in ("DEF", "", None, "GZ")] +
                    [("kid", ""), ("kid", None), ("typ", "JWT"), ("x", 1),
                     ("apu", "QQ"), ("apv", "QQ"), ("crit", []),
                     ("-", "alg"), ("-", "enc"), ("-", "zip"), ("-", "epk"),
                     ("spaces", 0), ("order", 0), ("bom", 0), ("nul", 0)])
    k, v = edit
    txt = None
    if k == "-":
        if v not in h:
            raise Prune()
        del h[v]
    elif k == "spaces":
        txt = json.dumps(h).encode()
    elif k == "order":
        txt = json.dumps(dict(reversed(list(h.items()))),
                         separators=(",", ":")).encode()
    elif k == "bom":
        txt = b"\xef\xbb\xbf" + ref.b64d(ps[0])
    elif k == "nul":
        txt = ref.b64d(ps[0]) + b"\0"
    else:
        h[k] = v
    ps[0] = ref.b64e(txt or ref.enc_json(h))
    reject(c, ".".join(ps), t, alg, name, "%s header %r" % (alg, edit))


def header_chars(c):
    """the text of the header part is authenticated, not what it decodes to"""
    alg, name, enc = c.choose("token", [("A128KW", "h0.16", FAST),
                                        ("RSA-OAEP", "r0", FAST),
                                        ("ECDH-ES", "p256.3", FAST),
                                        ("A128KW", "h0.16", J.CBC[1])])
    t = token(alg, name, enc, 0, False, (("p", "x"),)) \
        if c.flag("other length") else token(alg, name, enc)
    ps = t.split(".")
    how = c.choose("how", ["change", "pad", "insert"])
    if how == "change":
        i = c.choose("at", range(len(ps[0])))
        ch = c.choose("to", ["A", "B", "_", "-", "9", "+", "/"])
        ps[0] = ps[0][:i] + ch + ps[0][i + 1:]
    elif how == "pad":
        ps[0] += c.choose("padding", ["=", "==", "===", "A", "AA", "AAAA"])
    else:
        i = c.choose("at", range(len(ps[0]) + 1))
        ch = c.choose("what", ["\n", " ", "A", "=", "\t", u"\u00e5"])
        ps[0] = ps[0][:i] + ch + ps[0][i:]
    reject(c, ".".join(ps), t, alg, name, "%s header text %s" % (alg, how))


@functools.lru_cache(None)
def edged(alg, name, enc, p, at, value):
    """a token, part p of which starts or ends with that octet"""
    for i in range(1 << 16):
        iv = J.octs("edge%d" % i, ref.IVLEN[enc])
        if p == 2:
            iv = bytes([value]) + iv[1:] if at == 0 else \
                iv[:-1] + bytes([value])
        tok = ref.jwe_make({"alg": alg, "enc": enc}, PT, J.mat(alg, name),
                           J.octs("edge%d" % (i if p == 1 else 0),
                                  ref.CEKLEN[enc]), iv, epk_d=99)
        if ref.b64d(tok.split(".")[p])[at] == value:
            return tok


def edges(c):
    """parts that start or end with an octet that padding is made of; without
    it, or with more of it, it's another token"""
    alg, name, enc = c.choose("token", [("A128KW", "h0.16", e)
                                        for e in J.CBC] + [
        ("A128KW", "h0.16", "A128GCM"), ("RSA-OAEP", "r0", FAST),
        ("RSA1_5", "r0", FAST), ("ECDH-ES+A128KW", "p256.3", FAST)])
    p = c.choose("part", [1, 2, 3, 4])
    at = c.choose("end", [0, -1])
    value = c.choose("octet", [0] if alg[0] == "R" and p == 1 else
                     [0, 1, 0x20, 0x0a, 0x3d, 0xff])
    if "GCM" in enc and value not in (0, 0x20):
        raise Prune()
    how = c.choose("how", ["without", "twice", "other end", "moved"])
    t = edged(alg, name, enc, p, at, value)
    ps = t.split(".")
    raw = ref.b64d(ps[p])
    b = bytes([value])
    rest = raw[1:] if at == 0 else raw[:-1]
    ps[p] = ref.b64e({
        "without": rest, "twice": b + raw if at == 0 else raw + b,
        "other end": raw + b if at == 0 else b + raw,
        "moved": rest + b if at == 0 else b + rest}[how])
    check(not raised(opens(t, alg, name)), "%s is refused" % t)
    reject(c, ".".join(ps), t, alg, name, "%s %s, %s with %02x at %d: %s" % (
        alg, enc, PARTS[p], value, at, how))


CEKS = {"zeros": bytes, "ff": lambda n: b"\xff" * n,
        "empty": lambda n: b"", "one": lambda n: b"\x01" * n,
        "earlier": lambda n: J.octs("cek0", n)}


def predictable(c):
    """whoever doesn't know the key makes a token for a CEK that a careless
    recipient might fall back on"""
    from jwkest.jwe import JWE
    alg, name, enc = c.choose("key management", [
        x for x in CASES_CBC if x[0] != "ECDH-ES"])
    ck = c.choose("cek", sorted(CEKS))
    ek = c.choose("encrypted key", ["empty", "zeros", "garbage", "one octet",
                                    "the cek", "of another key", "too long",
                                    "same length zeros", "ff"])
    hist = c.choose("before", ["nothing", "decrypted good",
                               "encrypted", "decrypted good, factory"])
    api = c.choose("keys", ["right", "wrong, right", "none"])
    cek = CEKS[ck](ref.CEKLEN[enc])
    good = token(alg, name, enc)
    n = len(ref.b64d(good.split(".")[1]))
    ekb = {"empty": b"", "zeros": bytes(16), "garbage": J.octs("g", n),
           "one octet": b"\0", "the cek": cek, "too long": J.octs("g", n + 8),
           "same length zeros": bytes(n), "ff": b"\xff" * n,
           "of another key": None}[ek]
    if ekb is None:
        other = {"r": "r1", "h": "h1" + name[2:], "p": "p256.4"}[name[0]]
        ekb = ref.b64d(token(alg, other, enc).split(".")[1])
        cek = J.octs("cek0", ref.CEKLEN[enc]) if ck == "earlier" else cek
    hdr = json.loads(ref.b64d(good.split(".")[0]))
    h = ref.b64e(ref.enc_json(hdr))
    full = cek or bytes(ref.CEKLEN[enc])
    iv = b"i" * 16
    ct, tag = ref.content_encrypt(enc, full, iv, h.encode(), b"forged")
    tok = ".".join([h, ref.b64e(ekb), ref.b64e(iv), ref.b64e(ct),
                    ref.b64e(tag)])
    j = JWE(b"m", alg=alg, enc=enc)
    key = J.key(name)
    if hist.startswith("decrypted"):
        check(attempt(j.decrypt, good, [key]) == PT, "good token")
    elif hist == "encrypted":
        check(not raised(attempt(j.encrypt, [key])), "encrypt")
    wrong = J.key({"r": "r1", "h": "h1.16", "p": "p256.4"}[name[0]])
    ks = {"right": [key], "wrong, right": [wrong, key], "none": []}[api]
    if ek == "of another key" and api == "wrong, right":
        raise Prune()           # it might be addressed to that key
    if hist.endswith("factory"):
        r = attempt(j.decrypt, None, ks) if api == "none" else Raised(
            ValueError())
        if raised(r):
            r = attempt(j.decrypt, tok, ks)
    else:
        r = attempt(j.decrypt, tok, ks)
    check(raised(r), "%s %s: token with encrypted key %s for CEK %s decrypts "
          "to %r" % (alg, enc, ek, ck, r))
    c.done(r.name)


def wrapped(c):
    """the right CEK, wrapped in another way"""
    alg, name, enc = c.choose("token", [("A128KW", "h0.16", e)
                                        for e in J.CBC] +
                              [("A192KW", "h0.24", FAST),
                               ("A256KW", "h0.32", FAST)])
    kek = J.mat(alg, name)[1]
    cek = J.octs("cek0", ref.CEKLEN[enc])
    how = c.choose("wrapping", ["iv 0", "iv bit", "iv a65959a6", "raw ecb",
                                "longer cek", "shorter cek", "plain"])
    t = token(alg, name, enc)
    iv = b"\xa6" * 8
    if how == "iv 0":
        ek = ref.kw_wrap(kek, cek, bytes(8))
    elif how == "iv bit":
        b = c.choose("bit", range(64))
        ek = ref.kw_wrap(kek, cek, ref.i2o(ref.o2i(iv) ^ (1 << b), 8))
    elif how == "iv a65959a6":
        ek = ref.kw_wrap(kek, cek, bytes.fromhex("a65959a6") +
                         ref.i2o(len(cek), 4))
    elif how == "raw ecb":
        from Cryptodome.Cipher import AES
        ek = AES.new(kek, AES.MODE_ECB).encrypt(cek)
    elif how == "longer cek":
        ek = ref.kw_wrap(kek, cek + bytes(8 * c.choose("blocks", [1, 2, 4])))
    elif how == "shorter cek":
        ek = ref.kw_wrap(kek, cek[:-8 * c.choose("blocks", [1, 2])])
    else:
        ek = cek
    ps = t.split(".")
    ps[1] = ref.b64e(ek)
    reject(c, ".".join(ps), t, alg, name, "%s %s wrapping %s" % (
        alg, enc, how))


def sender(c):
    """flaws that only one who knows the CEK can make"""
    alg, name = c.choose("alg", [("A128KW", "h0.16"), ("RSA-OAEP", "r0"),
                                 ("ECDH-ES+A128KW", "p256.3")])
    enc = c.choose("enc", J.CBC)
    how = c.choose("flaw", ["tag of other aad", "tag full", "tag other half",
                            "tag no AL", "tag octet AL", "key halves swapped",
                            "padding", "cut tag", "bad zip", "cut zip",
                            "zip unknown", "mac iv last"])
    import hashlib
    import hmac
    import struct
    from Cryptodome.Cipher import AES
    n = ref.CEKLEN[enc] // 2
    hn = ref.HLIB[enc.rsplit("HS", 1)[1]]
    cek = J.octs("cek0", 2 * n)
    iv = J.octs("iv0", 16)
    hdr = {"alg": alg, "enc": enc}
    if "zip" in how:
        hdr["zip"] = "XXX" if how == "zip unknown" else "DEF"
    base = ref.jwe_make(dict(hdr), PT, J.mat(alg, name), cek, iv, epk_d=77777)
    ps = base.split(".")
    aad = ps[0].encode()
    pt = PT
    if how == "bad zip":
        pt = c.choose("data", [b"\xff\xff", b"not deflate", b"\x07" * 8])
    elif how == "cut zip":
        z = ref.deflate(PT * 5)
        pt = z[:c.choose("length", range(0, len(z) - 1))]
    mk, ek = cek[:n], cek[n:]
    if how == "key halves swapped":
        mk, ek = ek, mk
    pad = 16 - len(pt) % 16
    body = pt + bytes([pad]) * pad
    if how == "padding":
        bad = c.choose("padding", ["zero", "17", "255", "inconsistent",
                                   "one too many", "none"])
        blk = b"0123456789abcdef"
        body = {"zero": blk[:15] + b"\0", "17": blk[:15] + b"\x11",
                "255": blk[:15] + b"\xff",
                "inconsistent": blk[:13] + b"\x01\x02\x03",
                "one too many": blk[:12] + b"\x05\x04\x04\x05",
                "none": blk[:15] + b"~"}[bad]
    ct = AES.new(ek, AES.MODE_CBC, iv).encrypt(body)
    al = struct.pack(">Q", len(aad) * 8)
    full = hmac.new(mk, aad + iv + ct + al, hn).digest()
    tag = {"tag of other aad": hmac.new(mk, b"x" + iv + ct + al, hn)
           .digest()[:n], "tag full": full, "tag other half": full[n:],
           "tag no AL": hmac.new(mk, aad + iv + ct, hn).digest()[:n],
           "tag octet AL": hmac.new(mk, aad + iv + ct + struct.pack(
               ">Q", len(aad)), hn).digest()[:n],
           "mac iv last": hmac.new(mk, aad + ct + iv + al, hn).digest()[:n],
           }.get(how, full[:n])
    if how == "cut tag":
        tag = tag[:c.choose("octets", range(0, n))]
    ps[3], ps[4] = ref.b64e(ct), ref.b64e(tag)
    if how == "zip unknown":
        ps[3], ps[4] = ref.b64e(ct), ref.b64e(full[:n])
    reject(c, ".".join(ps), None, alg, name, "%s %s %s" % (alg, enc, how))


def long_ones(c):
    """every region of a long ciphertext counts"""
    enc = c.choose("enc", J.CBC + ["A128GCM"])
    n = c.choose("length", [1000, 4107, 65537] if enc in J.CBC else [1000,
                                                                     4107])
    t = long_token(enc, n)
    ps = t.split(".")
    ct = ref.b64d(ps[3])
    how = c.choose("how", ["bit", "cut end", "cut 4096", "blocks swapped",
                           "block twice", "tag", "none"])
    if how == "none":
        r = opens(t, "A128KW", "h0.16")
        check(r == pattern(n), "%s, %d octets: %r" % (enc, n, r))
        return c.done("decrypts")
    m = bytearray(ct)
    if how == "bit":
        at = sorted({p + d for p in [0, 256, 512, 1024, 2048, 4096, 8192,
                                     16384, 32768, 65536, len(ct) // 2 * 1,
                                     len(ct) - 1, len(ct) - 16]
                     for d in (-1, 0) if 0 <= p + d < len(ct)})
        m[c.choose("octet", at)] ^= 1 << c.choose("bit", [0, 7])
    elif how == "cut end":
        m = m[:-16 * c.choose("blocks", [1, 2, 32])]
    elif how == "cut 4096":
        m = m[:4096]
    elif how == "blocks swapped":
        i = c.choose("block", [1, 20, len(m) // 32])
        m[16 * i:16 * i + 32] = m[16 * i + 16:16 * i + 32] + \
            m[16 * i:16 * i + 16]
    elif how == "block twice":
        i = 16 * c.choose("block", [1, 20, len(m) // 32])
        m = m[:i] + m[i - 16:]
    else:
        ps[4] = b64flip(ps[4], c.choose("octet", [0, 15]), 3)
    ps[3] = ref.b64e(bytes(m))
    reject(c, ".".join(ps), t, "A128KW", "h0.16", "%s, %d octets, %s" % (
        enc, n, how))


@functools.lru_cache(None)
def long_token(enc, n):
    return ref.jwe_make({"alg": "A128KW", "enc": enc}, pattern(n),
                        J.mat("A128KW", "h0.16"), J.octs("cek0",
                                                         ref.CEKLEN[enc]),
                        J.octs("iv0", ref.IVLEN[enc]))


def intact(c):
    """the tokens that are modified above do decrypt"""
    alg, name, enc = c.choose("token", CASES_CBC + [
        ("A128KW", "h0.16", e) for e in J.GCM])
    z = c.flag("zip")
    for api in ["decrypt", "factory"] + CLASSES:
        if api == "class cek" and alg[0] == "E":
            continue
        r = opens(token(alg, name, enc, 0, z), alg, name, api,
                  J.octs("cek0", ref.CEKLEN[enc]))
        check(r == PT, "%s %s %s: %r" % (alg, enc, api, r))
    c.done("decrypts")


def scopes(tier):
    th = tier == "thorough"
    gcm = [("A128KW", "h0.16", e) for e in (J.GCM if th else J.GCM[:1])]
    gcm2 = [("A128KW", "h0.16", e) for e in J.GCM[1:]]
    return [
        Scope("intact", intact, 1, "the tokens used"),
        Scope("bits CBC", bits(CASES_CBC, range(5), ["decrypt"]), 2,
              "every bit of every part, 12 tokens"),
        Scope("bits api", bits(CASES_CBC[:6], [0, 2, 3, 4],
                               ["factory", "cek"]), 2,
              "every bit of four parts through factory() and with a CEK"),
        Scope("bits classes", bits(
            CASES_CBC, range(5), CLASSES, *((1,) if th else (1, [0, 5]))), 2,
            "two bits (all when thorough) of every octet, JWE_SYM, JWE_RSA, "
            "JWE_EC"),
        Scope("lengths classes", lengths(
            CASES_CBC[:2] + CASES_CBC[3:], [1, 2, 7, 8, 15, 16, 17, 32],
            CLASSES), 2, "parts cut and extended, JWE_SYM, JWE_RSA, JWE_EC"),
        Scope("bits zip", bits(CASES_CBC[:3], range(5), ["decrypt"], z=True),
              2, "every bit, compressed"),
        Scope("bits GCM iv, tag", bits(
            gcm, [2, 4], ["decrypt"], bitset=range(8) if th else [0, 7]), 4,
            "two bits (all when thorough) of every octet of IV and tag"),
        Scope("bits GCM", bits(gcm, [0, 1, 3], ["decrypt"], bitset=range(8)
                               if th else [0]), 3,
              "bits of header, encrypted key and ciphertext"),
        Scope("bits GCM other", bits(gcm2, [2, 3, 4], ["decrypt"], 1 if th
                                     else 3, [0]), 4,
              "A192GCM, A256GCM, one bit of octets"),
        Scope("lengths", lengths(CASES_CBC, list(range(1, 18)) + [24, 32]), 2,
              "parts cut and extended by 1..17, 24, 32 octets"),
        Scope("lengths GCM", lengths([("A128KW", "h0.16", "A128GCM")],
                                     range(1, 17) if th else
                                     [1, 4, 8, 12, 15]), 3,
              "parts cut and extended"),
        Scope("reframe", reframe, 2, "up to 33 octets moved over part "
              "boundaries"),
        Scope("part counts", counts, 2, "0..10 parts, all permutations, all "
              "truncations of the text"),
        Scope("splice", splice, 3, "4^5 recombinations of 4 tokens per key "
              "type"),
        Scope("header", header, 2, "52 edits of the header"),
        Scope("header text", header_chars, 3, "characters changed and "
              "inserted"),
        Scope("predictable CEK", predictable, 2, "forgeries for 5 CEKs x 9 "
              "encrypted keys x 4 histories"),
        Scope("wrapping", wrapped, 2, "the CEK wrapped otherwise"),
        Scope("long ciphertexts", long_ones, 3, "ciphertexts of 1000, 4107, "
              "65537 octets changed around powers of two"),
        Scope("edges", edges, 2, "parts that start or end with 6 octets, "
              "without those, twice, moved"),
        Scope("sender flaws", sender, 2, "wrong MACs, padding, compression"),
    ]
