"""C60: PBKDF2 is RFC 8018."""
import functools
import hashlib
import hmac
import itertools
import base64

from mc.core import Scope, check, Prune
from mc.jose import *

WORDS = ["", "a", "password", "\u00e5\u20ac", b"\0", b"pass\0word", b"\xff\xfe",
         "X" * 63, "X" * 64, "X" * 65, b"k" * 128, b"k" * 129, b"\0" * 64]
SALTS = ["", "s", "ATHENA.MIT.EDUraeburn", b"\0\0\0\1", b"\xff" * 70, "\u00e5",
         b"sa\0lt"]
ITER = [1, 2, 3, 7, 64]
DIGESTS = ["sha1", "sha256", "sha384", "sha512", "md5", "sha224"]


def o(x):
    return x.encode("utf-8") if isinstance(x, str) else x


@functools.lru_cache(None)
def want(word, salt, it, dig, n):
    return hashlib.pbkdf2_hmac(dig, o(word), o(salt), it, n)


def obj(word, salt, it, dig, mac="Cryptodome"):
    from jwkest.PBKDF2 import PBKDF2
    import importlib
    if mac == "Cryptodome":
        if dig == "default":
            return PBKDF2(word, salt, it)
        m = importlib.import_module("Cryptodome.Hash." + dig.upper())
        return PBKDF2(word, salt, it, digestmodule=m)
    return PBKDF2(word, salt, iterations=it, digestmodule=getattr(
        hashlib, dig), macmodule=hmac)


def whole(c, words, salts, its, lengths):
    word = c.choose("passphrase", words)
    salt = c.choose("salt", salts)
    it = c.choose("iterations", its)
    dig = c.choose("digest", ["default"] + DIGESTS)
    mac = c.choose("mac", ["Cryptodome", "hmac"])
    if mac == "hmac" and dig == "default":
        raise Prune()
    for n in lengths:
        p = obj(word, salt, it, dig, mac)
        got = p.read(n)
        w = want(word, salt, it, dig if dig != "default" else "sha1",
                 n) if n else b""
        check(isinstance(got, bytes) and got == w, "%d octets: %r, not %r" % (
            n, got, w))
    c.evals += len(lengths)
    c.done("RFC 8018")


SIZES = [0, 1, 2, 19, 20, 21, 31, 32, 33, 40, 64, 100]


def reads(c, depth, sizes, digs):
    dig = c.choose("digest", digs)
    seq = [(c.choose("size %d" % i, sizes), c.flag("hex"))
           for i in range(depth)]
    p = obj("kickstart", "workbench", 2, dig)
    w = want("kickstart", "workbench", 2, dig, 400)
    pos = 0
    for n, hx in seq:
        got = p.hexread(n) if hx else p.read(n)
        exp = w[pos:pos + n]
        check(got == (exp.hex() if hx else exp), "%r at %d: %r, not %r" % (
            n, pos, got, exp))
        pos += n
    p.close()
    for f in (p.read, p.hexread):
        r = attempt(f, 1)
        check(raised(r) and isinstance(r.e, ValueError), "read after close")
    p.close()
    c.done("agrees")


def interleaved(c, depth):
    """two streams do not disturb each other"""
    a, b = obj("a", "s", 3, "sha256"), obj("b", "s", 3, "sha256")
    pos = [0, 0]
    for i in range(depth):
        which = c.choose("which", [0, 1])
        n = c.choose("size", [1, 31, 33, 64])
        got = (a, b)[which].read(n)
        w = want("ab"[which], "s", 3, "sha256", 300)
        check(got == w[pos[which]:pos[which] + n], "stream %d at %d" % (
            which, pos[which]))
        pos[which] += n
    c.done("agrees")


def refuse(c):
    from jwkest.PBKDF2 import PBKDF2
    what, args, exc = c.choose("arguments", [
        ("passphrase", (5, "s", 1), TypeError),
        ("passphrase none", (None, "s", 1), TypeError),
        ("salt", ("p", 5, 1), TypeError),
        ("salt list", ("p", [1], 1), TypeError),
        ("iterations text", ("p", "s", "1"), TypeError),
        ("iterations float", ("p", "s", 1.0), TypeError),
        ("iterations none", ("p", "s", None), TypeError),
        ("iterations 0", ("p", "s", 0), ValueError),
        ("iterations -1", ("p", "s", -1), ValueError)])
    r = attempt(PBKDF2, *args)
    check(raised(r) and isinstance(r.e, exc), "%s: %r" % (what, r))
    c.done("refused")


# --- crypt ---------------------------------------------------------------------------

def ref_crypt(word, salt, it):
    s = "$p5k2$" + ("" if it in (None, 400) else "%x" % it) + "$" + salt
    h = hashlib.pbkdf2_hmac("sha1", o(word), s.encode(), it or 400, 24)
    return s + "$" + base64.b64encode(h, b"./").decode()


CSALTS = ["", "exec", "XXXXXXXX", "./Az09", "a"]


def crypts(c, its, others, words=WORDS):
    from jwkest.PBKDF2 import PBKDF2, crypt
    word = c.choose("word", words)
    salt = c.choose("salt", CSALTS)
    it = c.choose("iterations", its)
    other = c.choose("other word", others)
    f = c.choose("function", [crypt, PBKDF2.crypt])
    as_bytes = c.flag("octets")
    h = f(word, salt.encode() if as_bytes else salt, it)
    check(h == ref_crypt(word, salt, it), "crypt gives %r, not %r" % (
        h, ref_crypt(word, salt, it)))
    # verification
    x = f(other, h.encode() if as_bytes else h)
    # HMAC pads short keys with zeros, and hashes long ones
    same_key = hmac.new(o(word), b"x", "sha1").digest() == \
        hmac.new(o(other), b"x", "sha1").digest()
    check((x == h) == same_key, "%r verifies as %r" % (other, word))
    y = f(other, h, iterations=3)
    check(y == x, "the iterations of the salt don't count")
    c.done("verifies" if same_key else "does not")


LENS = [55, 56, 63, 64, 71, 72, 73, 100, 127, 128, 254, 255, 256, 1000, 4096]


def long_crypts(c):
    """every character of the word and of the salt counts, however long"""
    from jwkest.PBKDF2 import crypt
    n = c.choose("characters", LENS)
    what = c.choose("long", ["word", "salt", "both"])
    it = c.choose("iterations", [1, 2, None])
    long = "".join("./09AZaz"[i * i % 8] for i in range(n))
    word = long if what != "salt" else "word"
    salt = long if what != "word" else "salt"
    h = crypt(word, salt, it)
    w = ref_crypt(word, salt, it)
    check(h == w, "crypt gives %r, not %r" % (h, w))
    check(crypt(word, h) == h, "%r does not verify" % h)
    for other in (word[:-1], word + "a", word[:-1] + "b", "b" + word[1:]):
        check(crypt(other, h) != h, "another word verifies: %r for %r" % (
            other, word))
    for s2 in (salt[:-1], salt + "a", salt[:-1] + "b"):
        check(crypt(word, s2, it) == ref_crypt(word, s2, it) != h,
              "salt %r as %r" % (s2, salt))
    c.done("verifies")


def bad_salts(c):
    from jwkest.PBKDF2 import crypt
    s = c.choose("salt", ["$p5k2$0$abc$", "$p5k2$-1$abc$", "$p5k2$0a$abc$",
                          "$p5k2$A$abc$", "$p5k2$x$abc$", "$p5k2$ 1$abc$",
                          "a b", "a$b", "a-b", "a=", "\u00e5", "a\n", "\0",
                          "$p5k2$1", "$p5k2$", "$1$abc$", 5, [], "a_"])
    it = c.choose("iterations", [None, 2])
    r = attempt(crypt, "word", s, it)
    check(raised(r) and isinstance(r.e, (ValueError, TypeError)),
          "salt %r: %r" % (s, r))
    c.done("refused")


def bad_iterations(c):
    """crypt with an impossible number of iterations"""
    from jwkest.PBKDF2 import crypt
    it = c.choose("iterations", [0, -1, -400, "2", 2.0, [], 1.5])
    salt = c.choose("salt", ["abc", ""])
    r = attempt(crypt, "word", salt, it)
    check(raised(r) and isinstance(r.e, (ValueError, TypeError)),
          "%r iterations: %r" % (it, r))
    c.done("refused")


def fresh_salts(c):
    """without a salt, one is made, and it verifies"""
    from jwkest.PBKDF2 import crypt
    word = c.choose("word", WORDS[:7])
    it = c.choose("iterations", [None, 5])
    n = c.choose("times", [2, 4])
    hs = [crypt(word, iterations=it) for _ in range(n)]
    check(len(set(hs)) == n, "the same salt again: %r" % hs)
    for h in hs:
        check(len(h.split("$")[3]) == 8, "salt of %r" % h)
        check(crypt(word, h) == h == ref_crypt(
            word, h.split("$")[3], it), "%r does not verify" % h)
        check(crypt(o(word) + b"x", h) != h, "another word verifies")
    c.done("verifies")


def scopes(tier):
    th = tier == "thorough"
    ln = [0, 1, 15, 16, 17, 19, 20, 21, 40, 41, 63, 64, 65, 128, 129]
    return [
        Scope("passphrases", lambda c: whole(
            c, WORDS, SALTS, ITER if th else [1, 2, 5],
            ln if not th else list(range(0, 140))), 2,
            "13 passphrases x 7 salts x iterations x 7 digests x 2 MACs x "
            "%d lengths" % (15 if not th else 140)),
        Scope("iterations", lambda c: whole(
            c, ["password"], ["salt"], [999, 1000, 1001, 4096, 4097,
                                     10001, 65535, 65536, 65537] + list(
                range(1, 40)) if th else [255, 256, 257, 1000, 4095, 4096,
                                     4097, 10000] + list(
                range(1, 20)), [20]), 3, "iteration counts"),
        Scope("lengths", lambda c: whole(
            c, ["password"], ["salt"], [1, 2], list(range(0, 300)) if th else list(
                range(0, 140))), 3,
            "all lengths up to 139 (299 in thorough)"),
        Scope("reads", lambda c: reads(c, 3, SIZES, ["sha1", "sha256"]), 2,
              "all sequences of 3 of 12 sizes, as octets and hexadecimal"),
        Scope("more reads", lambda c: reads(
            c, 6 if th else 5, [0, 1, 20, 33], ["sha1"]), 2,
            "all sequences of %d of 4 sizes" % (6 if th else 5)),
        Scope("two streams", lambda c: interleaved(c, 5 if th else 4), 2,
              "all interleavings of reads of two streams"),
        Scope("arguments", refuse, 1, "9 impossible arguments"),
        Scope("crypt", lambda c: crypts(
            c, [1, 2, 16], WORDS[:10]), 2,
            "13 words x 5 salts x 3 iteration counts x 10 other words"),
        Scope("crypt defaults", lambda c: crypts(
            c, [None, 399, 400, 401], WORDS if th else [WORDS[2], WORDS[7]],
            WORDS if th else WORDS[1:10:2]), 2,
            "the default number of iterations and those next to it"),
        Scope("long crypt", long_crypts, 1,
              "words and salts of 15 lengths up to 4096 characters"),
        Scope("bad salts", bad_salts, 1, "19 malformed salts"),
        Scope("bad iterations", bad_iterations, 1, "7 impossible numbers"),
        Scope("fresh salts", fresh_salts, 1, "salts that crypt makes"),
    ]
