"""C23: the codecs are exact inverses and refuse everything else."""
import itertools

from mc.core import Scope, check, Prune
from mc import ref, jwe as J
from mc.jose import *

BOUND = [0, 1, 2, 0x2d, 0x2f, 0x3d, 0x3e, 0x3f, 0x40, 0x7f, 0x80, 0xbf, 0xc0,
         0xf8, 0xfb, 0xfe, 0xff]
TEXT = "AQg9-_+/=. \n\0~B"
RAW = [bytes([b]) for b in TEXT.encode()] + [b"\xff", b"\xc3", b"\x0b", b"w"]


def enc(o):
    import jwkest
    r = attempt(jwkest.b64e, o)
    check(same(r, ref.b64e(o).encode()), "b64e(%r) = %r" % (o, r))
    r = attempt(jwkest.b64d, r)
    check(same(r, o), "b64d(b64e(%r)) = %r" % (o, r))


def octets(c, maxlen, longest):
    """all octet strings up to length 2, boundary octets and lengths beyond"""
    first = c.choose("first octet", [None] + list(range(256)))
    ev = 0
    if first is None:
        enc(b"")
        for n in range(longest):
            for o in (J.octs("a", n), b"\0" * n, b"\xff" * n, b"\xfb\xef" * n):
                enc(o)
                ev += 1
    else:
        enc(bytes([first]))
        for b in range(256):
            enc(bytes([first, b]))
            ev += 1
        for t in itertools.product(range(256) if maxlen > 3 else BOUND,
                                   BOUND):
            enc(bytes((first,) + t))
            ev += 1
        for t in itertools.product(BOUND[::4] if maxlen < 4 else BOUND,
                                   repeat=3):
            enc(bytes((first,) + t))
            ev += 1
    c.evals = ev + 1
    c.done("inverse")


def large(c):
    """long octet strings, and long texts with one wrong character"""
    import jwkest
    n = c.choose("length", HUGE + [(1 << 20) - 1, 1 << 20, 3 << 20])
    fill = c.choose("content", ["varied", "zeros", "ff"]
                    if n < 70000 else ["varied"])
    what = c.choose("what", ["inverse", "comparison", "wrong text"])
    o = {"varied": pattern(n), "zeros": bytes(n), "ff": b"\xff" * n}[fill]
    if what == "inverse":
        r = attempt(jwkest.b64e, o)
        check(r == ref.b64e(o).encode(), "b64e of %d octets" % n)
        r = attempt(jwkest.b64d, r)
        check(r == o, "b64d of %d octets: %.200r" % (n, r))
        r = attempt(jwkest.b64e_enc_dec, "y" * n, "utf-8", "ascii")
        check(r == ref.b64e(b"y" * n), "b64e_enc_dec of %d" % n)
        return c.done("inverse")
    for fn, f in ((jwkest.constant_time_compare, bytes),
                  (jwkest.safe_str_cmp, lambda x: bytes(x).decode("latin-1"))) \
            if what == "comparison" else ():
        check(attempt(fn, f(o), f(bytearray(o))) is True,
              "%d octets are not equal to themselves" % n)
        for i in sorted({0, 255, n // 2, n - 1} & set(range(n))):
            x = bytearray(o)
            x[i] ^= 0x80
            check(attempt(fn, f(o), f(x)) is False,
                  "octet %d of %d doesn't count" % (i, n))
    if what == "comparison":
        return c.done("equality")
    t = bytearray(ref.b64e(o).encode())
    at = c.choose("wrong at", [0, len(t) // 2, len(t) - 1])
    t[at] = ord(c.choose("character", ["+", "=", "\n", "."]))
    if at == len(t) - 1 and t[at] == 61:    # may be padding
        raise Prune()
    r = attempt(jwkest.b64d, bytes(t))
    check(raised(r), "a text of %d characters, %r at %d: decoded" % (
        len(t), t[at], at))
    c.done("refused")


def judge(s):
    """-> (may be accepted, must be accepted, value)"""
    core = s.rstrip(b"=")
    try:
        v = ref.b64d(core)
    except ref.Reject:
        return False, False, None
    if s == core:
        return True, ref.b64e(v).encode() == core, v
    if len(s) % 4 == 0 and len(s) - len(core) == -len(core) % 4:
        return True, False, v           # correct padding: not specified
    return False, False, None


def dec(s):
    import jwkest
    ok, must, v = judge(s)
    r = attempt(jwkest.b64d, s)
    if raised(r):
        check(not must, "b64d(%r) raises %r" % (s, r))
    else:
        check(ok and same(r, v), "b64d(%r) = %r" % (s, r))
    # the number
    for x in (s, txt(s)):
        if x is None:
            continue
        r = attempt(jwkest.base64url_to_long, x)
        if raised(r):
            check(not must or s == b"", "base64url_to_long(%r) raises %r" % (
                x, r))
        else:
            check(ok and s.rstrip(b"=") == s and r == ref.o2i(v),
                  "base64url_to_long(%r) = %r" % (x, r))
        if must and s:
            r = attempt(jwkest.base64_to_long, x)
            check(r == ref.o2i(v), "base64_to_long(%r) = %r" % (x, r))
    return must


def txt(s):
    try:
        return s.decode("ascii")
    except UnicodeDecodeError:
        return None


def texts(c, n):
    """all strings up to length n over characters in and out of the alphabet"""
    a = c.choose("1st", [b""] + RAW)
    b = c.choose("2nd", [b""] + RAW) if a else b""
    ev = 0
    for ln in range(n - 1 if b else 1):
        for t in itertools.product(RAW, repeat=ln):
            dec(a + b + b"".join(t))
            ev += 1
    c.evals = ev
    c.done("as specified")


def inserted(c, lengths):
    """every octet value at every place of longer texts"""
    n = c.choose("octets", lengths)
    v = c.choose("octet", range(256))
    base = ref.b64e(J.octs("long", n)).encode()
    ev = 0
    for i in range(len(base) + 1):
        dec(base[:i] + bytes([v]) + base[i:])
        dec(base[:i] + bytes([v]) + base[i + 1:])
        ev += 2
    for k in range(1, 6):
        dec(base + bytes([v]) * k)
        dec(bytes([v]) * k + base)
        ev += 2
    c.evals = ev
    c.done("as specified")


def num(n):
    import jwkest
    L = max(1, (n.bit_length() + 7) // 8)
    want = ref.b64e(ref.i2o(n, L))
    r = attempt(jwkest.long_to_base64, n)
    check(same(r, want), "long_to_base64(%d) = %r, not %r" % (n, r, want))
    for f in (jwkest.base64_to_long, jwkest.base64url_to_long):
        for x in (want, want.encode()):
            r = attempt(f, x)
            check(r == n, "%s(%r) = %r, not %d" % (f.__name__, x, r, n))
    o = ref.i2o(n, L)
    r = attempt(jwkest.long2hexseq, n)
    check(same(r, o), "long2hexseq(%d) = %r" % (n, r))
    check(attempt(jwkest.intarr2long, list(o)) == n, "intarr2long(%r)" % o)
    check(attempt(jwkest.intarr2bin, list(o)) == o, "intarr2bin(%r)" % o)
    r = attempt(jwkest.long2intarr, n)
    check(r == list(o) or n == 0 and r == [], "long2intarr(%d) = %r" % (n, r))


def numbers(c, top):
    """all numbers up to a bound, and around every power of two"""
    k = c.choose("block", range(top // 4096 + 1 + 66))
    ev = 0
    if k <= top // 4096:
        r = range(k * 4096, k * 4096 + 4096)
    else:
        k -= top // 4096 + 1
        r = [b + d for b in [1 << 8 * k + i for i in range(8)] + [
            (0xa5a5 << 8 * k), int("5a" * (k + 1), 16)]
            for d in range(-3, 4) if b + d >= 0]
    for n in r:
        num(n)
        ev += 1
    c.evals = ev
    c.done("inverse")


def widths(c, maxw):
    """minimum lengths: exactly that many octets if the number fits"""
    import jwkest
    L = c.choose("octets of the number", range(0, 68))
    m = c.choose("minimum length", range(maxw))
    for n in ([0] if L == 0 else [1 << 8 * (L - 1), (1 << 8 * L) - 1,
                                  ref.o2i(b"\x01" + J.octs("w", L - 1))]):
        w = max(L, m, 1)
        want = ref.b64e(ref.i2o(n, w))
        r = attempt(jwkest.long_to_base64, n, m)
        check(same(r, want), "long_to_base64(%d, %d) = %r, not %r" % (
            n, m, r, want))
        check(attempt(jwkest.base64url_to_long, want) == n, "back")
    c.done("fixed length")


def compare(c, al):
    """all pairs of octet strings up to length 3"""
    import jwkest
    words = [b""] + [bytes(t) for n in (1, 2, 3)
                     for t in itertools.product(al, repeat=n)]
    a = c.choose("a", words + [J.octs("cmp", 32)])
    ev = 0
    for b in words + [J.octs("cmp", 32), J.octs("cmp", 31)]:
        r = jwkest.constant_time_compare(a, b)
        check(bool(r) == (a == b), "constant_time_compare(%r, %r) = %r" % (
            a, b, r))
        x, y = a.decode("latin-1"), b.decode("latin-1")
        r = jwkest.safe_str_cmp(x, y)
        check(bool(r) == (a == b), "safe_str_cmp(%r, %r) = %r" % (x, y, r))
        ev += 2
    if len(a) == 32:
        for bit in range(256):
            m = bytearray(a)
            m[bit // 8] ^= 1 << bit % 8
            check(not jwkest.constant_time_compare(a, bytes(m)),
                  "differs in bit %d" % bit)
            ev += 1
    c.evals = ev
    c.done("equality")


CH = ["", "a", "\0", "\x7f", "\x80", "\xff", "\u0100", "\u07ff", "\u0800",
      "\uffff", "\U00010000", "\U0010ffff", "=", "\n", "\"", "\\",
      "\ufeff", "e\u0301", "\u2028"]


def strings(c):
    """text conversions"""
    import jwkest
    s = "".join(c.choose("char %d" % i, CH) for i in range(3))
    o = s.encode("utf-8")
    check(same(jwkest.as_bytes(s), o), "as_bytes(%r)" % s)
    check(same(jwkest.as_bytes(o), o), "as_bytes(%r)" % o)
    check(same(jwkest.as_unicode(o), s), "as_unicode(%r)" % o)
    check(same(jwkest.as_unicode(s), s), "as_unicode(%r)" % s)
    for bad in (o + b"\xff", b"\x80" + o, o + b"\xc3"):
        check(same(jwkest.as_unicode(bad), bad), "as_unicode(%r)" % bad)
    e = attempt(jwkest.b64e_enc_dec, s)
    check(same(e, ref.b64e(o)), "b64e_enc_dec(%r) = %r" % (s, e))
    r = attempt(jwkest.b64d_enc_dec, e)
    check(same(r, s), "b64d_enc_dec(%r) = %r" % (e, r))
    c.done("inverse")


def scopes(tier):
    th = tier == "thorough"
    return [
        Scope("octets", lambda c: octets(c, 4 if th else 3,
                                         1500 if th else 300), 1,
              "all octet strings up to length 2, length 3 and 4 with boundary "
              "octets, four patterns of every length"),
        Scope("large", large, 2, "17 lengths up to 3 MiB"),
        Scope("texts", lambda c: texts(c, 5 if th else 4), 2,
              "all strings up to length %d over 19 characters inside and "
              "outside of the alphabet" % (5 if th else 4)),
        Scope("inserted", lambda c: inserted(
            c, range(40) if th else range(1, 14)), 2,
            "every octet value inserted and substituted at every place"),
        Scope("numbers", lambda c: numbers(c, 2000000 if th else 140000), 1,
              "all numbers up to a bound and around all 2^k, k < 528"),
        Scope("minimum lengths", lambda c: widths(c, 140 if th else 70), 1,
              "numbers of 0..67 octets x minimum lengths"),
        Scope("comparison", lambda c: compare(c, [0, 1, 128, 255, 64] if not th
                                              else [0, 1, 2, 64, 127, 128,
                                                    254, 255]), 1,
              "all pairs of octet strings up to length 3, all single bits"),
        Scope("text", strings, 1, "all strings of up to 3 boundary characters"),
    ]
