"""C20: AES key wrap is RFC 3394."""
import itertools

from mc.core import Scope, check, Prune
from mc import ref, jwe as J
from mc.jose import *

IVS = [None, 0, 1, (1 << 64) - 1, 0xa6a6a6a6a6a6a6a7, 0xA65959A600000020,
       0x00000000a6a6a6a6]
PATTERNS = {
    "digest": lambda n: J.octs("kw", n),
    "zeros": lambda n: b"\0" * n,
    "ones": lambda n: b"\xff" * n,
    "leading zeros": lambda n: (b"\0" * 9 + J.octs("kw", n))[:n],
    "iv": lambda n: (b"\xa6" * n),
}


def ivb(iv):
    return ref.i2o(0xa6a6a6a6a6a6a6a6 if iv is None else iv, 8)


def kw(iv):
    return {} if iv is None else {"iv": iv}


def wrap(c, lengths):
    from jwkest.aes_key_wrap import aes_wrap_key, aes_unwrap_key
    ks = c.choose("kek size", [16, 24, 32])
    n = c.choose("data length", lengths)
    pat = c.choose("data", list(PATTERNS))
    kpat = c.choose("kek", ["digest", "zeros", "ones"])
    iv = c.choose("iv", IVS)
    if n > 72 and (kpat != "digest" or pat != "digest" and n % 8):
        raise Prune()
    kek, data = PATTERNS[kpat](ks), PATTERNS[pat](n)
    r = attempt(aes_wrap_key, kek, data, **kw(iv))
    if n % 8 or n == 0:
        check(raised(r), "%d octets wrapped to %r" % (n, r))
        c.done("refused")
        return
    if n == 8 and raised(r):        # RFC 3394 wants two blocks at least
        c.done("one block refused")
        return
    want = ref.kw_wrap(kek, data, ivb(iv))
    check(r == want, "wrapping %d octets with %d: %r, not %s" % (
        n, ks, r, want.hex()))
    r = attempt(aes_unwrap_key, kek, want, **kw(iv))
    check(same(r, data), "unwrap: %r, not %s" % (r, data.hex()))
    c.done("RFC 3394")


def tamper(c, lengths):
    from jwkest.aes_key_wrap import aes_unwrap_key
    ks = c.choose("kek size", [16, 24, 32])
    n = c.choose("data length", lengths)
    how = c.choose("how", ["bit", "kek bit", "truncate", "cut front", "extend",
                           "prepend", "permute", "iv", "duplicate block",
                           "unwrap twice", "plain", "xor A and t"])
    kek, data = J.octs("kek", ks), J.octs("kw", n)
    w = ref.kw_wrap(kek, data)
    iv = None
    m = bytearray(w)
    if how == "bit":
        b = c.choose("bit", range(len(w) * 8))
        m[b // 8] ^= 1 << b % 8
    elif how == "kek bit":
        b = c.choose("bit", range(ks * 8))
        k = bytearray(kek)
        k[b // 8] ^= 1 << b % 8
        kek = bytes(k)
    elif how == "truncate":
        m = m[:c.choose("to", range(len(w)))]
    elif how == "cut front":
        m = m[c.choose("octets", range(1, len(w))):]
    elif how == "extend":
        m += c.choose("with", [b"\0", b"\xa6"]) * c.choose(
            "octets", range(1, 25))
    elif how == "prepend":
        m = c.choose("with", [b"\0", b"\xa6"]) * c.choose(
            "octets", range(1, 25)) + m
    elif how == "permute":
        bl = [bytes(w[i:i + 8]) for i in range(0, len(w), 8)]
        p = c.choose("order", list(itertools.permutations(range(len(bl))))[1:]
                     if len(bl) < 6 else [
                         [j if x == i else i if x == j else x
                          for x in range(len(bl))]
                         for i in range(len(bl)) for j in range(i)])
        m = b"".join(bl[i] for i in p)
    elif how == "iv":
        iv = c.choose("other iv", IVS[1:] + [
            0xa6a6a6a6a6a6a6a6 ^ 1 << i for i in range(64)])
    elif how == "duplicate block":
        i = c.choose("block", range(len(w) // 8))
        m = w[:8 * i + 8] + w[8 * i:]
    elif how == "unwrap twice":
        m = data
    elif how == "plain":
        m = b"\xa6" * 8 + data
    elif how == "xor A and t":
        m[7] ^= 6 * n // 8
    m = bytes(m)
    if how != "iv":
        # the reference agrees that this is not a wrapping
        try:
            ref.kw_unwrap(kek, m)
            raise Prune()
        except ref.Reject:
            pass
    r = attempt(aes_unwrap_key, kek, m, **kw(iv))
    check(raised(r), "a modified wrapping is unwrapped (%s): %r" % (how, r))
    c.done("refused")


def withpad(c, lengths, flip):
    from jwkest.aes_key_wrap import (aes_wrap_key_withpad,
                                     aes_unwrap_key_withpad)
    ks = c.choose("kek size", [16, 24, 32])
    n = c.choose("data length", lengths)
    pat = c.choose("data", list(PATTERNS))
    kek, data = J.octs("kek", ks), PATTERNS[pat](n)
    w = attempt(aes_wrap_key_withpad, kek, data)
    check(not raised(w), "%d octets can't be wrapped: %r" % (n, w))
    if not flip:
        r = attempt(aes_unwrap_key_withpad, kek, w)
        check(same(r, data), "%d octets become %r" % (n, r))
        c.done("inverse")
        return
    m = bytearray(w)
    b = c.choose("bit", range(len(w) * 8 + ks * 8))
    if b < len(w) * 8:
        m[b // 8] ^= 1 << b % 8
    else:
        b -= len(w) * 8
        k = bytearray(kek)
        k[b // 8] ^= 1 << b % 8
        kek = bytes(k)
    r = attempt(aes_unwrap_key_withpad, kek, bytes(m))
    check(raised(r), "a modified wrapping is unwrapped: %r" % (r,))
    c.done("refused")


def never(c):
    """what no data is wrapped to: made of the IV, of nothing, too short"""
    from jwkest.aes_key_wrap import aes_unwrap_key, aes_unwrap_key_withpad
    kek = J.octs("kek", c.choose("kek size", [16, 24, 32]))
    pad = c.flag("withpad")
    n = c.choose("length", range(25))
    pat = c.choose("octets", ["iv", "other iv", "pad iv", "zeros", "ff",
                              "A of a wrapping"])
    iv = c.choose("iv", IVS) if not pad else None
    b = {"iv": ivb(iv), "other iv": ivb(None), "zeros": bytes(8),
         "pad iv": b"\xa6\x59\x59\xa6\0\0\0\0", "ff": b"\xff" * 8,
         "A of a wrapping": ref.kw_wrap(kek, bytes(16))[:8]}[pat]
    w = (b * 4)[:n]
    if n and n % 8 == 0 and n > 8:
        try:
            ref.kw_unwrap(kek, w, ivb(iv))
            raise Prune()
        except ref.Reject:
            pass
    r = attempt(aes_unwrap_key_withpad, kek, w) if pad else \
        attempt(aes_unwrap_key, kek, w, **kw(iv))
    check(raised(r), "%s is unwrapped: %r" % (w.hex(), r))
    c.done("refused")


def otheriv(c):
    """wrapped with one IV, unwrapped with another"""
    from jwkest.aes_key_wrap import aes_unwrap_key
    kek = J.octs("kek", 16)
    near = [x for b in range(64) for x in (
        1 << b, (1 << b) - 1, 0xa6a6a6a6a6a6a6a6 ^ 1 << b,
        0xa6a6a6a6a6a6a6a6 >> b, 0xa6a6a6a6a6a6a6a6 >> b << b)]
    a = c.choose("wrapped with", sorted(set(near) | set(IVS[1:])))
    b = c.choose("unwrapped with", IVS)
    data = J.octs("kw", c.choose("length", [16, 40]))
    w = ref.kw_wrap(kek, data, ivb(a))
    r = attempt(aes_unwrap_key, kek, w, **kw(b))
    if ivb(a) == ivb(b):
        check(same(r, data), "unwrap with %s: %r" % (ivb(a).hex(), r))
        return c.done("RFC 3394")
    check(raised(r), "made with %s, unwrapped with %s: %r" % (
        ivb(a).hex(), ivb(b).hex(), r))
    c.done("refused")


def long_data(c):
    """block counters that need 12, 16 bits and more"""
    from jwkest.aes_key_wrap import aes_wrap_key, aes_unwrap_key
    n = c.choose("blocks", [42, 43, 170, 171, 341, 342, 682, 683, 1366, 2731,
                            5462, 10922, 10923])
    kek, data = J.octs("kek", 16), pattern(8 * n)
    want = ref.kw_wrap(kek, data)
    what = c.choose("what", ["wrap", "unwrap", "bit"])
    if what == "wrap":
        r = attempt(aes_wrap_key, kek, data)
        check(same(r, want), "wrapping %d blocks: %.200r" % (n, r))
        return c.done("RFC 3394")
    if what == "unwrap":
        r = attempt(aes_unwrap_key, kek, want)
        check(same(r, data), "unwrapping %d blocks: %.200r" % (n, r))
        return c.done("RFC 3394")
    m = bytearray(want)
    m[c.choose("octet", [0, 7, 8, 4 * n, 8 * n, 8 * n + 7])] ^= 1
    r = attempt(aes_unwrap_key, kek, bytes(m))
    check(raised(r), "%d blocks, a bit changed: unwrapped" % n)
    c.done("refused")


def scopes(tier):
    th = tier == "thorough"
    ln = list(range(73)) + list(range(80, 521 if th else 417, 8)) + \
        [73, 79, 81, 100, 255, 257]
    if th:
        ln += [2048, 87392]         # the counter exceeds 16 bits
    return [
        Scope("wrap and unwrap", lambda c: wrap(c, ln), 2,
              "3 KEK sizes x data lengths 0..72 and multiples of 8 up to %d x "
              "5 data patterns x 3 KEKs x 7 IVs" % ln[-1]),
        Scope("modified wrappings", lambda c: tamper(
            c, list(range(16, 137, 8)) if th else [16, 24, 32, 40, 64]), 2,
            "3 KEK sizes x data lengths x every bit of wrapping and KEK, every "
            "truncation, extension, permutation, IV bit"),
        Scope("long data", long_data, 2, "13 lengths of 42 to 10923 blocks"),
        Scope("never wrapped", never, 1, "0 to 24 octets made of 6 values x 7 "
              "IVs, both functions"),
        Scope("other IV", otheriv, 1, "about 260 x 7 IVs: single bits, prefixes "
              "and suffixes of the standard one"),
        Scope("withpad", lambda c: withpad(c, range(137 if th else 73), False),
              2, "3 KEK sizes x every length x 5 data patterns"),
        Scope("withpad modified", lambda c: withpad(
            c, range(41) if th else [0, 1, 7, 8, 9, 16, 17], True), 2,
            "every bit of wrapping and KEK"),
    ]
