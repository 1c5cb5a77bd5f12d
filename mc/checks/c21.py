"""C21: AES-GCM and AES-CBC-HMAC are the standard algorithms."""
import hashlib
import hmac
import struct

from Cryptodome.Cipher import AES

from mc.core import Scope, check, Prune
from mc import ref, jwe as J
from mc.jose import *

IVS = [0, 1, 255, 256, 1 << 64, 1 << 95, (1 << 96) - 1, (1 << 96) - 2]
PAT = {"digest": J.octs, "zeros": lambda l, n: b"\0" * n,
       "ones": lambda l, n: b"\xff" * n}


def gcm(key, iv, pt, aad):
    a = AES.new(key, AES.MODE_GCM, nonce=ref.i2o(iv, 12), mac_len=16)
    a.update(aad)
    ct, tag = a.encrypt_and_digest(pt)
    return ct, ref.o2i(tag)


def gcm_lengths(c, pts, aads):
    """one cipher object, all plaintext lengths"""
    from jwkest.aes_gcm import AES_GCM
    ks = c.choose("key size", [16, 24, 32])
    al = c.choose("aad length", aads)
    pat = c.choose("octets", list(PAT) if al % 17 == 0 else ["digest"])
    asint = ks == 16 and c.flag("key as a number")
    if asint and al % 16 > 1:
        raise Prune()
    key = PAT[pat]("gcm", ks)
    g = AES_GCM(ref.o2i(key) if asint else key)
    aad = PAT[pat]("aad", al)
    n = 0
    for pl in pts:
        pt = PAT[pat]("pt", pl)
        for iv in (IVS if pl in (0, 1, 16, 33) else IVS[pl % 8:][:1]):
            n += 1
            iv = (iv + (pl << 8)) % (1 << 96) if pl != 1 else iv
            want = gcm(key, iv, pt, aad)
            got = attempt(g.encrypt, iv, pt, aad)
            check(got == want, "GCM %d, iv %x, %d octets, aad %d: %r, not %r"
                  % (ks, iv, pl, al, got, want))
            back = attempt(g.decrypt, iv, want[0], want[1], aad)
            check(same(back, pt), "GCM decrypt: %r, not %r" % (back, pt))
    c.evals = n
    c.done("SP 800-38D")


def gcm_long(c, lens):
    """where the fields of the length block carry over"""
    from jwkest.aes_gcm import AES_GCM
    ks = c.choose("key size", [16, 24, 32])
    pl, al = c.choose("lengths", [(a, b) for a in [0, 5] + lens
                                  for b in [0, 5] + lens
                                  if a > 5 or b > 5])
    if min(pl, al) > 5 and (ks != 32 or pl != al):
        raise Prune()
    key, aad, pt = J.octs("gl", ks), J.octs("aad", al), J.octs("pt", pl)
    g = AES_GCM(key)
    iv = ref.o2i(J.octs("iv", 12))
    want = gcm(key, iv, pt, aad)
    got = attempt(g.encrypt, iv, pt, aad)
    check(got == want, "GCM %d, %d octets, aad %d: another result" % (
        ks, pl, al))
    check(same(attempt(g.decrypt, iv, want[0], want[1], aad), pt),
          "GCM decrypt of %d octets, aad %d" % (pl, al))
    c.done("SP 800-38D")


def gcm_tamper(c, shapes):
    """every bit of everything, and other lengths"""
    from jwkest.aes_gcm import AES_GCM
    ks = c.choose("key size", [16, 24, 32])
    pl, al = c.choose("lengths", shapes)
    what = c.choose("modify", ["ct", "tag", "aad", "iv", "lengths", "range"])
    key, aad, pt = J.octs("gk", ks), J.octs("aad", al), J.octs("pt", pl)
    iv = ref.o2i(J.octs("iv", 12))
    ct, tag = gcm(key, iv, pt, aad)
    g = AES_GCM(key)
    tries = []
    if what == "ct":
        tries = [(iv, flip(ct, b), tag, aad) for b in range(8 * pl)]
    elif what == "aad":
        tries = [(iv, ct, tag, flip(aad, b)) for b in range(8 * al)]
    elif what == "tag":
        tries = [(iv, ct, tag ^ 1 << b, aad) for b in range(128)]
    elif what == "iv":
        tries = [(iv ^ 1 << b, ct, tag, aad) for b in range(96)]
    elif what == "range":
        tries = [(iv + (1 << 96), ct, tag, aad),
                 (iv, ct, tag + (1 << 128), aad),
                 (iv, ct, tag >> 8, aad), (iv, ct, tag >> 96, aad),
                 (iv, ct, 0, aad), (iv, ct, (1 << 128) - 1, aad),
                 (iv << 8, ct, tag, aad), (iv >> 8, ct, tag, aad)]
        tries += [(iv, ct, (tag >> k) << k, aad) for k in range(1, 121)
                  if (tag >> k) << k != tag]
        tries += [(iv, ct, tag & (1 << k) - 1, aad) for k in range(0, 121)
                  if tag & (1 << k) - 1 != tag]
    else:
        for k in range(1, 34):
            tries += [(iv, ct + b"\0" * k, tag, aad),
                      (iv, ct, tag, aad + b"\0" * k),
                      (iv, b"\0" * k + ct, tag, aad),
                      (iv, ct, tag, b"\0" * k + aad)]
            if k <= pl:
                tries += [(iv, ct[:-k], tag, aad), (iv, ct[k:], tag, aad),
                          (iv, ct[k:], tag, aad + ct[:k])]
            if k <= al:
                tries += [(iv, ct, tag, aad[:-k]), (iv, ct, tag, aad[k:]),
                          (iv, aad[-k:] + ct, tag, aad[:-k])]
        tries.append((iv, aad, tag, ct))
        tries.append((iv, b"", tag, aad + ct))
        tries.append((iv, aad + ct, tag, b""))
    for t in tries:
        if t == (iv, ct, tag, aad):
            continue
        r = attempt(g.decrypt, *t)
        check(raised(r), "%s modified but decrypted to %r" % (what, r))
    check(attempt(g.decrypt, iv, ct, tag, aad) == pt, "decrypt after failures")
    c.evals = len(tries)
    c.done("refused")


def flip(o, b):
    m = bytearray(o)
    m[b // 8] ^= 1 << b % 8
    return bytes(m)


GOPS = [("enc", 1), ("enc", 2), ("enc0", 1), ("dec", 1), ("dec", 2), ("bad", 1), ("key", 1),
        ("key", 2)]


def gcm_history(c, depth, ivs=((1, 2),)):
    """histories of one cipher object"""
    from jwkest.aes_gcm import AES_GCM
    keys = {1: J.octs("k1", 16), 2: J.octs("k2", 32)}
    pt, aad = J.octs("pt", 21), b"header"
    pair = c.choose("IVs", ivs)
    ops = []
    nkeys = 0
    for i in range(depth):
        op = c.choose("op", GOPS)
        if op[0] == "key":
            nkeys += 1
            if nkeys > 2:
                raise Prune()
        ops.append(op)
    cur, prev = 1, None
    g = AES_GCM(keys[1])
    for kind, i in ops:
        if kind != "key":
            i = pair[i - 1]
        ct, tag = gcm(keys[cur], i, pt, aad)
        if kind == "key":
            r = attempt(g.change_key, keys[i])
            check(not raised(r), "change_key: %r" % (r,))
            cur, prev = i, None
        elif kind in ("enc", "enc0"):
            if kind == "enc0":          # nothing but the tag
                ct, tag = gcm(keys[cur], i, b"", aad)
            r = attempt(g.encrypt, i, b"" if kind == "enc0" else pt, aad)
            if prev == i:
                check(raised(r), "the same IV is used twice in a row")
            else:
                check(r == (ct, tag), "encrypt after %r: %r" % (ops, r))
            prev = i
        elif kind == "dec":
            r = attempt(g.decrypt, i, ct, tag, aad)
            check(r == pt, "decrypt after %r: %r" % (ops, r))
        else:
            r = attempt(g.decrypt, i, ct, tag ^ 1, aad)
            check(raised(r), "bad tag accepted after %r" % (ops,))
    c.done("agrees")


# --- CBC + HMAC ----------------------------------------------------------------

ENC = {32: "A128CBC-HS256", 48: "A192CBC-HS384", 64: "A256CBC-HS512"}


def cbc_lengths(c, pls, als):
    from jwkest.extra import aes_cbc_hmac_encrypt, aes_cbc_hmac_decrypt
    ks = c.choose("key size", list(ENC))
    pl = c.choose("plaintext length", pls)
    al = c.choose("aad length", als)
    pat = c.choose("octets", list(PAT))
    key, iv = PAT[pat]("ck", ks), PAT[pat]("civ", 16)
    pt, aad = PAT[pat]("pt", pl), PAT[pat]("aad", al)
    want = ref.cbc_hs_encrypt(ENC[ks], key, iv, aad, pt)
    got = attempt(aes_cbc_hmac_encrypt, key, iv, aad, pt)
    check(got == want, "CBC-HMAC %d, %d octets, aad %d: %r, not %r" % (
        ks, pl, al, got, want))
    back = attempt(aes_cbc_hmac_decrypt, key, iv, aad, *want)
    check(same(back, pt), "decrypt: %r, not %r" % (back, pt))
    c.done("RFC 7518 5.2")


def cbc_tamper(c, shapes):
    from jwkest.extra import aes_cbc_hmac_decrypt
    ks = c.choose("key size", list(ENC))
    pl, al = c.choose("lengths", shapes)
    what = c.choose("modify", ["ct", "tag", "aad", "iv", "key", "lengths",
                               "padding", "shift"])
    key, iv = J.octs("ck", ks), J.octs("civ", 16)
    pt, aad = J.octs("pt", pl), J.octs("aad", al)
    ct, tag = ref.cbc_hs_encrypt(ENC[ks], key, iv, aad, pt)
    good = (key, iv, aad, ct, tag)
    tries = []
    pos = {"key": 0, "iv": 1, "aad": 2, "ct": 3, "tag": 4}
    if what in pos:
        v = good[pos[what]]
        for b in range(8 * len(v)):
            t = list(good)
            t[pos[what]] = flip(v, b)
            tries.append(tuple(t))
        if what == "key":       # the encryption half does not enter the tag
            tries = tries[:ks * 4]
    elif what == "lengths":
        full = hmac.new(key[:ks // 2], aad + iv + ct +
                        struct.pack(">Q", 8 * al), ref.HLIB[
                            ENC[ks][-3:]]).digest()
        tries.append((key, iv, aad, ct, full))
        for k in range(1, 70):
            for p in pos.values():
                v = good[p]
                for w in (v[:-k], v[k:], v + b"\0" * k, b"\0" * k + v,
                          v + v[:k]):
                    if w != v and (k <= len(v) or len(w) > len(v)):
                        t = list(good)
                        t[p] = w
                        tries.append(tuple(t))
    elif what == "shift":
        # the same octets under the MAC, divided differently
        for k in range(1, 33):
            if k <= al:
                tries.append((key, aad[-k:] + iv[:16 - k], aad[:-k],
                              iv[16 - k:] + ct, tag) if k <= 16 else
                             (key, iv, aad[:-k], aad[-k:] + ct, tag))
            if k <= len(ct):
                tries.append((key, iv, aad + ct[:k], ct[k:], tag))
                tries.append((key, iv[k:16] + ct[:k] if k < 16 else ct[:16],
                              aad + iv[:k], ct[k:], tag))
    else:
        # valid MAC over ciphertexts whose padding is wrong
        for last in (0, 17, 32, 255):
            tries.append(pad(key, iv, aad, pt, [last]))
        for n in range(2, 17):
            for bad in range(n - 1):
                p = [n] * n
                p[bad] ^= 1
                tries.append(pad(key, iv, aad, pt, p))
        tries.append(pad(key, iv, aad, b"", []))
    for t in tries:
        if t == good:
            continue
        r = attempt(aes_cbc_hmac_decrypt, *t)
        check(raised(r), "%s modified but decrypted to %r: %r" % (what, r, t))
    c.evals = max(1, len(tries))
    c.done("refused")


def pad(key, iv, aad, pt, padding):
    body = pt + b"x" * (-(len(pt) + len(padding)) % 16) + bytes(padding)
    half = len(key) // 2
    ct = AES.new(key[half:], AES.MODE_CBC, iv).encrypt(body)
    t = hmac.new(key[:half], aad + iv + ct + struct.pack(">Q", len(aad) * 8),
                 ref.HLIB[ENC[len(key)][-3:]]).digest()[:half]
    return key, iv, aad, ct, t


def scopes(tier):
    th = tier == "thorough"
    pts = list(range(68)) + [4079, 4080, 4081, 4095, 4096, 4097, 4128]
    aads = list(range(36)) + [255, 256, 257]
    if th:
        pts = list(range(200)) + pts[68:] + [1 << 20]
        aads = list(range(100)) + aads[36:] + [8191, 8192, 70000]
    shapes = [(0, 0), (1, 1), (16, 0), (0, 16), (17, 13), (33, 20)]
    return [
        Scope("GCM lengths", lambda c: gcm_lengths(c, pts, aads), 3,
              "3 key sizes x %d aad lengths x %d plaintext lengths x 8 IVs x "
              "octet patterns, key as octets or number" % (
                  len(aads), len(pts))),
        Scope("GCM long", lambda c: gcm_long(
            c, [8191, 8192, 8193] + ([65535, 65536, 65537, 1 << 20] if th
                                     else [65536])), 2,
              "lengths at which the bit counts need another octet"),
        Scope("GCM modified", lambda c: gcm_tamper(
            c, shapes if not th else shapes + [(64, 64), (100, 31)]), 3,
            "every bit of ciphertext, tag, aad and IV, all truncated tags, "
            "lengths +-33"),
        Scope("GCM histories", lambda c: gcm_history(c, 4 if th else 3), 3,
              "all histories of 7 operations up to depth %d with at most two "
              "key changes" % (4 if th else 3)),
        Scope("GCM histories, IVs", lambda c: gcm_history(c, 2, [
            (0, 1), (1, 0), (0, (1 << 96) - 1), (1 << 95, 1 << 32)]), 3,
              "histories of 2 operations with 4 other pairs of IVs"),
        Scope("CBC-HMAC lengths", lambda c: cbc_lengths(
            c, range(200) if th else range(68),
            list(range(70) if th else range(36)) + [255, 256, 8192]), 2,
            "3 key sizes x all plaintext and aad lengths x 3 octet patterns"),
        Scope("CBC-HMAC modified", lambda c: cbc_tamper(c, [
            (0, 0), (1, 1), (15, 20), (16, 16), (17, 0), (47, 33)] + (
                [(255, 255)] if th else [])), 3,
            "every bit of everything the tag covers, all truncations and "
            "extensions, all wrong paddings, other divisions of the octets"),
    ]
