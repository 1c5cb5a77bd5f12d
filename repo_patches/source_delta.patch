From 04046ec90242a62bef5273d35a3db8413ca10172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:54 +0000
Subject: [PATCH 01/75] fix: use the content encryption key octets as they are
 with AES-GCM

A192GCM (and any key with leading zero octets) went through an integer
and came out with another length, so the content was encrypted with a
different key/AES variant than the one the recipient was given. The key
length is also tied to the declared enc.
---
 src/jwkest/aes_gcm.py |  5 ++++-
 src/jwkest/jwe.py     | 12 ++++++++++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/jwkest/aes_gcm.py b/src/jwkest/aes_gcm.py
index bb158c7..a22a2f3 100755
--- a/src/jwkest/aes_gcm.py
+++ b/src/jwkest/aes_gcm.py
@@ -80,7 +80,10 @@ class AES_GCM(object):
         # if master_key >= (1 << 128):
         #    raise InvalidInputException('Master key should be 128-bit')
 
-        self._master_key = long_to_bytes(master_key, 16)
+        if isinstance(master_key, bytes):
+            self._master_key = master_key
+        else:
+            self._master_key = long_to_bytes(master_key, 16)
         self._aes_ecb = AES.new(self._master_key, AES.MODE_ECB)
         self._auth_key = bytes_to_long(self._aes_ecb.encrypt(b'\x00' * 16))
 
diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index a2e5885..314c781 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -359,11 +359,15 @@ class JWe(JWx):
         key, iv = self._generate_key_and_iv(enc_alg, key, iv)
 
         if enc_alg in ["A192GCM", "A128GCM", "A256GCM"]:
-            gcm = AES_GCM(bytes_to_long(key))
+            if len(key) != ENCALGLEN1[enc_alg]:
+                raise ParameterError("Wrong key length for %s" % enc_alg)
+            gcm = AES_GCM(key)
             ctxt, tag = gcm.encrypt(bytes_to_long(iv), msg, auth_data)
             tag = long_to_bytes(tag)
         elif enc_alg in ["A128CBC-HS256", "A192CBC-HS384", "A256CBC-HS512"]:
             assert enc_alg in SUPPORTED["enc"]
+            if len(key) != ENCALGLEN2[enc_alg]:
+                raise ParameterError("Wrong key length for %s" % enc_alg)
             ctxt, tag = aes_cbc_hmac_encrypt(key, iv, auth_data, msg)
         else:
             raise NotSupportedAlgorithm(enc_alg)
@@ -383,7 +387,9 @@ class JWe(JWx):
         :return: plain text message or None if decryption failed
         """
         if enc in ["A128GCM", "A192GCM", "A256GCM"]:
-            gcm = AES_GCM(bytes_to_long(key))
+            if len(key) != ENCALGLEN1[enc]:
+                raise ParameterError("Wrong key length for %s" % enc)
+            gcm = AES_GCM(key)
             try:
                 text = gcm.decrypt(bytes_to_long(iv), ctxt, bytes_to_long(tag),
                                    auth_data)
@@ -391,6 +397,8 @@ class JWe(JWx):
             except DecryptionFailed:
                 raise
         elif enc in ["A128CBC-HS256", "A192CBC-HS384", "A256CBC-HS512"]:
+            if len(key) != ENCALGLEN2[enc]:
+                raise ParameterError("Wrong key length for %s" % enc)
             return aes_cbc_hmac_decrypt(key, iv, auth_data, ctxt, tag)
         else:
             raise Exception("Unsupported encryption algorithm %s" % enc)
-- 
2.43.0


From 7ae0d7024653ceb26726e4fdf86171ba6a402423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:02 +0000
Subject: [PATCH 02/75] fix: AES-GCM tags are always 16 octets and IVs 12
 octets

A tag with leading zero octets was serialized too short, and on
decryption a tag or IV with leading zeros added or removed was accepted.
---
 src/jwkest/jwe.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index 314c781..e1d7cc5 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -363,7 +363,7 @@ class JWe(JWx):
                 raise ParameterError("Wrong key length for %s" % enc_alg)
             gcm = AES_GCM(key)
             ctxt, tag = gcm.encrypt(bytes_to_long(iv), msg, auth_data)
-            tag = long_to_bytes(tag)
+            tag = long_to_bytes(tag, 16)
         elif enc_alg in ["A128CBC-HS256", "A192CBC-HS384", "A256CBC-HS512"]:
             assert enc_alg in SUPPORTED["enc"]
             if len(key) != ENCALGLEN2[enc_alg]:
@@ -389,6 +389,8 @@ class JWe(JWx):
         if enc in ["A128GCM", "A192GCM", "A256GCM"]:
             if len(key) != ENCALGLEN1[enc]:
                 raise ParameterError("Wrong key length for %s" % enc)
+            if len(iv) != 12 or len(tag) != 16:
+                raise DecryptionFailed("Wrong IV or authentication tag length")
             gcm = AES_GCM(key)
             try:
                 text = gcm.decrypt(bytes_to_long(iv), ctxt, bytes_to_long(tag),
-- 
2.43.0


From 9b95d7e0644b058655068b9afbe541b297259b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:26 +0000
Subject: [PATCH 03/75] fix: an ECDSA signature must have exactly the length of
 its curve

Octets inserted between r and s, or a shortened s, left the signature valid.
A verification ending in the point at infinity is a failure, not a TypeError.
---
 src/jwkest/ecc.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/jwkest/ecc.py b/src/jwkest/ecc.py
index 2504ced..8b46c6b 100755
--- a/src/jwkest/ecc.py
+++ b/src/jwkest/ecc.py
@@ -101,14 +101,18 @@ class NISTEllipticCurve(object):
     def verify(self, h, sig, pub):
         while h > self.N:
             h >>= 1
+        if len(sig) != 2 * self.bytes:
+            return False
         r = self.bytes2int(sig[:self.bytes])
         s = self.bytes2int(sig[self.bytes:])
         if 0 < r < self.N and 0 < s < self.N:
             w = inv(s, self.N)
             u1 = (h * w) % self.N
             u2 = (r * w) % self.N
-            x, y = muladdp(self.a, self.b, self.p, self.G, u1, pub, u2)
-            return r % self.N == x % self.N
+            point = muladdp(self.a, self.b, self.p, self.G, u1, pub, u2)
+            if point is None:
+                return False
+            return r % self.N == point[0] % self.N
         return False
 
 
-- 
2.43.0


From a61c3212911d6a472d423c100a6cdd79a0df81fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:33 +0000
Subject: [PATCH 04/75] fix: ECDSA only truncates a hash that has more bits
 than the group order

A hash numerically larger than the order lost one more bit than it should,
so the signature was not verifiable by other implementations.
---
 src/jwkest/ecc.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/jwkest/ecc.py b/src/jwkest/ecc.py
index 8b46c6b..ac43c97 100755
--- a/src/jwkest/ecc.py
+++ b/src/jwkest/ecc.py
@@ -75,6 +75,10 @@ class NISTEllipticCurve(object):
     def dh_z(self, priv, pub):
         return self.int2bytes(mulp(self.a, self.b, self.p, pub, priv)[0])
 
+    # The leftmost bits of the hash, as many as there are in the group order
+    def truncate_hash(self, h):
+        return h >> max(0, h.bit_length() - self.N.bit_length())
+
     def _sign_loop(self, r, s, h, k, priv):
         while r == 0 or s == 0:
             if k is None:
@@ -89,8 +93,7 @@ class NISTEllipticCurve(object):
 
     # ECDSA (adapted from ecdsa.py)
     def sign(self, h, priv, k=None):
-        while h > self.N:
-            h >>= 1
+        h = self.truncate_hash(h)
 
         r = s = 0
 
@@ -99,8 +102,7 @@ class NISTEllipticCurve(object):
         return self.int2bytes(r) + self.int2bytes(s)
 
     def verify(self, h, sig, pub):
-        while h > self.N:
-            h >>= 1
+        h = self.truncate_hash(h)
         if len(sig) != 2 * self.bytes:
             return False
         r = self.bytes2int(sig[:self.bytes])
-- 
2.43.0


From 6a0428292fca63ef6deb15341e2b49c63919f019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:40 +0000
Subject: [PATCH 05/75] fix: AES key wrap only handles whole 64 bit blocks

Wrapping silently dropped the octets after the last whole block and
unwrapping ignored them, so a wrapped key could be extended at will.
---
 src/jwkest/aes_key_wrap.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jwkest/aes_key_wrap.py b/src/jwkest/aes_key_wrap.py
index 0e09c09..edb341c 100644
--- a/src/jwkest/aes_key_wrap.py
+++ b/src/jwkest/aes_key_wrap.py
@@ -31,6 +31,8 @@ QUAD = struct.Struct('>Q')
 
 
 def aes_unwrap_key_and_iv(kek, wrapped, mode=MODE_ECB):
+    if len(wrapped) % 8 or len(wrapped) < 16:
+        raise ValueError("Wrapped key is not a number of 64 bit blocks")
     n = (len(wrapped) // 8) - 1
     #NOTE: R[0] is never accessed, left in for consistency with RFC indices
     r = [None] + [wrapped[i * 8:i * 8 + 8] for i in range(1, n + 1)]
@@ -65,6 +67,8 @@ def aes_unwrap_key_withpad(kek, wrapped):
 
 
 def aes_wrap_key(kek, plaintext, iv=0xa6a6a6a6a6a6a6a6, mode=MODE_ECB):
+    if len(plaintext) % 8 or not plaintext:
+        raise ValueError("Key data is not a number of 64 bit blocks")
     n = len(plaintext) // 8
     r = [None] + [plaintext[i * 8:i * 8 + 8] for i in range(0, n)]
     a = iv
-- 
2.43.0


From 712b657f2145e6b1275e5e6c6b590c1fec4a06c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:04 +0000
Subject: [PATCH 06/75] fix: aes_wrap_key_withpad pads bytes with bytes

---
 src/jwkest/aes_key_wrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jwkest/aes_key_wrap.py b/src/jwkest/aes_key_wrap.py
index edb341c..8ba1c7b 100644
--- a/src/jwkest/aes_key_wrap.py
+++ b/src/jwkest/aes_key_wrap.py
@@ -83,7 +83,7 @@ def aes_wrap_key(kek, plaintext, iv=0xa6a6a6a6a6a6a6a6, mode=MODE_ECB):
 
 def aes_wrap_key_withpad(kek, plaintext):
     iv = 0xA65959A600000000 + len(plaintext)
-    plaintext += "\0" * (8 - len(plaintext) % 8)
+    plaintext += b"\0" * (8 - len(plaintext) % 8)
     return aes_wrap_key(kek, plaintext, iv)
 
 
-- 
2.43.0


From 27dde80e3a8b1a9d51dc60446982d0d8d517ca08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:11 +0000
Subject: [PATCH 07/75] fix: EC private keys and ECDSA nonces come from the
 system's CSPRNG

They were drawn from the random module's predictable, seedable generator.
---
 src/jwkest/ecc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jwkest/ecc.py b/src/jwkest/ecc.py
index ac43c97..c7f49f1 100755
--- a/src/jwkest/ecc.py
+++ b/src/jwkest/ecc.py
@@ -14,7 +14,7 @@ from jwkest.elliptic import sign_bit
 from jwkest.elliptic import muladdp
 from jwkest.elliptic import y_from_x
 from jwkest.curves import get_curve
-from random import getrandbits
+from Cryptodome.Random.random import getrandbits
 from math import ceil
 
 
-- 
2.43.0


From 12a4b71202897eaec58aa79bc8598b341fb90d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:16 +0000
Subject: [PATCH 08/75] fix: decrypt ECDH-ES tokens that have no apu or apv
 header

---
 src/jwkest/jwe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index e1d7cc5..b257301 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -663,7 +663,7 @@ class JWE_EC(JWe):
                 "Ephemeral Public Key Missing in ECDH-ES Computation")
 
         epubkey = ECKey(**self.headers["epk"])
-        apu = apv = ""
+        apu = apv = b""
         if "apu" in self.headers:
             apu = b64d(self.headers["apu"].encode())
         if "apv" in self.headers:
-- 
2.43.0


From a0d8282609cb8f0d39391f43acabf6a09fa99c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:23 +0000
Subject: [PATCH 09/75] fix: AlgorithmID in the ECDH-ES key derivation is
 length prefixed

RFC 7518 section 4.6.2: {AlgorithmID} is a 32-bit length followed by the
identifier. Without it no token could be exchanged with other
implementations (RFC 7518 appendix C).
---
 src/jwkest/extra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jwkest/extra.py b/src/jwkest/extra.py
index 9777532..bfa2eab 100644
--- a/src/jwkest/extra.py
+++ b/src/jwkest/extra.py
@@ -176,7 +176,7 @@ def ecdh_derive_key(curve, key, epk, apu, apv, alg, dk_len):
     Z = curve.dh_z(key, epk)
     # Derive the key
     # AlgorithmID || PartyUInfo || PartyVInfo || SuppPubInfo
-    otherInfo = bytes(alg) + \
+    otherInfo = pack("!I", len(alg)) + bytes(alg) + \
         pack("!I", len(apu)) + apu + \
         pack("!I", len(apv)) + apv + \
         pack("!I", dk_len)
-- 
2.43.0


From 325121a81541ab39939c3b1ff582c1e6044f2981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:49 +0000
Subject: [PATCH 10/75] fix: refuse EC public keys that are not points on their
 curve

An attacker's epk on a weak curve was multiplied with the recipient's
private key (the ECDH-ES invalid curve attack).
---
 src/jwkest/ecc.py | 7 +++++++
 src/jwkest/jwk.py | 3 +++
 2 files changed, 10 insertions(+)

diff --git a/src/jwkest/ecc.py b/src/jwkest/ecc.py
index c7f49f1..f9438c4 100755
--- a/src/jwkest/ecc.py
+++ b/src/jwkest/ecc.py
@@ -8,6 +8,7 @@ from __future__ import division
 
 from Cryptodome.Util.number import long_to_bytes
 from Cryptodome.Util.number import bytes_to_long
+from jwkest.elliptic import element
 from jwkest.elliptic import inv
 from jwkest.elliptic import mulp
 from jwkest.elliptic import sign_bit
@@ -61,6 +62,12 @@ class NISTEllipticCurve(object):
     def uncompress(self, p):
         return p[0], y_from_x(p[0], self.a, self.b, self.p, p[1])
 
+    # Is this the affine coordinates of a point on this curve
+    def on_curve(self, point):
+        x, y = point
+        return 0 <= x < self.p and 0 <= y < self.p and \
+            element(point, self.a, self.b, self.p)
+
     # Return a new key pair for this curve
     def key_pair(self):
         priv = (getrandbits(self.bits) % (self.N - 1)) + 1
diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index 32891c7..ed76b7f 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -604,6 +604,9 @@ class ECKey(Key):
             raise DeSerializationNotPossible("%s" % err)
 
         self.curve = NISTEllipticCurve.by_name(self.crv)
+        if not self.curve.on_curve((self.x, self.y)):
+            raise DeSerializationNotPossible(
+                "The point is not on the curve {}".format(self.curve.name()))
         if self.d:
             try:
                 if isinstance(self.d, six.string_types):
-- 
2.43.0


From 4d6e0304866904ca9a19ef0d3eb22061c49240dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:56 +0000
Subject: [PATCH 11/75] fix: the ephemeral public key must be on the recipient
 key's curve

---
 src/jwkest/jwe.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index b257301..90eefd0 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -663,6 +663,9 @@ class JWE_EC(JWe):
                 "Ephemeral Public Key Missing in ECDH-ES Computation")
 
         epubkey = ECKey(**self.headers["epk"])
+        if epubkey.curve.name() != key.curve.name():
+            raise NoSuitableECDHKey(
+                "Ephemeral Public Key is not on the curve of the key")
         apu = apv = b""
         if "apu" in self.headers:
             apu = b64d(self.headers["apu"].encode())
-- 
2.43.0


From 1fac3cb695b1dbaf4c9ce6178fe91199607e7f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:02 +0000
Subject: [PATCH 12/75] fix: ECKey.load_key also sets crv

A key made by load_key could not be used for ECDH-ES encryption.
---
 src/jwkest/jwk.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index ed76b7f..97607c1 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -644,6 +644,7 @@ class ECKey(Key):
 
     def load_key(self, key):
         self.curve = key
+        self.crv = key.name()
         self.d, (self.x, self.y) = key.key_pair()
         return self
 
-- 
2.43.0


From 6019026ff1185f4988e8771b87402877ca1a19e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:26 +0000
Subject: [PATCH 13/75] fix: a JWE in compact serialization has exactly five
 parts

---
 src/jwkest/jwe.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index 90eefd0..4f8ee33 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -549,6 +549,9 @@ class JWE_RSA(JWe):
         else:
             jwe = token
 
+        if len(jwe) != 5:
+            raise WrongNumberOfParts(len(jwe))
+
         self.jwt = jwe.encrypted_key()
         jek = jwe.encrypted_key()
 
@@ -652,6 +655,9 @@ class JWE_EC(JWe):
 
     def dec_setup(self, token, key=None, **kwargs):
 
+        if len(token) != 5:
+            raise WrongNumberOfParts(len(token))
+
         self.headers = token.headers
         self.iv = token.initialization_vector()
         self.ctxt = token.ciphertext()
@@ -854,6 +860,8 @@ class JWE(JWx):
     def decrypt(self, token=None, keys=None, alg=None, cek=None):
         if token:
             jwe = JWEnc().unpack(token)
+            if len(jwe) != 5:
+                raise WrongNumberOfParts(len(jwe))
             # header, ek, eiv, ctxt, tag = token.split(b".")
             # self.parse_header(header)
         elif self.jwt:
-- 
2.43.0


From e060d1159066bad1825284472a58aaab2c495e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:33 +0000
Subject: [PATCH 14/75] fix: with ECDH-ES direct key agreement the encrypted
 key must be empty

---
 src/jwkest/jwe.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index 4f8ee33..cde02c7 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -684,6 +684,10 @@ class JWE_EC(JWe):
             except KeyError:
                 raise Exception("Unknown key length for algorithm")
 
+            if token.encrypted_key():
+                raise ParameterError(
+                    "Encrypted key must be empty with ECDH-ES")
+
             self.cek = ecdh_derive_key(epubkey.curve, key.d,
                                        (epubkey.x, epubkey.y), apu, apv,
                                        str(self.headers["enc"]).encode(),
-- 
2.43.0


From f0a598aa93dc7eeab55909576f375c4c315f212f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:41 +0000
Subject: [PATCH 15/75] fix: encrypting to an EC key only needs its public part

---
 src/jwkest/jwe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index cde02c7..21362b7 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -839,9 +839,9 @@ class JWE(JWx):
         for key in keys:
             if isinstance(encrypter, JWE_EC):
                 if self.enc:
-                    _key = key.encryption_key(alg=self.enc, private=True)
+                    _key = key.encryption_key(alg=self.enc, private=False)
                 else:
-                    _key = key.encryption_key(alg=_alg, private=True)
+                    _key = key.encryption_key(alg=_alg, private=False)
             else:
                 _key = key.encryption_key(alg=_alg, private=True)
 
-- 
2.43.0


From 334b9722b81269fe4ee1a52038e0ce968c43da96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:47 +0000
Subject: [PATCH 16/75] fix: a bytes message can be encrypted with AES key wrap

---
 src/jwkest/jwe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index 21362b7..ef5b95c 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -447,7 +447,7 @@ class JWE_SYM(JWe):
 
         _enc = self["enc"]
 
-        ctxt, tag, cek = self.enc_setup(_enc, _msg.encode(),
+        ctxt, tag, cek = self.enc_setup(_enc, as_bytes(_msg),
                                         jwe.b64_encode_header(),
                                         cek, iv=iv)
         return jwe.pack(parts=[jek, iv, ctxt, tag])
-- 
2.43.0


From d7a2edbf70a5ac29987fa4daa6579f8a8d9d8578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:34 +0000
Subject: [PATCH 17/75] fix: JWE.decrypt tries every usable key before it gives
 up

A wrong first key made RSA-OAEP, AES key wrap and ECDH-ES decryption fail
with whatever exception came out of the primitive, and for ECDH-ES only the
first key was ever tried. As failures now all end in the same DecryptionFailed
an attacker can also not tell a RSA1_5 padding error from a bad tag.
---
 src/jwkest/jwe.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index ef5b95c..e286c3a 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -25,12 +25,14 @@ from jwkest import WrongNumberOfParts
 from jwkest import JWKESTException
 from jwkest import MissingKey
 from jwkest.aes_gcm import AES_GCM
+from jwkest.aes_gcm import InvalidTagException
 from jwkest.aes_key_wrap import aes_wrap_key
 from jwkest.aes_key_wrap import aes_unwrap_key
 from jwkest.ecc import NISTEllipticCurve
 from jwkest.extra import aes_cbc_hmac_encrypt
 from jwkest.extra import ecdh_derive_key
 from jwkest.extra import aes_cbc_hmac_decrypt
+from jwkest.extra import VerificationFailure
 from jwkest.jwk import intarr2str, SYMKey
 from jwkest.jwk import ECKey
 from jwkest.jws import JWx
@@ -84,6 +86,12 @@ class WrongEncryptionAlgorithm(JWEException):
     pass
 
 
+# What can come out of decrypting a token with the wrong key
+DECRYPTION_ERRORS = (KeyError, ValueError, TypeError, DecryptionFailed,
+                     ParameterError, NoSuitableECDHKey, InvalidTagException,
+                     VerificationFailure)
+
+
 # ---------------------------------------------------------------------------
 # Base class
 
@@ -895,7 +903,7 @@ class JWE(JWx):
                 raise NoSuitableECDHKey(_alg)
 
             decrypter = JWE_EC(**self._dict)
-            cek = decrypter.dec_setup(jwe, key=keys[0])
+            cek = None
         else:
             raise NotSupportedAlgorithm
 
@@ -903,18 +911,20 @@ class JWE(JWx):
             try:
                 msg = decrypter.decrypt(jwe, None, cek=cek)
                 self["cek"] = decrypter.cek if 'cek' in decrypter else None
-            except (KeyError, DecryptionFailed):
+            except DECRYPTION_ERRORS:
                 pass
             else:
                 logger.debug("Decrypted message using exiting CEK")
                 return msg
 
         for key in keys:
-            _key = key.encryption_key(alg=_alg, private=False)
             try:
+                _key = key.encryption_key(alg=_alg, private=False)
+                if isinstance(decrypter, JWE_EC):
+                    decrypter.dec_setup(jwe, key=key)
                 msg = decrypter.decrypt(jwe, _key)
                 self["cek"] = decrypter.cek if 'cek' in decrypter else None
-            except (KeyError, DecryptionFailed):
+            except DECRYPTION_ERRORS:
                 pass
             else:
                 logger.debug(
-- 
2.43.0


From 31ebd03cac324bdae2a2d0cf88a7cf68d2b2c674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:49 +0000
Subject: [PATCH 18/75] fix: apv given to JWE is used, and apu and apv may be
 text

apv was dropped without notice and replaced with random octets.
---
 src/jwkest/jwe.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index e286c3a..b214b4e 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -607,11 +607,11 @@ class JWE_EC(JWe):
 
         # Generate the input parameters
         try:
-            apu = b64d(kwargs["apu"])
+            apu = b64d(as_bytes(kwargs["apu"]))
         except KeyError:
             apu = Random.get_random_bytes(16)
         try:
-            apv = b64d(kwargs["apv"])
+            apv = b64d(as_bytes(kwargs["apv"]))
         except KeyError:
             apv = Random.get_random_bytes(16)
 
@@ -758,7 +758,7 @@ class JWE_EC(JWe):
 
 class JWE(JWx):
     args = ["alg", "enc", "epk", "zip", "jku", "jwk", "x5u", "x5t",
-            "x5c", "kid", "typ", "cty", "apu", "crit"]
+            "x5c", "kid", "typ", "cty", "apu", "apv", "crit"]
 
     """
     :param msg: The message
-- 
2.43.0


From c1429f4ce0341010f1013bb4f7d2dcadc745a597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:20 +0000
Subject: [PATCH 19/75] fix: zip=DEF is raw DEFLATE and works with every JWE
 algorithm

zip was ignored when encrypting with AES key wrap or ECDH-ES and so were
the zip headers of such tokens: the receiver got compressed octets. With
RSA the zlib format was used instead of the RFC 1951 one.
---
 src/jwkest/jwe.py | 49 +++++++++++++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 19 deletions(-)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index b214b4e..1b946fe 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -273,6 +273,27 @@ ENCALGLEN2 = {
 }
 
 
+
+def compress(headers, msg):
+    if not headers.get("zip"):
+        return msg
+    elif headers["zip"] != "DEF":
+        raise ParameterError("Zip has unknown value: %s" % headers["zip"])
+
+    # RFC 1951, that is without zlib's header and checksum
+    compressor = zlib.compressobj(-1, zlib.DEFLATED, -zlib.MAX_WBITS)
+    return compressor.compress(msg) + compressor.flush()
+
+
+def decompress(headers, msg):
+    if not headers.get("zip"):
+        return msg
+    elif headers["zip"] != "DEF":
+        raise ParameterError("Zip has unknown value: %s" % headers["zip"])
+
+    return zlib.decompress(msg, -zlib.MAX_WBITS)
+
+
 class JWEnc(JWT):
     def b64_protected_header(self):
         return self.b64part[0]
@@ -416,7 +437,7 @@ class JWe(JWx):
 
 class JWE_SYM(JWe):
     args = JWe.args[:]
-    args.append("enc")
+    args.extend(["enc", "zip"])
 
     def encrypt(self, key, iv="", cek="", **kwargs):
         """
@@ -427,7 +448,7 @@ class JWE_SYM(JWe):
         :param kwargs: Extra keyword arguments, just ignore for now.
         :return:
         """
-        _msg = self.msg
+        _msg = compress(self._dict, as_bytes(self.msg))
 
         _args = self._dict
         try:
@@ -455,7 +476,7 @@ class JWE_SYM(JWe):
 
         _enc = self["enc"]
 
-        ctxt, tag, cek = self.enc_setup(_enc, as_bytes(_msg),
+        ctxt, tag, cek = self.enc_setup(_enc, _msg,
                                         jwe.b64_encode_header(),
                                         cek, iv=iv)
         return jwe.pack(parts=[jek, iv, ctxt, tag])
@@ -488,10 +509,7 @@ class JWE_SYM(JWe):
             jwe.b64_protected_header(),
             jwe.initialization_vector(), jwe.authentication_tag())
 
-        if "zip" in self and self["zip"] == "DEF":
-            msg = zlib.decompress(msg)
-
-        return msg
+        return decompress(jwe.headers, msg)
 
 
 class JWE_RSA(JWe):
@@ -509,12 +527,7 @@ class JWE_RSA(JWe):
         :return: A jwe
         """
 
-        _msg = as_bytes(self.msg)
-        if "zip" in self:
-            if self["zip"] == "DEF":
-                _msg = zlib.compress(_msg)
-            else:
-                raise ParameterError("Zip has unknown value: %s" % self["zip"])
+        _msg = compress(self._dict, as_bytes(self.msg))
 
         kwarg_cek = cek or None
 
@@ -589,15 +602,12 @@ class JWE_RSA(JWe):
                             jwe.initialization_vector(),
                             jwe.authentication_tag())
 
-        if "zip" in jwe.headers and jwe.headers["zip"] == "DEF":
-            msg = zlib.decompress(msg)
-
-        return msg
+        return decompress(jwe.headers, msg)
 
 
 class JWE_EC(JWe):
     args = JWe.args[:]
-    args.append("enc")
+    args.extend(["enc", "zip"])
 
     def enc_setup(self, msg, auth_data, key=None, **kwargs):
 
@@ -714,7 +724,7 @@ class JWE_EC(JWe):
 
     def encrypt(self, key, iv="", cek="", **kwargs):
 
-        _msg = as_bytes(self.msg)
+        _msg = compress(self._dict, as_bytes(self.msg))
         _args = self._dict
         try:
             _args["kid"] = kwargs["kid"]
@@ -751,6 +761,7 @@ class JWE_EC(JWe):
                                            self.ctxt,
                                            jwe.b64part[0],
                                            self.iv, self.tag)
+        msg = decompress(self.headers, msg)
         self.msg = msg
         self.msg_valid = True
         return msg
-- 
2.43.0


From fe87e637a605ab9ba4603f296aeee5fcd8458149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:41 +0000
Subject: [PATCH 20/75] fix: convert 0 and numbers with an odd number of hex
 digits

---
 src/jwkest/__init__.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/jwkest/__init__.py b/src/jwkest/__init__.py
index 97f197b..570a43b 100644
--- a/src/jwkest/__init__.py
+++ b/src/jwkest/__init__.py
@@ -84,10 +84,8 @@ def intarr2bin(arr):
 
 
 def long2hexseq(l):
-    try:
-        return unhexlify(hex(l)[2:])
-    except TypeError:
-        return unhexlify(hex(l)[2:-1])
+    h = "%x" % l
+    return unhexlify(h.zfill(len(h) + len(h) % 2))
 
 
 def intarr2long(arr):
@@ -106,7 +104,7 @@ def long_to_base64(n):
     bys = long2intarr(n)
     data = struct.pack('%sB' % len(bys), *bys)
     if not len(data):
-        data = '\x00'
+        data = b'\x00'
     s = base64.urlsafe_b64encode(data).rstrip(b'=')
     return s.decode("ascii")
 
-- 
2.43.0


From a6bda753381dddfba93b63641b32e06136dd7753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:48 +0000
Subject: [PATCH 21/75] fix: b64d raises BadSyntax for everything that isn't
 base64url

A trailing newline and superfluous padding were accepted, too little padding
raised binascii.Error.
---
 src/jwkest/__init__.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/jwkest/__init__.py b/src/jwkest/__init__.py
index 570a43b..1595c00 100644
--- a/src/jwkest/__init__.py
+++ b/src/jwkest/__init__.py
@@ -143,7 +143,7 @@ def b64e(b):
     return base64.urlsafe_b64encode(b).rstrip(b"=")
 
 
-_b64_re = re.compile(b"^[A-Za-z0-9_-]*$")
+_b64_re = re.compile(b"^[A-Za-z0-9_-]*\\Z")
 
 
 def add_padding(b):
@@ -175,10 +175,12 @@ def b64d(b):
     if not _b64_re.match(cb):
         raise BadSyntax(cb, "base64-encoded data contains illegal characters")
 
-    if cb == b:
-        b = add_padding(b)
+    # Whatever padding there is has to be the correct one
+    padded = add_padding(cb)
+    if b != cb and b != padded:
+        raise BadSyntax(b, "incorrect padding")
 
-    return base64.urlsafe_b64decode(b)
+    return base64.urlsafe_b64decode(padded)
 
 
 def b64e_enc_dec(str, encode="utf-8", decode="ascii"):
-- 
2.43.0


From 7add0cea3439f8961d78b84d338c1bf8d7d46f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:11 +0000
Subject: [PATCH 22/75] fix: EC coordinates are serialized with the full length
 of the curve

RFC 7518 section 6.2.1.2. Coordinates with leading zero octets came out too
short.
---
 src/jwkest/__init__.py | 3 ++-
 src/jwkest/jwk.py      | 6 +++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/jwkest/__init__.py b/src/jwkest/__init__.py
index 1595c00..82e948d 100644
--- a/src/jwkest/__init__.py
+++ b/src/jwkest/__init__.py
@@ -100,8 +100,9 @@ def long2intarr(long_int):
     return _bytes
 
 
-def long_to_base64(n):
+def long_to_base64(n, mlen=0):
     bys = long2intarr(n)
+    bys = [0] * (mlen - len(bys)) + bys
     data = struct.pack('%sB' % len(bys), *bys)
     if not len(data):
         data = b'\x00'
diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index 97607c1..d6b97d2 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -633,12 +633,12 @@ class ECKey(Key):
         res = self.common()
         res.update({
             "crv": self.curve.name(),
-            "x": long_to_base64(self.x),
-            "y": long_to_base64(self.y)
+            "x": long_to_base64(self.x, self.curve.bytes),
+            "y": long_to_base64(self.y, self.curve.bytes)
         })
 
         if private and self.d:
-            res["d"] = long_to_base64(self.d)
+            res["d"] = long_to_base64(self.d, self.curve.bytes)
 
         return res
 
-- 
2.43.0


From a9fba237d2901f3db556129e79faf9c5462af074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:20 +0000
Subject: [PATCH 23/75] fix: a private EC key loaded from a JWK can be used for
 signing

keyrep() hands over bytes, and d was left as such.
---
 src/jwkest/__init__.py | 1 +
 src/jwkest/jwk.py      | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jwkest/__init__.py b/src/jwkest/__init__.py
index 82e948d..c46963d 100644
--- a/src/jwkest/__init__.py
+++ b/src/jwkest/__init__.py
@@ -127,6 +127,7 @@ def base64url_to_long(data):
     :param data: The base64 string
     :return:
     """
+    data = as_bytes(data)
     _d = base64.urlsafe_b64decode(bytes(data) + b'==')
     # verify that it's base64url encoded and not just base64
     # that is no '+' and '/' characters and not trailing "="s.
diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index d6b97d2..eb7dd57 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -609,7 +609,7 @@ class ECKey(Key):
                 "The point is not on the curve {}".format(self.curve.name()))
         if self.d:
             try:
-                if isinstance(self.d, six.string_types):
+                if not isinstance(self.d, six.integer_types):
                     self.d = deser(self.d)
             except ValueError as err:
                 raise DeSerializationNotPossible(str(err))
-- 
2.43.0


From 9c8713ac8d825044d2d8b3dbb90233051985d6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:13 +0000
Subject: [PATCH 24/75] fix: RSAKey no longer changes the member lists of the
 Key class

Comparing two plain Key instances raised AttributeError for 'n', and
thumbprint() sorted the caller's list.
---
 src/jwkest/jwk.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index eb7dd57..4065194 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -365,10 +365,9 @@ class Key(object):
         if members is None:
             members = self.required
 
-        members.sort()
         ser = self.serialize()
         _se = []
-        for elem in members:
+        for elem in sorted(members):
             try:
                 _val = ser[elem]
             except KeyError:  # should never happen with the required set
@@ -412,10 +411,10 @@ class RSAKey(Key):
     """
     JSON Web key representation of a RSA key
     """
-    members = Key.members
+    members = Key.members[:]
     members.extend(["n", "e", "d", "p", "q"])
     longs = ["n", "e", "d", "p", "q", "dp", "dq", "di", "qi"]
-    public_members = Key.public_members
+    public_members = Key.public_members[:]
     public_members.extend(["n", "e"])
     required = ['kty', 'n', 'e']
 
-- 
2.43.0


From 8825e003743ded2958d0b1a49427048fd8204529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:20 +0000
Subject: [PATCH 25/75] fix: symmetric keys are only equal if the key octets
 are

Instances made with key= were equal whatever the key was.
---
 src/jwkest/jwk.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index 4065194..60545b1 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -686,6 +686,14 @@ class SYMKey(Key):
         else:
             raise DeSerializationNotPossible()
 
+    def __eq__(self, other):
+        # 'k' is not set if the key was not made from a JWK
+        return isinstance(other, SYMKey) and self.key == other.key and all(
+            getattr(self, m) == getattr(other, m)
+            for m in self.public_members if m != "k")
+
+    __hash__ = Key.__hash__
+
     def serialize(self, private=True):
         res = self.common()
         res["k"] = as_unicode(b64e(bytes(self.key)))
-- 
2.43.0


From b2eefe4ba66443e21f51f2b4ad6d28c3e076afc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:27 +0000
Subject: [PATCH 26/75] fix: hashing a key does not give it a kid

Putting a key in a set or a dict changed it: it was no longer equal to an
equal key, and its kid showed up in serializations and took part in key
selection.
---
 src/jwkest/jwk.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index 60545b1..a2ae597 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -391,10 +391,7 @@ class Key(object):
 
     def __hash__(self):
         if not self._hash:
-            if self.kid:
-                self.get_hash()
-            else:
-                self.add_kid()
+            self.get_hash()
         return self._hash
 
 
-- 
2.43.0


From d105f730f1ba2d8dc8d5471032dc2f535988af21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:34 +0000
Subject: [PATCH 27/75] fix: a key of an unknown type does not become null in a
 dumped JWKS

Such a JWKS could not be loaded again.
---
 src/jwkest/jwk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index a2ae597..c5fc124 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -311,7 +311,7 @@ class Key(object):
         map key characteristics into attribute values that can be used
         to create an on-the-wire representation of the key
         """
-        pass
+        return self.common()
 
     def get_key(self, **kwargs):
         return self.key
-- 
2.43.0


From 5197626031d536ffdbf2868ca737621fc8d19f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:00 +0000
Subject: [PATCH 28/75] fix: the result of make_public_copy is usable as a key

It could neither be serialized nor, for RSA, used for verifying a signature.
---
 src/jwkest/jwk.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index c5fc124..9b188eb 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -946,4 +946,7 @@ def make_public_copy(key):
         else:
             setattr(c, attr, v)
 
+    if isinstance(c, (RSAKey, ECKey)):
+        c.deserialize()
+
     return c
-- 
2.43.0


From 0a6720fc5632b7e285b0f0dc575f1773badeda05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:07 +0000
Subject: [PATCH 29/75] fix: a JWKS is loaded completely or not at all

If one of the keys could not be loaded those before it were added anyhow, and
a second try added them once more.
---
 src/jwkest/jwk.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index 9b188eb..9d6f152 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -803,8 +803,7 @@ class KEYS(object):
         self._keys = []
 
     def load_dict(self, dikt):
-        for kspec in dikt["keys"]:
-            self._keys.append(keyrep(kspec))
+        self._keys.extend([keyrep(kspec) for kspec in dikt["keys"]])
 
     def load_jwks(self, jwks):
         """
-- 
2.43.0


From a171f218920880546d7c068d0a453d443fc4e88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:28 +0000
Subject: [PATCH 30/75] fix: a JWK with x5t and x5c can be loaded by keyrep()

keyrep() hands over bytes, encoding them raised AttributeError.
---
 src/jwkest/jwk.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index 9d6f152..d9cb701 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -465,10 +465,10 @@ class RSAKey(Key):
             except ValueError as err:
                 raise DeSerializationNotPossible("%s" % err)
         elif self.x5c:
-            der_cert = base64.b64decode(self.x5c[0].encode("ascii"))
+            der_cert = base64.b64decode(as_bytes(self.x5c[0]))
 
             if self.x5t:  # verify the cert
-                if not b64d(self.x5t.encode("ascii")) == hashlib.sha1(
+                if not b64d(as_bytes(self.x5t)) == hashlib.sha1(
                         der_cert).digest():
                     raise DeSerializationNotPossible(
                         "The thumbprint ('x5t') does not match the "
-- 
2.43.0


From 7e41e86dd587cf6dfd0c07a89886e80bddd4a34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:35 +0000
Subject: [PATCH 31/75] fix: a JSON serialized JWS without any signature
 doesn't verify

verify_json returned None as the payload instead of raising.
---
 src/jwkest/jws.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jwkest/jws.py b/src/jwkest/jws.py
index 87e3038..043fbbf 100644
--- a/src/jwkest/jws.py
+++ b/src/jwkest/jws.py
@@ -655,6 +655,9 @@ class JWS(JWx):
                     signature[key] = _jwss[key]
             _signs = [signature]
 
+        if not _signs:
+            raise FormatError("Missing signature")
+
         _claim = None
         for _sign in _signs:
             protected_headers = _sign.get("protected", "")
-- 
2.43.0


From 6c0e50558c2910469a28ef790dcc8e1cd0f7e15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:42 +0000
Subject: [PATCH 32/75] fix: is_jws() answers False for JSON that isn't a JWS

JSON numbers, strings and arrays, and compact tokens with a header that is
not an object, raised AttributeError or TypeError.
---
 src/jwkest/jws.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/jwkest/jws.py b/src/jwkest/jws.py
index 043fbbf..512dccb 100644
--- a/src/jwkest/jws.py
+++ b/src/jwkest/jws.py
@@ -698,6 +698,9 @@ class JWS(JWx):
             return self._is_compact_jws(jws)
 
     def _is_json_serialized_jws(self, json_jws):
+        if not isinstance(json_jws, dict):
+            return False
+
         json_ser_keys = set(["payload", "signatures"])
         flattened_json_ser_keys = set(["payload", "signature"])
         if not json_ser_keys.issubset(
@@ -713,7 +716,7 @@ class JWS(JWx):
             return False
 
         try:
-            assert "alg" in jwt.headers
+            assert isinstance(jwt.headers, dict) and "alg" in jwt.headers
         except AssertionError:
             return False
         else:
@@ -722,7 +725,7 @@ class JWS(JWx):
 
             try:
                 assert jwt.headers["alg"] in SIGNER_ALGS
-            except AssertionError:
+            except (AssertionError, TypeError):
                 logger.debug("UnknownSignerAlg: %s" % jwt.headers["alg"])
                 return False
             else:
-- 
2.43.0


From 3ca87d6dc9cc232116d3fe3393c89534cc49e611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:25 +0000
Subject: [PATCH 33/75] fix: only tokens with three parts are JWSs and with
 five parts JWEs

A token could be both according to the two factories.
---
 src/jwkest/jwe.py | 3 +++
 src/jwkest/jws.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index 1b946fe..4b2407a 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -329,6 +329,9 @@ class JWEnc(JWT):
         return b64encode_item(self.headers)
 
     def is_jwe(self):
+        if len(self) != 5 or not isinstance(self.headers, dict):
+            return False
+
         if "typ" in self.headers and self.headers["typ"].lower() == "jwe":
             return True
 
diff --git a/src/jwkest/jws.py b/src/jwkest/jws.py
index 512dccb..c92e02b 100644
--- a/src/jwkest/jws.py
+++ b/src/jwkest/jws.py
@@ -715,6 +715,9 @@ class JWS(JWx):
         except Exception:
             return False
 
+        if len(jwt) != 3:
+            return False
+
         try:
             assert isinstance(jwt.headers, dict) and "alg" in jwt.headers
         except AssertionError:
-- 
2.43.0


From bf36ed87d910909e20ea353e371087eee26e209d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:33 +0000
Subject: [PATCH 34/75] fix: sign_json takes the same payloads as sign_compact

dict and bytes payloads raised AttributeError.
---
 src/jwkest/jws.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/jwkest/jws.py b/src/jwkest/jws.py
index c92e02b..acdd585 100644
--- a/src/jwkest/jws.py
+++ b/src/jwkest/jws.py
@@ -27,7 +27,6 @@ from jwkest import b64d
 from jwkest import as_unicode
 from jwkest import WrongNumberOfParts
 from jwkest import b64d_enc_dec
-from jwkest import b64e_enc_dec
 from jwkest import b64e
 from jwkest import constant_time_compare
 from jwkest import safe_str_cmp
@@ -613,7 +612,7 @@ class JWS(JWx):
 
             return signature_entry
 
-        res = {"payload": b64e_enc_dec(self.msg, "utf-8", "ascii")}
+        res = {"payload": b64encode_item(self.msg).decode("ascii")}
 
         if headers is None:
             headers = [(dict(alg=self.alg), None)]
-- 
2.43.0


From b29173dc2bc51e7a451de099935178b28e22e527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:41 +0000
Subject: [PATCH 35/75] fix: numbers can be payloads and floats can be part of
 one

A JWT with, say, a non-integer exp could not be made.
---
 src/jwkest/jwt.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/jwkest/jwt.py b/src/jwkest/jwt.py
index 3240cf8..8bae7e9 100644
--- a/src/jwkest/jwt.py
+++ b/src/jwkest/jwt.py
@@ -21,7 +21,7 @@ def split_token(token):
 def b2s_conv(item):
     if isinstance(item, bytes):
         return item.decode("utf-8")
-    elif item is None or isinstance(item, (six.string_types, int, bool)):
+    elif item is None or isinstance(item, six.string_types + (int, float, bool)):
         return item
     elif isinstance(item, list):
         return [b2s_conv(i) for i in item]
@@ -36,8 +36,6 @@ def b64encode_item(item):
         return b64e(item)
     elif isinstance(item, str):
         return b64e(item.encode("utf-8"))
-    elif isinstance(item, int):
-        return b64e(item)
     else:
         return b64e(json.dumps(b2s_conv(item),
                                separators=(",", ":")).encode("utf-8"))
-- 
2.43.0


From 511374cb70e91947fb453a3d49aa913ad0d76ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:07 +0000
Subject: [PATCH 36/75] fix: reject tokens with critical extensions, none are
 implemented

crit was ignored when verifying and decrypting, and a crit argument ended
up as x5c.
---
 src/jwkest/jwe.py |  4 ++++
 src/jwkest/jws.py | 11 ++++++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index 4b2407a..84026f2 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -496,6 +496,7 @@ class JWE_SYM(JWe):
 
         if len(jwe) != 5:
             raise WrongNumberOfParts(len(jwe))
+        self.check_crit(jwe.headers)
 
         if not cek:
             jek = jwe.encrypted_key()
@@ -575,6 +576,7 @@ class JWE_RSA(JWe):
 
         if len(jwe) != 5:
             raise WrongNumberOfParts(len(jwe))
+        self.check_crit(jwe.headers)
 
         self.jwt = jwe.encrypted_key()
         jek = jwe.encrypted_key()
@@ -678,6 +680,7 @@ class JWE_EC(JWe):
 
         if len(token) != 5:
             raise WrongNumberOfParts(len(token))
+        self.check_crit(token.headers)
 
         self.headers = token.headers
         self.iv = token.initialization_vector()
@@ -888,6 +891,7 @@ class JWE(JWx):
             jwe = JWEnc().unpack(token)
             if len(jwe) != 5:
                 raise WrongNumberOfParts(len(jwe))
+            self.check_crit(jwe.headers)
             # header, ek, eiv, ctxt, tag = token.split(b".")
             # self.parse_header(header)
         elif self.jwt:
diff --git a/src/jwkest/jws.py b/src/jwkest/jws.py
index acdd585..3396e7a 100644
--- a/src/jwkest/jws.py
+++ b/src/jwkest/jws.py
@@ -291,7 +291,7 @@ class JWx(object):
                     else:
                         self._dict["jwk"] = _val
                 elif key == "x5c" or key == "crit":
-                    self._dict["x5c"] = _val or []
+                    self._dict[key] = _val or []
                 else:
                     self._dict[key] = _val
 
@@ -434,6 +434,13 @@ class JWx(object):
 
         return alg
 
+    @staticmethod
+    def check_crit(headers):
+        # RFC 7515 section 4.1.11, there are no extensions implemented here
+        if "crit" in headers:
+            raise HeaderError(
+                "Critical extensions not supported: %s" % (headers["crit"],))
+
     def _decode(self, payload):
         _msg = b64d(bytes(payload))
         if "cty" in self:
@@ -529,6 +536,8 @@ class JWS(JWx):
         if len(jwt) != 3:
             raise WrongNumberOfParts(len(jwt))
 
+        self.check_crit(jwt.headers)
+
         self.jwt = jwt
 
         try:
-- 
2.43.0


From ba016269b9e6cd56463eb7d72eda654d3ebb4bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:18 +0000
Subject: [PATCH 37/75] fix: verify_json doesn't mix the token's headers with
 the caller's settings

verify_json overwrote the instance with the headers of the last signature.
Keys embedded in a token were used although the caller supplied an empty
set of keys or a jwk of its own, and the kid or jwk of one token took part in
the verification of the next.
---
 src/jwkest/jws.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/jwkest/jws.py b/src/jwkest/jws.py
index 3396e7a..10d6a84 100644
--- a/src/jwkest/jws.py
+++ b/src/jwkest/jws.py
@@ -667,6 +667,7 @@ class JWS(JWx):
             raise FormatError("Missing signature")
 
         _claim = None
+        _verified = []
         for _sign in _signs:
             protected_headers = _sign.get("protected", "")
             token = b".".join([protected_headers.encode(), _payload.encode(),
@@ -676,14 +677,33 @@ class JWS(JWx):
             all_headers = unprotected_headers.copy()
             all_headers.update(
                 json.loads(b64d_enc_dec(protected_headers) or {}))
-            self.__init__(**all_headers)
+            self.check_crit(all_headers)
 
-            _tmp = self.verify_compact(token, keys, allow_none, sigalg)
+            _trusted = [p for p in ["jwk", "jku", "x5u"] if p in self]
+            if keys is None and not _trusted:
+                # The keys in the token's headers are all there is
+                _jws = self.__class__(**all_headers)
+            else:
+                _jws = self.__class__()
+                for param in _trusted:
+                    _jws[param] = self[param]
+                if "kid" in all_headers:
+                    _jws["kid"] = all_headers["kid"]
+
+            _tmp = _jws.verify_compact(token, keys, allow_none, sigalg)
+            _verified.append(_jws)
             if _claim is None:
                 _claim = _tmp
             else:
                 assert _claim == _tmp
 
+        _jws = _verified[-1]
+        self.msg, self.jwt = _jws.msg, _jws.jwt
+        if "alg" in _jws:
+            self["alg"] = _jws["alg"]
+        if "key" in _jws.__dict__:
+            self.key = _jws.key
+
         return _claim
 
     def is_jws(self, jws):
-- 
2.43.0


From 457a93969bdc1bfde1ac776180fccdabc4912a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:54 +0000
Subject: [PATCH 38/75] fix: only pick EC keys on the curve that goes with the
 algorithm

Signing with ES256 and a P-384 key gave a token nobody can verify.
---
 src/jwkest/jws.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/jwkest/jws.py b/src/jwkest/jws.py
index 10d6a84..2bbaab9 100644
--- a/src/jwkest/jws.py
+++ b/src/jwkest/jws.py
@@ -209,6 +209,10 @@ SIGNER_ALGS = {
 }
 
 
+# The only curve that can be used with a ECDSA algorithm
+ES_CURVE = {"ES256": "P-256", "ES384": "P-384", "ES512": "P-521"}
+
+
 def alg2keytype(alg):
     if not alg or alg.lower() == "none":
         return "none"
@@ -414,6 +418,10 @@ class JWx(object):
             if alg and _key.alg and _key.alg != alg:
                 continue
 
+            if alg in ES_CURVE and as_unicode(_key.crv) not in [
+                    "", ES_CURVE[alg]]:
+                continue
+
             pkey.append(_key)
 
         return pkey
-- 
2.43.0


From 209a5bb5a9dd8ec618efe3e8b0a38f8572fa7343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:33 +0000
Subject: [PATCH 39/75] fix: PBKDF2 works with Python 3

Its own self-test failed: it mixed text and bytes everywhere.
---
 src/jwkest/PBKDF2.py | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/src/jwkest/PBKDF2.py b/src/jwkest/PBKDF2.py
index 7af531b..28ec813 100755
--- a/src/jwkest/PBKDF2.py
+++ b/src/jwkest/PBKDF2.py
@@ -75,8 +75,9 @@ from builtins import zip
 from builtins import range
 from builtins import object
 
-import string
+import six
 from struct import pack
+from base64 import b64encode as _b64encode
 from binascii import b2a_hex
 from random import randint
 
@@ -90,11 +91,11 @@ except ImportError:
     import sha as SHA1
 
 def strxor(a, b):
-    return "".join([chr(ord(x) ^ ord(y)) for (x, y) in zip(a, b)])
+    return bytes(bytearray([x ^ y for (x, y) in zip(bytearray(a),
+                                                    bytearray(b))]))
 
 def b64encode(data, chars="+/"):
-    tt = string.maketrans("+/", chars)
-    return data.encode('base64').replace("\n", "").translate(tt)
+    return _b64encode(data, chars.encode("ascii")).decode("ascii")
 
 class PBKDF2(object):
     """PBKDF2.py : PKCS#5 v2.0 Password-Based Key Derivation
@@ -143,7 +144,7 @@ class PBKDF2(object):
             block = self.__f(i)
             blocks.append(block)
             size += len(block)
-        buf = "".join(blocks)
+        buf = b"".join(blocks)
         retval = buf[:bytes]
         self.__buf = buf[bytes:]
         self.__blockNum = i
@@ -164,20 +165,20 @@ class PBKDF2(object):
 
         Note that len(obj.hexread(n)) == 2*n.
         """
-        return b2a_hex(self.read(octets))
+        return b2a_hex(self.read(octets)).decode("ascii")
 
     def _setup(self, passphrase, salt, iterations, prf):
         # Sanity checks:
         
         # passphrase and salt must be str or unicode (in the latter
         # case, we convert to UTF-8)
-        if isinstance(passphrase, str):
+        if isinstance(passphrase, six.text_type):
             passphrase = passphrase.encode("UTF-8")
-        if not isinstance(passphrase, str):
+        if not isinstance(passphrase, bytes):
             raise TypeError("passphrase must be str or unicode")
-        if isinstance(salt, str):
+        if isinstance(salt, six.text_type):
             salt = salt.encode("UTF-8")
-        if not isinstance(salt, str):
+        if not isinstance(salt, bytes):
             raise TypeError("salt must be str or unicode")
 
         # iterations must be an integer >= 1
@@ -195,7 +196,7 @@ class PBKDF2(object):
         self.__iterations = iterations
         self.__prf = prf
         self.__blockNum = 0
-        self.__buf = ""
+        self.__buf = b""
         self.closed = False
     
     def close(self):
@@ -223,15 +224,15 @@ def crypt(word, salt=None, iterations=None):
         salt = _makesalt()
 
     # salt must be a string or the us-ascii subset of unicode
-    if isinstance(salt, str):
-        salt = salt.encode("us-ascii")
-    if not isinstance(salt, str):
+    if isinstance(salt, bytes):
+        salt = salt.decode("us-ascii")
+    if not isinstance(salt, six.text_type):
         raise TypeError("salt must be a string")
 
     # word must be a string or unicode (in the latter case, we convert to UTF-8)
-    if isinstance(word, str):
+    if isinstance(word, six.text_type):
         word = word.encode("UTF-8")
-    if not isinstance(word, str):
+    if not isinstance(word, bytes):
         raise TypeError("word must be a string or unicode")
 
     # Try to extract the real salt and iteration count from the salt
@@ -271,7 +272,7 @@ def _makesalt():
     
     This function is not suitable for generating cryptographic secrets.
     """
-    binarysalt = "".join([pack("@H", randint(0, 0xffff)) for i in range(3)])
+    binarysalt = b"".join([pack("@H", randint(0, 0xffff)) for i in range(3)])
     return b64encode(binarysalt, "./")
 
 def test_pbkdf2():
-- 
2.43.0


From eb9e77d9b80713d8bbf6bca774414b59030721aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:06 +0000
Subject: [PATCH 40/75] fix: gen_symkey draws keys from the system's CSPRNG

---
 script/gen_symkey.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/script/gen_symkey.py b/script/gen_symkey.py
index 4a2cbb4..ebf914e 100755
--- a/script/gen_symkey.py
+++ b/script/gen_symkey.py
@@ -11,7 +11,7 @@ __author__ = 'regu0004'
 
 
 def rndstr(size=6, chars=string.ascii_uppercase + string.digits):
-    return ''.join(random.choice(chars) for _ in range(size))
+    return ''.join(random.SystemRandom().choice(chars) for _ in range(size))
 
 
 def main():
-- 
2.43.0


From 3f6c009c8700a2672e1d0bc992d930c4f73708cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:15 +0000
Subject: [PATCH 41/75] fix: jwkutil can decrypt

JWE.decrypt returns the message, not a tuple, and it was never printed.
---
 script/jwkutil.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/script/jwkutil.py b/script/jwkutil.py
index c428686..48757e1 100755
--- a/script/jwkutil.py
+++ b/script/jwkutil.py
@@ -143,12 +143,14 @@ if __name__ == "__main__":
         print(encrypt(message, keys, args.encalg, args.encenc))
     else:
         if args.decrypt:
-            _msg, _res = decrypt(message, keys)
+            _msg = decrypt(message, keys)
         else:
             _msg = message
 
         if args.verify:
             print(verify(_msg, keys))
+        elif args.decrypt:
+            print(_msg.decode("utf-8"))
 
 # -e -J edmund.jwks -f text.json -E "A128CBC-HS256" -A "RSA1_5" -l ju.log
 # -d -r op.key -f edmund.jwe -i a0
-- 
2.43.0


From abae90c9281b300331f46d3d8be59bf1f1769812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:23 +0000
Subject: [PATCH 42/75] fix: jwk_create and jwk_export write the JWK of the
 public key

Neither ran with Python 3, jwk_export not at all, and what jwk_create called
the JWK of the public key had the private parts in it.
---
 script/jwk_create.py | 7 +++----
 script/jwk_export.py | 7 ++++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/script/jwk_create.py b/script/jwk_create.py
index bd71280..afd0747 100755
--- a/script/jwk_create.py
+++ b/script/jwk_create.py
@@ -14,16 +14,15 @@ def create_and_store_rsa_key_pair(name="pyoidc", path=".", size=1024):
     keyfile = os.path.join(path, name)
 
     f = open("%s.key" % keyfile, "w")
-    f.write(key.exportKey("PEM"))
+    f.write(key.exportKey("PEM").decode("ascii"))
     f.close()
     f = open("%s.pub" % keyfile, "w")
-    f.write(key.publickey().exportKey("PEM"))
+    f.write(key.publickey().exportKey("PEM").decode("ascii"))
     f.close()
 
     rsa_key = RSAKey(key=key)
-    rsa_key.serialize()
     # This will create JWK from the public RSA key
-    jwk_spec = json.dumps(rsa_key.to_dict(), "enc")
+    jwk_spec = json.dumps(rsa_key.serialize())
     f = open(keyfile + ".jwk", "w")
     f.write(str(jwk_spec))
     f.close()
diff --git a/script/jwk_export.py b/script/jwk_export.py
index 8b49bb6..94ed40e 100755
--- a/script/jwk_export.py
+++ b/script/jwk_export.py
@@ -3,7 +3,7 @@ import os
 import argparse
 from jwkest.jwk import RSAKey
 from jwkest.jwk import rsa_load
-from jwkest.jwk import dump_jwks
+from jwkest.jwk import KEYS
 
 __author__ = 'rolandh'
 
@@ -16,10 +16,11 @@ parser.add_argument('-k', dest="key", help="Key file")
 
 args = parser.parse_args()
 
-rsa_key = RSAKey(key=rsa_load(args.key))
+keys = KEYS()
+keys.append(RSAKey(key=rsa_load(args.key)))
 
 keyfile = os.path.join(args.path, args.name)
 
 f = open(keyfile + ".jwk", "w")
-f.write(dump_jwks([rsa_key]))
+f.write(keys.dump_jwks())
 f.close()
-- 
2.43.0


From 1a3196770531696de7ee1dd9666b7435d6a6d856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:44 +0000
Subject: [PATCH 43/75] fix: keys from a jku or x5u given to JWS or JWE can be
 used

They came as a dictionary, everything that picks a key expects a list of Key
instances and raised AttributeError.
---
 src/jwkest/jws.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/jwkest/jws.py b/src/jwkest/jws.py
index 2bbaab9..21ff78b 100644
--- a/src/jwkest/jws.py
+++ b/src/jwkest/jws.py
@@ -40,6 +40,7 @@ from jwkest.ecc import P521
 from jwkest.jwk import load_x509_cert
 from jwkest.jwk import KEYS
 from jwkest.jwk import HeaderError
+from jwkest.jwk import RSAKey
 from jwkest.jwk import sha256_digest
 from jwkest.jwk import sha384_digest
 from jwkest.jwk import sha512_digest
@@ -352,15 +353,16 @@ class JWx(object):
         elif "jku" in self:
             keys = KEYS()
             keys.load_from_url(self["jku"])
-            return keys.as_dict()
+            return keys.keys()
         elif "x5u" in self:
             try:
-                return {"rsa": [load_x509_cert(self["x5u"], {})]}
+                return [RSAKey(key=key) for _, key in
+                        load_x509_cert(self["x5u"], {})]
             except Exception:
                 # ca_chain = load_x509_cert_chain(self["x5u"])
                 pass
 
-        return {}
+        return []
 
     def alg2keytype(self, alg):
         return alg2keytype(alg)
-- 
2.43.0


From 309f098de37780eb7157a96710aa1e361ff9987f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:05 +0000
Subject: [PATCH 44/75] fix: a compressed point can be uncompressed

y_from_x always returned None. All NIST primes here are congruent 3 mod 4.
---
 src/jwkest/elliptic.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/jwkest/elliptic.py b/src/jwkest/elliptic.py
index 4c109db..0b20421 100755
--- a/src/jwkest/elliptic.py
+++ b/src/jwkest/elliptic.py
@@ -346,6 +346,12 @@ def y_from_x(x, p, q, n, sign):
 
     # optimized form of (x**3 - p*x - q) % n
     a = (((x * x) % n - p) * x - q) % n
+    if n % 4 != 3:
+        raise ValueError("Only implemented for primes congruent 3 modulo 4")
+    y = pow(a, (n + 1) // 4, n)
+    if (y * y) % n != a:
+        raise ValueError("There is no point with that x coordinate")
+    return y if y % 2 == sign else (n - y) % n
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 108bd37d60db5cf9862baf0b01958c2231a9d310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:37 +0000
Subject: [PATCH 45/75] fix: sign_compact does not change the headers the
 caller passed

---
 src/jwkest/jws.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jwkest/jws.py b/src/jwkest/jws.py
index 21ff78b..661cfc2 100644
--- a/src/jwkest/jws.py
+++ b/src/jwkest/jws.py
@@ -471,7 +471,7 @@ class JWS(JWx):
         else:
             keys = self.pick_keys(self._get_keys(), use=use, alg=_alg)
 
-        xargs = protected or {}
+        xargs = dict(protected or {})
         xargs["alg"] = _alg
 
         if keys:
-- 
2.43.0


From e6d1c7ecd5ad65feb14489f1a5214d9f2f1b4a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:45 +0000
Subject: [PATCH 46/75] fix: verifying a token does not fix the algorithm for
 the next one

---
 src/jwkest/jws.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/jwkest/jws.py b/src/jwkest/jws.py
index 661cfc2..45193b4 100644
--- a/src/jwkest/jws.py
+++ b/src/jwkest/jws.py
@@ -570,12 +570,13 @@ class JWS(JWx):
             raise SignerAlgError("Expected {0} got {1}".format(
                 sigalg, jwt.headers["alg"]))
 
-        self["alg"] = _alg
+        if not _alg:
+            raise NoSuitableSigningKeys("No key for algorithm: %s" % _alg)
 
         if keys:
-            _keys = self.pick_keys(keys)
+            _keys = self.pick_keys(keys, alg=_alg)
         else:
-            _keys = self.pick_keys(self._get_keys())
+            _keys = self.pick_keys(self._get_keys(), alg=_alg)
 
         if not _keys:
             if "kid" in self:
-- 
2.43.0


From 0f794bcd157f84c4e2c5ae4b7008c755152f69b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:07 +0000
Subject: [PATCH 47/75] fix: signing with a key's algorithm does not fix it for
 the next time

---
 src/jwkest/jws.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jwkest/jws.py b/src/jwkest/jws.py
index 45193b4..ffbe699 100644
--- a/src/jwkest/jws.py
+++ b/src/jwkest/jws.py
@@ -437,10 +437,10 @@ class JWx(object):
             if keys is not None and len(keys) == 1:
                 key = next(iter(keys))  # first element from either list or dict
                 if key.alg:
-                    self["alg"] = alg = key.alg
+                    alg = key.alg
 
         if not alg:
-            self["alg"] = alg = "none"
+            alg = "none"
 
         return alg
 
-- 
2.43.0


From 2d01dd0a5d242844fe995acd8e1851342c7f8b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:21 +0000
Subject: [PATCH 48/75] fix: the kid of a verified token does not limit the
 keys to sign with

---
 src/jwkest/jws.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/jwkest/jws.py b/src/jwkest/jws.py
index ffbe699..0f76dab 100644
--- a/src/jwkest/jws.py
+++ b/src/jwkest/jws.py
@@ -393,10 +393,13 @@ class JWx(object):
         try:
             _kid = self["kid"]
         except KeyError:
-            try:
-                _kid = self.jwt.headers["kid"]
-            except (AttributeError, KeyError):
-                _kid = None
+            _kid = None
+            # A token received earlier has no say in what to sign with
+            if use != "sig":
+                try:
+                    _kid = self.jwt.headers["kid"]
+                except (AttributeError, KeyError):
+                    pass
 
         logger.debug("Picking key based on alg={0}, kid={1} and use={2}".format(
             alg, _kid, use))
-- 
2.43.0


From da4c63872a5e2a612f7418b1cf22c449250ed29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:27 +0000
Subject: [PATCH 49/75] fix: verify_json does not fix the algorithm for the
 next operation

---
 src/jwkest/jws.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/jwkest/jws.py b/src/jwkest/jws.py
index 0f76dab..7cf288b 100644
--- a/src/jwkest/jws.py
+++ b/src/jwkest/jws.py
@@ -713,8 +713,6 @@ class JWS(JWx):
 
         _jws = _verified[-1]
         self.msg, self.jwt = _jws.msg, _jws.jwt
-        if "alg" in _jws:
-            self["alg"] = _jws["alg"]
         if "key" in _jws.__dict__:
             self.key = _jws.key
 
-- 
2.43.0


From 155b2c8da21d3cd6a81d264c6c176ad994b86644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:18 +0000
Subject: [PATCH 50/75] fix: ECDH-ES key wrapping doesn't use the CEK of
 another message

---
 src/jwkest/jwe.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index 84026f2..21ebcab 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -847,8 +847,10 @@ class JWE(JWx):
                 raise NoSuitableECDHKey(_alg)
 
             encrypter = JWE_EC(**self._dict)
+            # Never use the CEK of another message again
+            _args = dict([(k, v) for k, v in self._dict.items() if k != "cek"])
             cek, encrypted_key, iv, params, eprivk = encrypter.enc_setup(
-                self.msg, self._dict, key=keys[0], **self._dict)
+                self.msg, self._dict, key=keys[0], **_args)
             kwargs["encrypted_key"] = encrypted_key
             kwargs["params"] = params
         else:
-- 
2.43.0


From 2cc57fc5b50be16e747e960fef5b1b6107078819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:52 +0000
Subject: [PATCH 51/75] fix: malformed padding in AES-CBC is refused

---
 src/jwkest/extra.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jwkest/extra.py b/src/jwkest/extra.py
index bfa2eab..40b8de5 100644
--- a/src/jwkest/extra.py
+++ b/src/jwkest/extra.py
@@ -51,9 +51,9 @@ def pkcs5trim(x):
     :rtype: bytes
     """
     n = unpack('B', x[-1:])[0]
-    # Should never have more than 16 bytes of padding
-    # ... since we're only using this with AES
-    if n > 16:
+    # Between 1 and 16 bytes of padding, since we're only using this with AES,
+    # and all of them hold that number
+    if not 1 <= n <= 16 or x[-n:] != pack('B', n) * n:
         raise Exception("Mal-formed PKCS#5 padding")
     return x[:-n]
 
-- 
2.43.0


From ab0139a3020d3e3783f64f7c5cedc1a11ebdacd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:41 +0000
Subject: [PATCH 52/75] fix: ECDSA signing draws another nonce if r or s is 0

---
 src/jwkest/ecc.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/jwkest/ecc.py b/src/jwkest/ecc.py
index f9438c4..b7df6db 100755
--- a/src/jwkest/ecc.py
+++ b/src/jwkest/ecc.py
@@ -93,9 +93,8 @@ class NISTEllipticCurve(object):
             kinv = inv(k, self.N)
             kg = mulp(self.a, self.b, self.p, self.G, k)
             r = kg[0] % self.N
-            if r == 0:
-                continue
             s = (kinv * (h + r * priv)) % self.N
+            k = None  # if r or s is 0 another nonce is needed
         return r, s
 
     # ECDSA (adapted from ecdsa.py)
-- 
2.43.0


From 74286504ad14031486e4d12a5f4992ae84826031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:43 +0000
Subject: [PATCH 53/75] fix: base64url_to_long refuses everything that isn't
 base64url

---
 src/jwkest/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/jwkest/__init__.py b/src/jwkest/__init__.py
index c46963d..4b23b81 100644
--- a/src/jwkest/__init__.py
+++ b/src/jwkest/__init__.py
@@ -130,8 +130,9 @@ def base64url_to_long(data):
     data = as_bytes(data)
     _d = base64.urlsafe_b64decode(bytes(data) + b'==')
     # verify that it's base64url encoded and not just base64
-    # that is no '+' and '/' characters and not trailing "="s.
-    if [e for e in [b'+', b'/', b'='] if e in data]:
+    # that is no '+' and '/' characters, not trailing "="s and none of the
+    # characters that the decoder skips.
+    if not _b64_re.match(data):
         raise ValueError("Not base64url encoded")
     return intarr2long(struct.unpack('%sB' % len(_d), _d))
 
-- 
2.43.0


From 65f966b0ab727420e76e1be352b8ecff05d350b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:15 +0000
Subject: [PATCH 54/75] fix: EC keys made by keyrep() equal the same keys made
 otherwise

---
 src/jwkest/jwk.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index d9cb701..52f4d92 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -599,6 +599,7 @@ class ECKey(Key):
         except ValueError as err:
             raise DeSerializationNotPossible("%s" % err)
 
+        self.crv = as_unicode(self.crv)
         self.curve = NISTEllipticCurve.by_name(self.crv)
         if not self.curve.on_curve((self.x, self.y)):
             raise DeSerializationNotPossible(
-- 
2.43.0


From a4ba7471e159b7761550942e461ce968d5a7dced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:21 +0000
Subject: [PATCH 55/75] fix: x5t and x5u of a key are text however it was made

---
 src/jwkest/jwk.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index 52f4d92..f077c82 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -271,8 +271,8 @@ class Key(object):
             self.kid = as_unicode(kid)
 
         self.x5c = x5c or []
-        self.x5t = x5t
-        self.x5u = x5u
+        self.x5t = as_unicode(x5t)
+        self.x5u = as_unicode(x5u)
         self.inactive_since = 0
         self._hash = None
 
-- 
2.43.0


From 1317b85d2b4e8825faa236bcbc882880ed9434a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:56 +0000
Subject: [PATCH 56/75] fix: loading an RSA key replaces the private part of
 the key before

---
 src/jwkest/jwk.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index f077c82..6f40dbf 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -509,6 +509,9 @@ class RSAKey(Key):
 
         self.n = self.key.n
         self.e = self.key.e
+        # forget what belongs to a key that was here before
+        for param in ["d", "p", "q", "dp", "dq", "di", "qi"]:
+            setattr(self, param, "")
         try:
             self.d = self.key.d
         except AttributeError:
-- 
2.43.0


From ae9eeb652e940dcdadf175086aed863f2b142280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:26 +0000
Subject: [PATCH 57/75] fix: key_from_jwk_dict keeps use and alg, and kid is
 optional

---
 src/jwkest/jwk.py | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index 6f40dbf..17674bc 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -204,33 +204,34 @@ def x509_rsa_load(txt):
 
 def key_from_jwk_dict(jwk_dict, private=True):
     """Load JWK from dictionary"""
+    common = dict([(m, jwk_dict[m]) for m in ['kid', 'use', 'alg']
+                   if m in jwk_dict])
     if jwk_dict['kty'] == 'EC':
         if private:
-            return ECKey(kid=jwk_dict['kid'],
-                         crv=jwk_dict['crv'],
+            return ECKey(crv=jwk_dict['crv'],
                          x=jwk_dict['x'],
                          y=jwk_dict['y'],
-                         d=jwk_dict['d'])
+                         d=jwk_dict['d'],
+                         **common)
         else:
-            return ECKey(kid=jwk_dict['kid'],
-                         crv=jwk_dict['crv'],
+            return ECKey(crv=jwk_dict['crv'],
                          x=jwk_dict['x'],
-                         y=jwk_dict['y'])
+                         y=jwk_dict['y'],
+                         **common)
     elif jwk_dict['kty'] == 'RSA':
         if private:
-            return RSAKey(kid=jwk_dict['kid'],
-                          n=jwk_dict['n'],
+            return RSAKey(n=jwk_dict['n'],
                           e=jwk_dict['e'],
                           d=jwk_dict['d'],
                           p=jwk_dict['p'],
-                          q=jwk_dict['q'])
+                          q=jwk_dict['q'],
+                          **common)
         else:
-            return RSAKey(kid=jwk_dict['kid'],
-                          n=jwk_dict['n'],
-                          e=jwk_dict['e'])
+            return RSAKey(n=jwk_dict['n'],
+                          e=jwk_dict['e'],
+                          **common)
     elif jwk_dict['kty'] == 'oct':
-        return SYMKey(kid=jwk_dict['kid'],
-                      k=jwk_dict['k'])
+        return SYMKey(k=jwk_dict['k'], **common)
     else:
         raise UnknownAlgorithm
 
-- 
2.43.0


From 00b98abf0cf5320ec57f666da540e679c1c89084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:25 +0000
Subject: [PATCH 58/75] fix: equal keys have equal hashes whatever was done
 with them before

A key that had been hashed kept its hash when another key was loaded
into it, and get_hash('SHA-512') changed the hash of the key object, so
that equal keys had different hashes.
---
 src/jwkest/jwk.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index 17674bc..edd5c81 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -391,9 +391,8 @@ class Key(object):
         self._hash = int(binascii.hexlify(_tp), 16)
 
     def __hash__(self):
-        if not self._hash:
-            self.get_hash()
-        return self._hash
+        # not what is in _hash, that may be of another key or hash function
+        return int(binascii.hexlify(self.thumbprint('SHA-256')), 16)
 
 
 def deser(val):
-- 
2.43.0


From 3607c3c774ab82d1e3e76eae0555c907c7d76093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:02 +0000
Subject: [PATCH 59/75] fix: no decision depends on assert statements

With python -O all keys of a kind were equal, the kid did not limit the
keys that were used, and everything with the right number of parts was
a JWS or JWE with known algorithms.
---
 src/jwkest/jwe.py | 22 ++++++++--------------
 src/jwkest/jwk.py | 21 +++++++++------------
 src/jwkest/jws.py | 40 +++++++++++++++++++---------------------
 3 files changed, 36 insertions(+), 47 deletions(-)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index 21ebcab..8c2f725 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -335,18 +335,14 @@ class JWEnc(JWT):
         if "typ" in self.headers and self.headers["typ"].lower() == "jwe":
             return True
 
-        try:
-            assert "alg" in self.headers and "enc" in self.headers
-        except AssertionError:
+        if not ("alg" in self.headers and "enc" in self.headers):
             return False
-        else:
-            for typ in ["alg", "enc"]:
-                try:
-                    assert self.headers[typ] in SUPPORTED[typ]
-                except AssertionError:
-                    logger.debug("Not supported %s algorithm: %s" % (
-                        typ, self.headers[typ]))
-                    return False
+
+        for typ in ["alg", "enc"]:
+            if self.headers[typ] not in SUPPORTED[typ]:
+                logger.debug("Not supported %s algorithm: %s" % (
+                    typ, self.headers[typ]))
+                return False
         return True
 
     def __len__(self):
@@ -597,9 +593,7 @@ class JWE_RSA(JWe):
 
         self["cek"] = cek
         enc = jwe.headers["enc"]
-        try:
-            assert enc in SUPPORTED["enc"]
-        except AssertionError:
+        if enc not in SUPPORTED["enc"]:
             raise NotSupportedAlgorithm(enc)
 
         msg = self._decrypt(enc, cek, jwe.ciphertext(),
diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index edd5c81..09172de 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -341,23 +341,20 @@ class Key(object):
                     return False
 
         if self.kid:
-            try:
-                assert isinstance(self.kid, six.string_types)
-            except AssertionError:
+            if not isinstance(self.kid, six.string_types):
                 raise HeaderError("kid of wrong value type")
         return True
 
     def __eq__(self, other):
-        try:
-            assert isinstance(other, Key)
-            assert set(self.__dict__.keys()) == set(other.__dict__.keys())
-
-            for key in self.public_members:
-                assert getattr(other, key) == getattr(self, key)
-        except AssertionError:
+        if not isinstance(other, Key):
             return False
-        else:
-            return True
+        if set(self.__dict__.keys()) != set(other.__dict__.keys()):
+            return False
+
+        for key in self.public_members:
+            if getattr(other, key) != getattr(self, key):
+                return False
+        return True
 
     def keys(self):
         return list(self.to_dict().keys())
diff --git a/src/jwkest/jws.py b/src/jwkest/jws.py
index 7cf288b..40cf3aa 100644
--- a/src/jwkest/jws.py
+++ b/src/jwkest/jws.py
@@ -337,9 +337,7 @@ class JWx(object):
             _header["jwk"] = extra["jwk"].serialize()
 
         if "kid" in self:
-            try:
-                assert isinstance(self["kid"], six.string_types)
-            except AssertionError:
+            if not isinstance(self["kid"], six.string_types):
                 raise HeaderError("kid of wrong value type")
 
         return _header
@@ -411,11 +409,10 @@ class JWx(object):
                     _key.kid, _key.use, _key.kty))
             if _kid:
                 try:
-                    assert _kid == _key.kid
+                    if _kid != _key.kid:
+                        continue
                 except (KeyError, AttributeError):
                     pass
-                except AssertionError:
-                    continue
 
             if use and _key.use and _key.use != use:
                 continue
@@ -708,8 +705,8 @@ class JWS(JWx):
             _verified.append(_jws)
             if _claim is None:
                 _claim = _tmp
-            else:
-                assert _claim == _tmp
+            elif _claim != _tmp:
+                raise FormatError("The signatures are not for the same payload")
 
         _jws = _verified[-1]
         self.msg, self.jwt = _jws.msg, _jws.jwt
@@ -758,22 +755,23 @@ class JWS(JWx):
         if len(jwt) != 3:
             return False
 
+        if not (isinstance(jwt.headers, dict) and "alg" in jwt.headers):
+            return False
+
+        if jwt.headers["alg"] is None:
+            jwt.headers["alg"] = "none"
+
         try:
-            assert isinstance(jwt.headers, dict) and "alg" in jwt.headers
-        except AssertionError:
+            known = jwt.headers["alg"] in SIGNER_ALGS
+        except TypeError:
+            known = False
+
+        if not known:
+            logger.debug("UnknownSignerAlg: %s" % jwt.headers["alg"])
             return False
-        else:
-            if jwt.headers["alg"] is None:
-                jwt.headers["alg"] = "none"
 
-            try:
-                assert jwt.headers["alg"] in SIGNER_ALGS
-            except (AssertionError, TypeError):
-                logger.debug("UnknownSignerAlg: %s" % jwt.headers["alg"])
-                return False
-            else:
-                self.jwt = jwt
-                return True
+        self.jwt = jwt
+        return True
 
 
 def factory(token):
-- 
2.43.0


From 9472b3d7b0dd0addc8686e887f6d5a92ff44faa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:27 +0000
Subject: [PATCH 60/75] fix: a JWKS from a URL is read as UTF-8

requests takes text without a charset for ISO-8859-1, or guesses, so that
key ids with other than ASCII characters were changed.
---
 src/jwkest/jwk.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index 09172de..b59bac5 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -857,7 +857,8 @@ class KEYS(object):
             kwargs['verify'] = True
         r = request("GET", url, allow_redirects=True, **kwargs)
         if r.status_code == 200:
-            return self.load_jwks(r.text)
+            # JSON is UTF-8 whatever the server says about text
+            return self.load_jwks(as_unicode(r.content))
         else:
             raise Exception("HTTP Get error: %s" % r.status_code)
 
-- 
2.43.0


From 567fcc065f74c102764a485c75fa9ffcb5074141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:54 +0000
Subject: [PATCH 61/75] fix: the key of a version 1 certificate can be
 extracted

Version 1 certificates don't have the version field, so that the public
key is not where it is in version 3 certificates: IndexError.
---
 src/jwkest/jwk.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index b59bac5..5e5fd64 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -115,7 +115,11 @@ def der2rsa(der):
     cert.decode(der)
     tbs_certificate = DerSequence()
     tbs_certificate.decode(cert[0])
-    subject_public_key_info = tbs_certificate[6]
+    # The version comes first, but is left out in version 1 certificates
+    if isinstance(tbs_certificate[0], six.integer_types):
+        subject_public_key_info = tbs_certificate[5]
+    else:
+        subject_public_key_info = tbs_certificate[6]
 
     # Initialize RSA key
     return RSA.importKey(subject_public_key_info)
-- 
2.43.0


From e58a3353176d306aa54b2caffee2a2b5f33abf6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:01 +0000
Subject: [PATCH 62/75] fix: der_cert2rsa reads certificates of any length

It removed the base64 padding, so that two of three certificates could
not be decoded.
---
 src/jwkest/jwk.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index 5e5fd64..e5b7712 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -144,6 +144,7 @@ def der_cert2rsa(der):
     @return: RSA instance
     """
     pem = re.sub(r'[^A-Za-z0-9+/]', '', der)
+    pem += '=' * (-len(pem) % 4)
     return der2rsa(base64.b64decode(pem))
 
 
-- 
2.43.0


From 2e23c1763f67e731d263480be16e634f1ffc7c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:33 +0000
Subject: [PATCH 63/75] fix: jwe.factory() returns None for everything that
 isn't a JWE

It raised an exception if the token was no JWT at all, like a JSON
serialized JWS, or if the typ header was not text.
---
 src/jwkest/jwe.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index 8c2f725..5b9173c 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -332,8 +332,11 @@ class JWEnc(JWT):
         if len(self) != 5 or not isinstance(self.headers, dict):
             return False
 
-        if "typ" in self.headers and self.headers["typ"].lower() == "jwe":
-            return True
+        try:
+            if self.headers["typ"].lower() == "jwe":
+                return True
+        except (KeyError, AttributeError):
+            pass
 
         if not ("alg" in self.headers and "enc" in self.headers):
             return False
@@ -950,7 +953,11 @@ class JWE(JWx):
 
 
 def factory(token):
-    _jwt = JWEnc().unpack(token)
+    try:
+        _jwt = JWEnc().unpack(token)
+    except Exception:   # not even a JWT
+        return None
+
     if _jwt.is_jwe():
         _jwe = JWE()
         _jwe.jwt = _jwt
-- 
2.43.0


From 863397bee3c7fda5bd987be643ef3c9e4d9119c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:28 +0000
Subject: [PATCH 64/75] fix: is_jws() answers False for JSON that is nested too
 deep

It raised RecursionError.
---
 src/jwkest/jws.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jwkest/jws.py b/src/jwkest/jws.py
index 40cf3aa..78cc582 100644
--- a/src/jwkest/jws.py
+++ b/src/jwkest/jws.py
@@ -731,7 +731,7 @@ class JWS(JWx):
                 json_jws = json.loads(jws)
 
             return self._is_json_serialized_jws(json_jws)
-        except ValueError:
+        except (ValueError, RuntimeError):  # RuntimeError: nested too deep
             return self._is_compact_jws(jws)
 
     def _is_json_serialized_jws(self, json_jws):
-- 
2.43.0


From 984e320899359e9bd3579f90a0863294c4d4b9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:55 +0000
Subject: [PATCH 65/75] fix: a JWT header that is nested too deep is bad syntax

JWT.unpack() raised RecursionError, which callers that handle malformed
tokens don't expect.
---
 src/jwkest/jwt.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/jwkest/jwt.py b/src/jwkest/jwt.py
index 8bae7e9..9bfdeb0 100644
--- a/src/jwkest/jwt.py
+++ b/src/jwkest/jwt.py
@@ -65,7 +65,10 @@ class JWT(object):
         part = split_token(token)
         self.b64part = part
         self.part = [b64d(p) for p in part]
-        self.headers = json.loads(self.part[0].decode())
+        try:
+            self.headers = json.loads(self.part[0].decode())
+        except RuntimeError:  # RecursionError
+            raise BadSyntax(part[0], "header nested too deep")
         return self
 
     def pack(self, parts=None, headers=None):
-- 
2.43.0


From aac900a4e1a7b9cfc6df7400e74ad951ab678e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:11 +0000
Subject: [PATCH 66/75] fix: get_hash returns its own result when threads share
 the key

get_hash() stored the hash in the key and then returned what the key held.
If another thread asked the same key for the hash with another hash function
in between, it got that one.
---
 src/jwkest/jwk.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index e5b7712..b09ccca 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -384,8 +384,10 @@ class Key(object):
     def get_hash(self, hash_function=None):
         if not hash_function:
             hash_function = 'SHA-256'
-        self._hash = int(binascii.hexlify(self.thumbprint(hash_function)), 16)
-        return self._hash
+        _hash = int(binascii.hexlify(self.thumbprint(hash_function)), 16)
+        self._hash = _hash
+        # not self._hash, another thread may have replaced that
+        return _hash
 
     def add_kid(self):
         _tp = self.thumbprint('SHA-256')
-- 
2.43.0


From 56f612a7e38b69d49fd77d898c296b99d29aaea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:25 +0000
Subject: [PATCH 67/75] fix: jwkutil -s without an algorithm doesn't print an
 unsigned token

'jwkutil.py -s -k secret message' printed a token with alg=none, even if the
one key (-j) was a JWK with an alg. Now the alg of the key is used and
without any the script fails. '-a none' still makes an unsigned token.
---
 script/jwkutil.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/script/jwkutil.py b/script/jwkutil.py
index 48757e1..c370aa0 100755
--- a/script/jwkutil.py
+++ b/script/jwkutil.py
@@ -135,6 +135,12 @@ if __name__ == "__main__":
         message = args.message
 
     if args.sign:
+        if not args.alg:
+            # an unsigned token only when asked for with '-a none'
+            if len(keys) == 1 and keys[0].alg:
+                args.alg = keys[0].alg
+            else:
+                parser.error("Signing needs an algorithm")
         _msg = sign(message, keys, args.alg, args.msgtype)
         if args.encrypt:
             _msg = encrypt(_msg, keys, args.encalg, args.encenc)
-- 
2.43.0


From 07ce6f49cf39db7f4d3c780f5cac9fa0c9270a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:33 +0000
Subject: [PATCH 68/75] fix: jwenc and jwdecrypt fail with an exit status

Without a key, or with an algorithm that isn't supported, they printed a
message (jwdecrypt on stdout, where the plaintext goes) and exited with 0.
---
 script/jwdecrypt.py |  5 +++--
 script/jwenc.py     | 16 ++++++++--------
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/script/jwdecrypt.py b/script/jwdecrypt.py
index 499bec1..7c07c05 100755
--- a/script/jwdecrypt.py
+++ b/script/jwdecrypt.py
@@ -1,4 +1,5 @@
 #!/usr/bin/env python
+from __future__ import print_function
 import sys
 
 __author__ = 'rohe0002'
@@ -65,8 +66,8 @@ if __name__ == "__main__":
         rsa_key.serialize()
         keys = [rsa_key]
     else:
-        print("Needs encryption key")
-        exit()
+        print("Needs encryption key", file=sys.stderr)
+        sys.exit(1)
 
     if args.file:
         msg = open(args.file).read()
diff --git a/script/jwenc.py b/script/jwenc.py
index 5235258..1d8acc5 100755
--- a/script/jwenc.py
+++ b/script/jwenc.py
@@ -83,22 +83,22 @@ if __name__ == "__main__":
         keys = [_key]
     else:
         print("Needs encryption key", file=sys.stderr)
-        exit()
+        sys.exit(1)
 
     if not args.enc or not args.alg:
         print("There are no default encryption methods", file=sys.stderr)
-        exit()
+        sys.exit(1)
 
     if args.enc not in SUPPORTED["enc"]:
-        print("Encryption method %s not supported", args.enc, file=sys.stderr)
-        print("Methods supported: %s", SUPPORTED["enc"], file=sys.stderr)
-        exit()
+        print("Encryption method %s not supported" % args.enc, file=sys.stderr)
+        print("Methods supported: %s" % SUPPORTED["enc"], file=sys.stderr)
+        sys.exit(1)
 
     if args.alg not in SUPPORTED["alg"]:
-        print("Encryption algorithm %s not supported", args.alg,
+        print("Encryption algorithm %s not supported" % args.alg,
               file=sys.stderr)
-        print("Algorithms supported: %s", SUPPORTED["alg"], file=sys.stderr)
-        exit()
+        print("Algorithms supported: %s" % SUPPORTED["alg"], file=sys.stderr)
+        sys.exit(1)
 
     if args.file:
         message = open(args.file).read()
-- 
2.43.0


From cbba16673ae604135a537efd7e60869f703ba2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:41 +0000
Subject: [PATCH 69/75] fix: jwdecrypt prints the message, not the repr of its
 octets

The message is text, as jwenc can only encrypt text, but what was printed
with Python 3 was b'...' with escapes in it.
---
 script/jwdecrypt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/script/jwdecrypt.py b/script/jwdecrypt.py
index 7c07c05..fcc47f8 100755
--- a/script/jwdecrypt.py
+++ b/script/jwdecrypt.py
@@ -76,4 +76,4 @@ if __name__ == "__main__":
         msg = args.message
 
     jwe = JWE()
-    print(jwe.decrypt(msg, keys))
+    print(jwe.decrypt(msg, keys).decode("utf-8"))
-- 
2.43.0


From 572587f53029a2a3e1b24a8a28b09f988a324499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:49 +0000
Subject: [PATCH 70/75] fix: jwenc -X can be used

The arguments of load_x509_cert were wrong and of the 2-tuples it returns the
type was taken for the key.
---
 script/jwenc.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/script/jwenc.py b/script/jwenc.py
index 1d8acc5..da2ec77 100755
--- a/script/jwenc.py
+++ b/script/jwenc.py
@@ -68,8 +68,7 @@ if __name__ == "__main__":
         keys = load_jwks(open(args.jwk_file).read())
     elif args.x509_url:
         # load_x509_cert returns list of 2-tuples
-        keys = [RSAKey(key=x) for x, y in load_x509_cert(lrequest,
-                                                         args.x509_url)]
+        keys = [RSAKey(key=y) for x, y in load_x509_cert(args.x509_url, {})]
         for key in keys:
             key.serialize()
     elif args.x509_file:
-- 
2.43.0


From 9cba8dafe6d41e332022727b75cbca9d8f59f84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:50 +0000
Subject: [PATCH 71/75] fix: key_eq can compare RSA keys

---
 src/jwkest/jwk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index b09ccca..2665343 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -193,7 +193,7 @@ def key_eq(key1, key2):
     if type(key1) == type(key2):
         if isinstance(key1, str):
             return key1 == key2
-        elif isinstance(key1, RSA):
+        elif isinstance(key1, RsaKey):
             return rsa_eq(key1, key2)
 
     return False
-- 
2.43.0


From e7e666019260a940bf99f0027ac75375c1eb7063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:28 +0000
Subject: [PATCH 72/75] fix: AES-GCM needs an IV of 96 bits

---
 src/jwkest/jwe.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index 5b9173c..fcbf637 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -392,6 +392,8 @@ class JWe(JWx):
         if enc_alg in ["A192GCM", "A128GCM", "A256GCM"]:
             if len(key) != ENCALGLEN1[enc_alg]:
                 raise ParameterError("Wrong key length for %s" % enc_alg)
+            if len(iv) != 12:
+                raise ParameterError("Wrong IV length for %s" % enc_alg)
             gcm = AES_GCM(key)
             ctxt, tag = gcm.encrypt(bytes_to_long(iv), msg, auth_data)
             tag = long_to_bytes(tag, 16)
-- 
2.43.0


From c2634f8196b618485fa776644b7b2f2586dee4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:18 +0000
Subject: [PATCH 73/75] fix: an ephemeral key can be given as a JWK, and has to
 fit the key

---
 src/jwkest/jwe.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index fcbf637..3b9f2d1 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -637,7 +637,10 @@ class JWE_EC(JWe):
         curve = NISTEllipticCurve.by_name(key.crv)
         if "epk" in kwargs:
             epk = kwargs["epk"] if isinstance(kwargs["epk"], ECKey) else ECKey(
-                kwargs["epk"])
+                **kwargs["epk"])
+            if epk.crv != key.crv or not epk.d:
+                raise ParameterError(
+                    "Not a private key on the curve of the recipient's key")
         else:
             epk = ECKey().load_key(key=NISTEllipticCurve.by_name(key.crv))
 
-- 
2.43.0


From 81e1947be5594a3b23dfa583a6ef138dc3e369b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:50 +0000
Subject: [PATCH 74/75] fix: the key in the header of an ECDH-ES token is
 written as a JWK

---
 src/jwkest/jwe.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index 3b9f2d1..5aa1ce2 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -747,6 +747,9 @@ class JWE_EC(JWe):
             if 'epk' in kwargs['params']:
                 _args['epk'] = kwargs['params']['epk']
 
+        if "jwk" in _args:
+            _args = dict(_args, jwk=_args["jwk"].serialize())
+
         jwe = JWEnc(**_args)
         ctxt, tag, cek = super(JWE_EC, self).enc_setup(self["enc"], _msg,
                                                        jwe.b64_encode_header(),
-- 
2.43.0


From 656046d30da0eaafdf0b7a4d9ae9c691a4f74ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:57 +0000
Subject: [PATCH 75/75] fix: the certificate members of a key are written and
 read

---
 src/jwkest/jwk.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index 2665343..0e8a4df 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -209,7 +209,8 @@ def x509_rsa_load(txt):
 
 def key_from_jwk_dict(jwk_dict, private=True):
     """Load JWK from dictionary"""
-    common = dict([(m, jwk_dict[m]) for m in ['kid', 'use', 'alg']
+    common = dict([(m, jwk_dict[m]) for m in ['kid', 'use', 'alg', 'x5c',
+                                              'x5t', 'x5u']
                    if m in jwk_dict])
     if jwk_dict['kty'] == 'EC':
         if private:
@@ -276,7 +277,7 @@ class Key(object):
         else:
             self.kid = as_unicode(kid)
 
-        self.x5c = x5c or []
+        self.x5c = [as_unicode(c) for c in x5c or []]
         self.x5t = as_unicode(x5t)
         self.x5u = as_unicode(x5u)
         self.inactive_since = 0
@@ -300,6 +301,12 @@ class Key(object):
             res["kid"] = self.kid
         if self.alg:
             res["alg"] = self.alg
+        if self.x5c:
+            res["x5c"] = self.x5c[:]
+        if self.x5t:
+            res["x5t"] = self.x5t
+        if self.x5u:
+            res["x5u"] = self.x5u
         return res
 
     def __str__(self):
-- 
2.43.0

