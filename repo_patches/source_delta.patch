From 0abff6f553416d2829095da107ccadf2c0f4d648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:30 +0000
Subject: [PATCH 01/31] fix: draw EC private keys and ECDSA nonces from a
 CSPRNG

random.getrandbits is the Mersenne Twister; its output is predictable.
---
 src/jwkest/ecc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jwkest/ecc.py b/src/jwkest/ecc.py
index 2504ced..ac8d325 100755
--- a/src/jwkest/ecc.py
+++ b/src/jwkest/ecc.py
@@ -14,7 +14,7 @@ from jwkest.elliptic import sign_bit
 from jwkest.elliptic import muladdp
 from jwkest.elliptic import y_from_x
 from jwkest.curves import get_curve
-from random import getrandbits
+from Cryptodome.Random.random import getrandbits
 from math import ceil
 
 
-- 
2.43.0


From b343d5ba21a8e1a058045fe0a055638ad8917ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:34 +0000
Subject: [PATCH 02/31] fix: validate the ephemeral public key in ECDH-ES
 decryption

The epk header is attacker controlled: its curve was used in place of the
recipient's and the point was never checked to be on the curve.
---
 src/jwkest/ecc.py | 5 +++++
 src/jwkest/jwe.py | 6 ++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/jwkest/ecc.py b/src/jwkest/ecc.py
index ac8d325..a4124b3 100755
--- a/src/jwkest/ecc.py
+++ b/src/jwkest/ecc.py
@@ -8,6 +8,7 @@ from __future__ import division
 
 from Cryptodome.Util.number import long_to_bytes
 from Cryptodome.Util.number import bytes_to_long
+from jwkest.elliptic import element
 from jwkest.elliptic import inv
 from jwkest.elliptic import mulp
 from jwkest.elliptic import sign_bit
@@ -73,6 +74,10 @@ class NISTEllipticCurve(object):
     # Compute the DH shared secret (X coordinate) from a public key and private
     # key
     def dh_z(self, priv, pub):
+        # An off-curve public point leaks the private key (invalid curve attack)
+        if not (0 <= pub[0] < self.p and 0 <= pub[1] < self.p and
+                element(pub, self.a, self.b, self.p)):
+            raise ECCException("Public key is not a point on the curve")
         return self.int2bytes(mulp(self.a, self.b, self.p, pub, priv)[0])
 
     def _sign_loop(self, r, s, h, k, priv):
diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index a2e5885..ab95c12 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -653,6 +653,8 @@ class JWE_EC(JWe):
                 "Ephemeral Public Key Missing in ECDH-ES Computation")
 
         epubkey = ECKey(**self.headers["epk"])
+        if epubkey.curve.name() != key.curve.name():
+            raise NoSuitableECDHKey("Ephemeral key is on another curve")
         apu = apv = ""
         if "apu" in self.headers:
             apu = b64d(self.headers["apu"].encode())
@@ -665,7 +667,7 @@ class JWE_EC(JWe):
             except KeyError:
                 raise Exception("Unknown key length for algorithm")
 
-            self.cek = ecdh_derive_key(epubkey.curve, key.d,
+            self.cek = ecdh_derive_key(key.curve, key.d,
                                        (epubkey.x, epubkey.y), apu, apv,
                                        str(self.headers["enc"]).encode(),
                                        dk_len)
@@ -673,7 +675,7 @@ class JWE_EC(JWe):
                                      "ECDH-ES+A256KW"]:
             _pre, _post = self.headers['alg'].split("+")
             klen = int(_post[1:4])
-            kek = ecdh_derive_key(epubkey.curve, key.d, (epubkey.x, epubkey.y),
+            kek = ecdh_derive_key(key.curve, key.d, (epubkey.x, epubkey.y),
                                   apu, apv, str(_post).encode(), klen)
             self.cek = aes_unwrap_key(kek, token.encrypted_key())
         else:
-- 
2.43.0


From edaa8cab87c225c4e2bd4da18741e9be4e09023e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:38 +0000
Subject: [PATCH 03/31] fix: b64d rejects a trailing newline

$ also matches before a final newline, so "YWI\n=" decoded.
---
 src/jwkest/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jwkest/__init__.py b/src/jwkest/__init__.py
index 97f197b..7ad07d3 100644
--- a/src/jwkest/__init__.py
+++ b/src/jwkest/__init__.py
@@ -145,7 +145,7 @@ def b64e(b):
     return base64.urlsafe_b64encode(b).rstrip(b"=")
 
 
-_b64_re = re.compile(b"^[A-Za-z0-9_-]*$")
+_b64_re = re.compile(b"^[A-Za-z0-9_-]*\\Z")
 
 
 def add_padding(b):
-- 
2.43.0


From 60d30420ea0825fea13c8519ee9195139fd7a940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:41 +0000
Subject: [PATCH 04/31] fix: long_to_base64(0) raised TypeError

---
 src/jwkest/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jwkest/__init__.py b/src/jwkest/__init__.py
index 7ad07d3..7334681 100644
--- a/src/jwkest/__init__.py
+++ b/src/jwkest/__init__.py
@@ -106,7 +106,7 @@ def long_to_base64(n):
     bys = long2intarr(n)
     data = struct.pack('%sB' % len(bys), *bys)
     if not len(data):
-        data = '\x00'
+        data = b'\x00'
     s = base64.urlsafe_b64encode(data).rstrip(b'=')
     return s.decode("ascii")
 
-- 
2.43.0


From f19f0005c6743a5eb10c20ced59ff74780150542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:44 +0000
Subject: [PATCH 05/31] fix: serialize EC coordinates at the full size of the
 curve

RFC 7518 6.2.1.2: leading zero octets must not be dropped.
---
 src/jwkest/__init__.py | 3 ++-
 src/jwkest/jwk.py      | 6 +++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/jwkest/__init__.py b/src/jwkest/__init__.py
index 7334681..43f123b 100644
--- a/src/jwkest/__init__.py
+++ b/src/jwkest/__init__.py
@@ -102,8 +102,9 @@ def long2intarr(long_int):
     return _bytes
 
 
-def long_to_base64(n):
+def long_to_base64(n, mlen=0):
     bys = long2intarr(n)
+    bys = [0] * (mlen - len(bys)) + bys
     data = struct.pack('%sB' % len(bys), *bys)
     if not len(data):
         data = b'\x00'
diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index 32891c7..0a74dd5 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -630,12 +630,12 @@ class ECKey(Key):
         res = self.common()
         res.update({
             "crv": self.curve.name(),
-            "x": long_to_base64(self.x),
-            "y": long_to_base64(self.y)
+            "x": long_to_base64(self.x, self.curve.bytes),
+            "y": long_to_base64(self.y, self.curve.bytes)
         })
 
         if private and self.d:
-            res["d"] = long_to_base64(self.d)
+            res["d"] = long_to_base64(self.d, self.curve.bytes)
 
         return res
 
-- 
2.43.0


From 01ed4692395663a2f986ff881a1af24d84b9db25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:47 +0000
Subject: [PATCH 06/31] fix: use the AES-GCM key as given

Going through an integer turned 24 octet keys into 32 octet ones (so A192GCM
was not AES-192-GCM) and dropped leading zero octets.
---
 src/jwkest/aes_gcm.py | 5 ++++-
 src/jwkest/jwe.py     | 4 ++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/jwkest/aes_gcm.py b/src/jwkest/aes_gcm.py
index bb158c7..a22a2f3 100755
--- a/src/jwkest/aes_gcm.py
+++ b/src/jwkest/aes_gcm.py
@@ -80,7 +80,10 @@ class AES_GCM(object):
         # if master_key >= (1 << 128):
         #    raise InvalidInputException('Master key should be 128-bit')
 
-        self._master_key = long_to_bytes(master_key, 16)
+        if isinstance(master_key, bytes):
+            self._master_key = master_key
+        else:
+            self._master_key = long_to_bytes(master_key, 16)
         self._aes_ecb = AES.new(self._master_key, AES.MODE_ECB)
         self._auth_key = bytes_to_long(self._aes_ecb.encrypt(b'\x00' * 16))
 
diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index ab95c12..7c11d47 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -359,7 +359,7 @@ class JWe(JWx):
         key, iv = self._generate_key_and_iv(enc_alg, key, iv)
 
         if enc_alg in ["A192GCM", "A128GCM", "A256GCM"]:
-            gcm = AES_GCM(bytes_to_long(key))
+            gcm = AES_GCM(key)
             ctxt, tag = gcm.encrypt(bytes_to_long(iv), msg, auth_data)
             tag = long_to_bytes(tag)
         elif enc_alg in ["A128CBC-HS256", "A192CBC-HS384", "A256CBC-HS512"]:
@@ -383,7 +383,7 @@ class JWe(JWx):
         :return: plain text message or None if decryption failed
         """
         if enc in ["A128GCM", "A192GCM", "A256GCM"]:
-            gcm = AES_GCM(bytes_to_long(key))
+            gcm = AES_GCM(key)
             try:
                 text = gcm.decrypt(bytes_to_long(iv), ctxt, bytes_to_long(tag),
                                    auth_data)
-- 
2.43.0


From 82626ef23e49317d736aee099649aa731bf67056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:51 +0000
Subject: [PATCH 07/31] fix: AES-GCM tags are 16 octets and IVs 12

Tags with a leading zero octet were emitted short, and tags and IVs of any
length were accepted as long as the integer value matched.
---
 src/jwkest/jwe.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index 7c11d47..bcc80c2 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -361,7 +361,7 @@ class JWe(JWx):
         if enc_alg in ["A192GCM", "A128GCM", "A256GCM"]:
             gcm = AES_GCM(key)
             ctxt, tag = gcm.encrypt(bytes_to_long(iv), msg, auth_data)
-            tag = long_to_bytes(tag)
+            tag = long_to_bytes(tag, 16)
         elif enc_alg in ["A128CBC-HS256", "A192CBC-HS384", "A256CBC-HS512"]:
             assert enc_alg in SUPPORTED["enc"]
             ctxt, tag = aes_cbc_hmac_encrypt(key, iv, auth_data, msg)
@@ -383,6 +383,8 @@ class JWe(JWx):
         :return: plain text message or None if decryption failed
         """
         if enc in ["A128GCM", "A192GCM", "A256GCM"]:
+            if len(iv) != 12 or len(tag) != 16:
+                raise DecryptionFailed("Wrong size of IV or tag")
             gcm = AES_GCM(key)
             try:
                 text = gcm.decrypt(bytes_to_long(iv), ctxt, bytes_to_long(tag),
-- 
2.43.0


From 6faae92506eb888c14b16c7065c90d381f0a86bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:54 +0000
Subject: [PATCH 08/31] fix: truncate the ECDSA hash to the bit length of the
 group order

A hash of the right length but larger than the order was halved.
---
 src/jwkest/ecc.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/jwkest/ecc.py b/src/jwkest/ecc.py
index a4124b3..8156e9f 100755
--- a/src/jwkest/ecc.py
+++ b/src/jwkest/ecc.py
@@ -94,8 +94,7 @@ class NISTEllipticCurve(object):
 
     # ECDSA (adapted from ecdsa.py)
     def sign(self, h, priv, k=None):
-        while h > self.N:
-            h >>= 1
+        h >>= max(0, h.bit_length() - self.N.bit_length())
 
         r = s = 0
 
@@ -104,8 +103,7 @@ class NISTEllipticCurve(object):
         return self.int2bytes(r) + self.int2bytes(s)
 
     def verify(self, h, sig, pub):
-        while h > self.N:
-            h >>= 1
+        h >>= max(0, h.bit_length() - self.N.bit_length())
         r = self.bytes2int(sig[:self.bytes])
         s = self.bytes2int(sig[self.bytes:])
         if 0 < r < self.N and 0 < s < self.N:
-- 
2.43.0


From 4ea59232d51b3b76ad69e98cf38604412243c0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:57 +0000
Subject: [PATCH 09/31] fix: reject ECDSA signatures of the wrong length

---
 src/jwkest/ecc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jwkest/ecc.py b/src/jwkest/ecc.py
index 8156e9f..4fba13c 100755
--- a/src/jwkest/ecc.py
+++ b/src/jwkest/ecc.py
@@ -104,6 +104,8 @@ class NISTEllipticCurve(object):
 
     def verify(self, h, sig, pub):
         h >>= max(0, h.bit_length() - self.N.bit_length())
+        if len(sig) != 2 * self.bytes:
+            return False
         r = self.bytes2int(sig[:self.bytes])
         s = self.bytes2int(sig[self.bytes:])
         if 0 < r < self.N and 0 < s < self.N:
-- 
2.43.0


From c8b0bd3e6854ab00082eb4439646d389a0a4f50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:01 +0000
Subject: [PATCH 10/31] fix: AES key wrap rejects data that is not whole 64 bit
 blocks

Trailing octets were silently dropped, both when wrapping and unwrapping.
---
 src/jwkest/aes_key_wrap.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jwkest/aes_key_wrap.py b/src/jwkest/aes_key_wrap.py
index 0e09c09..4b840d0 100644
--- a/src/jwkest/aes_key_wrap.py
+++ b/src/jwkest/aes_key_wrap.py
@@ -31,6 +31,8 @@ QUAD = struct.Struct('>Q')
 
 
 def aes_unwrap_key_and_iv(kek, wrapped, mode=MODE_ECB):
+    if len(wrapped) % 8 or len(wrapped) < 24:
+        raise ValueError("Wrapped key must be a multiple of 8 octets, at least 24")
     n = (len(wrapped) // 8) - 1
     #NOTE: R[0] is never accessed, left in for consistency with RFC indices
     r = [None] + [wrapped[i * 8:i * 8 + 8] for i in range(1, n + 1)]
@@ -65,6 +67,8 @@ def aes_unwrap_key_withpad(kek, wrapped):
 
 
 def aes_wrap_key(kek, plaintext, iv=0xa6a6a6a6a6a6a6a6, mode=MODE_ECB):
+    if len(plaintext) % 8 or len(plaintext) < 16:
+        raise ValueError("Key data must be a multiple of 8 octets, at least 16")
     n = len(plaintext) // 8
     r = [None] + [plaintext[i * 8:i * 8 + 8] for i in range(0, n)]
     a = iv
-- 
2.43.0


From 670fe7631796a089fa16ecb11009453e261766a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:04 +0000
Subject: [PATCH 11/31] fix: AES key wrap JWEs can carry a bytes message

---
 src/jwkest/jwe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index bcc80c2..0e3dd1d 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -439,7 +439,7 @@ class JWE_SYM(JWe):
 
         _enc = self["enc"]
 
-        ctxt, tag, cek = self.enc_setup(_enc, _msg.encode(),
+        ctxt, tag, cek = self.enc_setup(_enc, as_bytes(_msg),
                                         jwe.b64_encode_header(),
                                         cek, iv=iv)
         return jwe.pack(parts=[jek, iv, ctxt, tag])
-- 
2.43.0


From 9459a84985802169e8457032c16e64955784243c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:07 +0000
Subject: [PATCH 12/31] fix: symmetric keys with different key material are not
 equal

---
 src/jwkest/jwk.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index 0a74dd5..48192fb 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -676,6 +676,8 @@ class SYMKey(Key):
             if isinstance(self.k, str):
                 self.k = self.k.encode("utf-8")
             self.key = b64d(bytes(self.k))
+        elif self.key and not self.k:
+            self.k = b64e(self.key)  # __eq__ compares k
 
     def deserialize(self):
         if self.k:
-- 
2.43.0


From 16bc4f4e9d918e065baad13a712c8e5d4bfceb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:10 +0000
Subject: [PATCH 13/31] fix: ECKey.load_key sets the curve name

Without it the key could not be used for ECDH-ES.
---
 src/jwkest/jwk.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index 48192fb..8cc227e 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -641,6 +641,7 @@ class ECKey(Key):
 
     def load_key(self, key):
         self.curve = key
+        self.crv = key.name()
         self.d, (self.x, self.y) = key.key_pair()
         return self
 
-- 
2.43.0


From dc82bf744417dc96e22651f5373ed480cfbeb0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:14 +0000
Subject: [PATCH 14/31] fix: the curve name of an imported EC key is a string

keyrep() hands over bytes, so the key differed from one made with ECKey().
---
 src/jwkest/jwk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index 8cc227e..c8b3dc9 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -570,7 +570,7 @@ class ECKey(Key):
     def __init__(self, kty="EC", alg="", use="", kid="", key=None,
             crv="", x="", y="", d="", curve=None, **kwargs):
         Key.__init__(self, kty, alg, use, kid, key, **kwargs)
-        self.crv = crv
+        self.crv = as_unicode(crv)
         self.x = x
         self.y = y
         self.d = d
-- 
2.43.0


From 415fb3809bbc0d1eac3b4870811c436096e00c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:17 +0000
Subject: [PATCH 15/31] fix: an unsigned JWS does not satisfy an expected
 signature algorithm

---
 src/jwkest/jws.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jwkest/jws.py b/src/jwkest/jws.py
index 87e3038..b138526 100644
--- a/src/jwkest/jws.py
+++ b/src/jwkest/jws.py
@@ -538,6 +538,9 @@ class JWS(JWx):
             _alg = None
         else:
             if _alg is None or _alg.lower() == "none":
+                if sigalg and sigalg.lower() != "none":
+                    raise SignerAlgError("Expected {0} got {1}".format(
+                        sigalg, _alg))
                 if allow_none:
                     self.msg = jwt.payload()
                     return {'msg': self.msg}
-- 
2.43.0


From bea5421a5f4ab7f92e0f3bb929205e0aab563fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:21 +0000
Subject: [PATCH 16/31] fix: keyrep of a JWK with x5c and x5t raised
 AttributeError

---
 src/jwkest/jwk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index c8b3dc9..7523d2a 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -472,7 +472,7 @@ class RSAKey(Key):
             der_cert = base64.b64decode(self.x5c[0].encode("ascii"))
 
             if self.x5t:  # verify the cert
-                if not b64d(self.x5t.encode("ascii")) == hashlib.sha1(
+                if not b64d(as_bytes(self.x5t)) == hashlib.sha1(
                         der_cert).digest():
                     raise DeSerializationNotPossible(
                         "The thumbprint ('x5t') does not match the "
-- 
2.43.0


From 49ab487896243f0c9fde728d9533aced43e61b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:24 +0000
Subject: [PATCH 17/31] fix: JWT claims can be floating point numbers

---
 src/jwkest/jwt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jwkest/jwt.py b/src/jwkest/jwt.py
index 3240cf8..31f86eb 100644
--- a/src/jwkest/jwt.py
+++ b/src/jwkest/jwt.py
@@ -21,7 +21,8 @@ def split_token(token):
 def b2s_conv(item):
     if isinstance(item, bytes):
         return item.decode("utf-8")
-    elif item is None or isinstance(item, (six.string_types, int, bool)):
+    elif item is None or isinstance(item, (six.string_types, int, bool,
+                                           float)):
         return item
     elif isinstance(item, list):
         return [b2s_conv(i) for i in item]
-- 
2.43.0


From d7df3699181bed537bef2a5b1e1a03715cca9093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:03 +0000
Subject: [PATCH 18/31] fix: JWE decryption tries every eligible key

A wrong first key raised instead of moving on to the next one.
---
 src/jwkest/extra.py |  2 +-
 src/jwkest/jwe.py   | 14 ++++++++++----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/jwkest/extra.py b/src/jwkest/extra.py
index 9777532..f1b6f88 100644
--- a/src/jwkest/extra.py
+++ b/src/jwkest/extra.py
@@ -67,7 +67,7 @@ def get_keys_seclen_dgst(key, iv):
     try:
         seclen, dgst = LENMET[len(key)]
     except KeyError:
-        raise Exception("Invalid CBC+HMAC key length: %s bytes" % len(key))
+        raise ValueError("Invalid CBC+HMAC key length: %s bytes" % len(key))
 
     # Split the key
     ka = key[:seclen]
diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index 0e3dd1d..ada329b 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -25,9 +25,12 @@ from jwkest import WrongNumberOfParts
 from jwkest import JWKESTException
 from jwkest import MissingKey
 from jwkest.aes_gcm import AES_GCM
+from jwkest.aes_gcm import InvalidTagException
 from jwkest.aes_key_wrap import aes_wrap_key
 from jwkest.aes_key_wrap import aes_unwrap_key
+from jwkest.ecc import ECCException
 from jwkest.ecc import NISTEllipticCurve
+from jwkest.extra import VerificationFailure
 from jwkest.extra import aes_cbc_hmac_encrypt
 from jwkest.extra import ecdh_derive_key
 from jwkest.extra import aes_cbc_hmac_decrypt
@@ -874,7 +877,7 @@ class JWE(JWx):
                 raise NoSuitableECDHKey(_alg)
 
             decrypter = JWE_EC(**self._dict)
-            cek = decrypter.dec_setup(jwe, key=keys[0])
+            cek = None  # derived from the key, below
         else:
             raise NotSupportedAlgorithm
 
@@ -889,12 +892,15 @@ class JWE(JWx):
                 return msg
 
         for key in keys:
-            _key = key.encryption_key(alg=_alg, private=False)
             try:
+                if isinstance(decrypter, JWE_EC):
+                    decrypter.dec_setup(jwe, key=key)
+                _key = key.encryption_key(alg=_alg, private=False)
                 msg = decrypter.decrypt(jwe, _key)
                 self["cek"] = decrypter.cek if 'cek' in decrypter else None
-            except (KeyError, DecryptionFailed):
-                pass
+            except (KeyError, ValueError, DecryptionFailed, NoSuitableECDHKey,
+                    ECCException, VerificationFailure, InvalidTagException):
+                pass  # not this key
             else:
                 logger.debug(
                     "Decrypted message using key with kid=%s" % key.kid)
-- 
2.43.0


From bd3a082ff3a98a04291e31aa8c3d03a00dae18a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:46 +0000
Subject: [PATCH 19/31] fix: ECDH-ES key derivation follows RFC 7518 4.6.2

The AlgorithmID was not length prefixed and the key wrapping variants left
"ECDH-ES+" out of it, so tokens did not interoperate (RFC 7518 appendix C).
---
 src/jwkest/extra.py | 2 +-
 src/jwkest/jwe.py   | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/jwkest/extra.py b/src/jwkest/extra.py
index f1b6f88..83cf1f5 100644
--- a/src/jwkest/extra.py
+++ b/src/jwkest/extra.py
@@ -176,7 +176,7 @@ def ecdh_derive_key(curve, key, epk, apu, apv, alg, dk_len):
     Z = curve.dh_z(key, epk)
     # Derive the key
     # AlgorithmID || PartyUInfo || PartyVInfo || SuppPubInfo
-    otherInfo = bytes(alg) + \
+    otherInfo = pack("!I", len(alg)) + bytes(alg) + \
         pack("!I", len(apu)) + apu + \
         pack("!I", len(apv)) + apv + \
         pack("!I", dk_len)
diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index ada329b..95dc72c 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -638,7 +638,7 @@ class JWE_EC(JWe):
             _pre, _post = self.alg.split("+")
             klen = int(_post[1:4])
             kek = ecdh_derive_key(curve, epk.d, (key.x, key.y), apu, apv,
-                                  str(_post).encode(), klen)
+                                  str(self.alg).encode(), klen)
             encrypted_key = aes_wrap_key(kek, cek)
         else:
             raise Exception("Unsupported algorithm %s" % self.alg)
@@ -681,7 +681,8 @@ class JWE_EC(JWe):
             _pre, _post = self.headers['alg'].split("+")
             klen = int(_post[1:4])
             kek = ecdh_derive_key(key.curve, key.d, (epubkey.x, epubkey.y),
-                                  apu, apv, str(_post).encode(), klen)
+                                  apu, apv, str(self.headers["alg"]).encode(),
+                                  klen)
             self.cek = aes_unwrap_key(kek, token.encrypted_key())
         else:
             raise Exception("Unsupported algorithm %s" % self.headers["alg"])
-- 
2.43.0


From 5b310115e8c23a6e1f01061bc089bee47a357292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:23 +0000
Subject: [PATCH 20/31] fix: ECDH-ES can encrypt to a public key

JWE.encrypt asked for the private part of the recipient key, which it did not use.
---
 src/jwkest/jwe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index 95dc72c..952c968 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -824,9 +824,9 @@ class JWE(JWx):
         for key in keys:
             if isinstance(encrypter, JWE_EC):
                 if self.enc:
-                    _key = key.encryption_key(alg=self.enc, private=True)
+                    _key = key.encryption_key(alg=self.enc, private=False)
                 else:
-                    _key = key.encryption_key(alg=_alg, private=True)
+                    _key = key.encryption_key(alg=_alg, private=False)
             else:
                 _key = key.encryption_key(alg=_alg, private=True)
 
-- 
2.43.0


From 5cda9f049d5c82459aed433bd812e95bcf713e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:26 +0000
Subject: [PATCH 21/31] fix: ECDH-ES decryption of tokens without apu or apv

The str default raised TypeError when appended to bytes.
---
 src/jwkest/jwe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index 952c968..2438aa8 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -660,7 +660,7 @@ class JWE_EC(JWe):
         epubkey = ECKey(**self.headers["epk"])
         if epubkey.curve.name() != key.curve.name():
             raise NoSuitableECDHKey("Ephemeral key is on another curve")
-        apu = apv = ""
+        apu = apv = b""
         if "apu" in self.headers:
             apu = b64d(self.headers["apu"].encode())
         if "apv" in self.headers:
-- 
2.43.0


From 8ff98e8ec72fe574f8f340155c63103a7755b1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:18 +0000
Subject: [PATCH 22/31] fix: base64url_to_long refuses every text that is not
 base64url

urlsafe_b64decode skips characters outside the alphabet, so only '+', '/'
and '=' were refused: 'AQ\nAB' was read as 'AQAB'.
---
 src/jwkest/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/jwkest/__init__.py b/src/jwkest/__init__.py
index 43f123b..7f5541e 100644
--- a/src/jwkest/__init__.py
+++ b/src/jwkest/__init__.py
@@ -131,8 +131,9 @@ def base64url_to_long(data):
     """
     _d = base64.urlsafe_b64decode(bytes(data) + b'==')
     # verify that it's base64url encoded and not just base64
-    # that is no '+' and '/' characters and not trailing "="s.
-    if [e for e in [b'+', b'/', b'='] if e in data]:
+    # that is no '+' and '/' characters, no trailing "="s and nothing else
+    # that urlsafe_b64decode would skip.
+    if not _b64_re.match(bytes(data)):
         raise ValueError("Not base64url encoded")
     return intarr2long(struct.unpack('%sB' % len(_d), _d))
 
-- 
2.43.0


From 890a7cccc7f2d125cd65debcd85fac21a52adbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:18 +0000
Subject: [PATCH 23/31] fix: long2hexseq of integers with an odd number of hex
 digits

unhexlify raised binascii.Error for every such integer, for instance 1.
---
 src/jwkest/__init__.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/jwkest/__init__.py b/src/jwkest/__init__.py
index 7f5541e..f9cad73 100644
--- a/src/jwkest/__init__.py
+++ b/src/jwkest/__init__.py
@@ -84,10 +84,8 @@ def intarr2bin(arr):
 
 
 def long2hexseq(l):
-    try:
-        return unhexlify(hex(l)[2:])
-    except TypeError:
-        return unhexlify(hex(l)[2:-1])
+    h = "%x" % l
+    return unhexlify("0" * (len(h) % 2) + h)
 
 
 def intarr2long(arr):
-- 
2.43.0


From 6d688e733df0242c12c5fbc7157cd1b80f74a572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:04 +0000
Subject: [PATCH 24/31] fix: long2intarr(0) is one zero octet

It was the empty list, which intarr2long refuses with a ValueError.
---
 src/jwkest/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jwkest/__init__.py b/src/jwkest/__init__.py
index f9cad73..ed9c560 100644
--- a/src/jwkest/__init__.py
+++ b/src/jwkest/__init__.py
@@ -97,7 +97,7 @@ def long2intarr(long_int):
     while long_int:
         long_int, r = divmod(long_int, 256)
         _bytes.insert(0, r)
-    return _bytes
+    return _bytes or [0]
 
 
 def long_to_base64(n, mlen=0):
-- 
2.43.0


From 4ada855e3266cc46ff20f0eed88871a97cbd3651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:50 +0000
Subject: [PATCH 25/31] fix: decompress AES key wrap and ECDH-ES tokens whose
 header says zip

---
 src/jwkest/jwe.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index 2438aa8..8e6cc24 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -475,7 +475,7 @@ class JWE_SYM(JWe):
             jwe.b64_protected_header(),
             jwe.initialization_vector(), jwe.authentication_tag())
 
-        if "zip" in self and self["zip"] == "DEF":
+        if "zip" in jwe.headers and jwe.headers["zip"] == "DEF":
             msg = zlib.decompress(msg)
 
         return msg
@@ -728,6 +728,8 @@ class JWE_EC(JWe):
                                            self.ctxt,
                                            jwe.b64part[0],
                                            self.iv, self.tag)
+        if "zip" in self.headers and self.headers["zip"] == "DEF":
+            msg = zlib.decompress(msg)
         self.msg = msg
         self.msg_valid = True
         return msg
-- 
2.43.0


From 6a9813970673da4bf695991d1345ce857e12ebec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:50 +0000
Subject: [PATCH 26/31] fix: ECDH-ES encryption uses the given CEK and IV,
 never those of an earlier call

---
 src/jwkest/jwe.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index 8e6cc24..54679a7 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -810,7 +810,8 @@ class JWE(JWx):
 
             encrypter = JWE_EC(**self._dict)
             cek, encrypted_key, iv, params, eprivk = encrypter.enc_setup(
-                self.msg, self._dict, key=keys[0], **self._dict)
+                self.msg, self._dict, key=keys[0],
+                **dict(self._dict, cek=cek, iv=iv))
             kwargs["encrypted_key"] = encrypted_key
             kwargs["params"] = params
         else:
-- 
2.43.0


From 4205dfa3974cc9bb3601c119052cd28dc27a8be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:21 +0000
Subject: [PATCH 27/31] fix: key_from_jwk_dict keeps the use and alg of a key

---
 src/jwkest/jwk.py | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index 7523d2a..8a443dd 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -204,33 +204,35 @@ def x509_rsa_load(txt):
 
 def key_from_jwk_dict(jwk_dict, private=True):
     """Load JWK from dictionary"""
+    meta = dict((k, jwk_dict[k]) for k in ('kid', 'use', 'alg')
+                if k in jwk_dict)
     if jwk_dict['kty'] == 'EC':
         if private:
-            return ECKey(kid=jwk_dict['kid'],
-                         crv=jwk_dict['crv'],
+            return ECKey(crv=jwk_dict['crv'],
                          x=jwk_dict['x'],
                          y=jwk_dict['y'],
-                         d=jwk_dict['d'])
+                         d=jwk_dict['d'],
+                         **meta)
         else:
-            return ECKey(kid=jwk_dict['kid'],
-                         crv=jwk_dict['crv'],
+            return ECKey(crv=jwk_dict['crv'],
                          x=jwk_dict['x'],
-                         y=jwk_dict['y'])
+                         y=jwk_dict['y'],
+                         **meta)
     elif jwk_dict['kty'] == 'RSA':
         if private:
-            return RSAKey(kid=jwk_dict['kid'],
-                          n=jwk_dict['n'],
+            return RSAKey(n=jwk_dict['n'],
                           e=jwk_dict['e'],
                           d=jwk_dict['d'],
                           p=jwk_dict['p'],
-                          q=jwk_dict['q'])
+                          q=jwk_dict['q'],
+                          **meta)
         else:
-            return RSAKey(kid=jwk_dict['kid'],
-                          n=jwk_dict['n'],
-                          e=jwk_dict['e'])
+            return RSAKey(n=jwk_dict['n'],
+                          e=jwk_dict['e'],
+                          **meta)
     elif jwk_dict['kty'] == 'oct':
-        return SYMKey(kid=jwk_dict['kid'],
-                      k=jwk_dict['k'])
+        return SYMKey(k=jwk_dict['k'],
+                      **meta)
     else:
         raise UnknownAlgorithm
 
-- 
2.43.0


From afd3fd68b4aa981d9481ff677a57cdb9477f1eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:34 +0000
Subject: [PATCH 28/31] fix: the content key must have the size its encryption
 method prescribes

---
 src/jwkest/jwe.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index 54679a7..22b5386 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -388,6 +388,8 @@ class JWe(JWx):
         if enc in ["A128GCM", "A192GCM", "A256GCM"]:
             if len(iv) != 12 or len(tag) != 16:
                 raise DecryptionFailed("Wrong size of IV or tag")
+            if len(key) != ENCALGLEN1[enc]:
+                raise DecryptionFailed("Wrong size of content key")
             gcm = AES_GCM(key)
             try:
                 text = gcm.decrypt(bytes_to_long(iv), ctxt, bytes_to_long(tag),
@@ -396,6 +398,8 @@ class JWe(JWx):
             except DecryptionFailed:
                 raise
         elif enc in ["A128CBC-HS256", "A192CBC-HS384", "A256CBC-HS512"]:
+            if len(key) != ENCALGLEN2[enc]:
+                raise DecryptionFailed("Wrong size of content key")
             return aes_cbc_hmac_decrypt(key, iv, auth_data, ctxt, tag)
         else:
             raise Exception("Unsupported encryption algorithm %s" % enc)
-- 
2.43.0


From b327e7150aa3d7e68cc88568f6a38702008e0d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:34 +0000
Subject: [PATCH 29/31] fix: a JWE of more than five parts is refused whatever
 its algorithm

---
 src/jwkest/jwe.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index 22b5386..5ec6ab8 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -861,6 +861,9 @@ class JWE(JWx):
         elif self.jwt:
             jwe = self.jwt
 
+        if len(jwe) != 5:
+            raise WrongNumberOfParts(len(jwe))
+
         _alg = jwe.headers["alg"]
         if alg and alg != _alg:
             raise WrongEncryptionAlgorithm()
-- 
2.43.0


From 2880d51df5cbfde64020f8345e096d4e561d13d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:16 +0000
Subject: [PATCH 30/31] fix: a number can be the payload of a token

---
 src/jwkest/jwt.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/jwkest/jwt.py b/src/jwkest/jwt.py
index 31f86eb..f2e50ac 100644
--- a/src/jwkest/jwt.py
+++ b/src/jwkest/jwt.py
@@ -37,8 +37,6 @@ def b64encode_item(item):
         return b64e(item)
     elif isinstance(item, str):
         return b64e(item.encode("utf-8"))
-    elif isinstance(item, int):
-        return b64e(item)
     else:
         return b64e(json.dumps(b2s_conv(item),
                                separators=(",", ":")).encode("utf-8"))
-- 
2.43.0


From 0b9a542aa0041abd8216dff83e6099d36abe22cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:10 +0000
Subject: [PATCH 31/31] fix: the private part of an EC key is decoded when its
 members are given as octets

---
 src/jwkest/jwk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index 8a443dd..7da7367 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -608,7 +608,7 @@ class ECKey(Key):
         self.curve = NISTEllipticCurve.by_name(self.crv)
         if self.d:
             try:
-                if isinstance(self.d, six.string_types):
+                if not isinstance(self.d, six.integer_types):
                     self.d = deser(self.d)
             except ValueError as err:
                 raise DeSerializationNotPossible(str(err))
-- 
2.43.0

