From 796def84658b75ea73c5708b237b4d474dee5de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:35 +0000
Subject: [PATCH 01/32] fix: ETHFALCON sign/open must not ignore a message the
 Keccak buffer cannot hold

inner_keccak256_inject() refuses input beyond 4096 bytes and leaves the buffer
unchanged; the callers ignored that, so a longer message was not hashed at all
and one signature opened with any other long message.
---
 falcon/nistfalcon/src/nist.c   | 12 ++++++++++--
 falcon/nistfalcon/src/nist16.c | 12 ++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/falcon/nistfalcon/src/nist.c b/falcon/nistfalcon/src/nist.c
index 099f788..77d998d 100644
--- a/falcon/nistfalcon/src/nist.c
+++ b/falcon/nistfalcon/src/nist.c
@@ -239,7 +239,11 @@ int crypto_sign(unsigned char *sm, unsigned long long *smlen,
 #if ETHFALCON
 	inner_keccak256_init(&kc);
 	inner_keccak256_inject(&kc, nonce, sizeof nonce);
-	inner_keccak256_inject(&kc, m, mlen);
+	if (inner_keccak256_inject(&kc, m, mlen) != 0)
+	{
+		// message too long for the Keccak buffer
+		return -1;
+	}
 	inner_keccak256_flip(&kc);
 	Zf(keccak_hash_to_point_vartime)(&kc, r.hm, 9);
 #else
@@ -353,7 +357,11 @@ int crypto_sign_open(unsigned char *m, unsigned long long *mlen,
 
 #if ETHFALCON
 	inner_keccak256_init(&kc);
-	inner_keccak256_inject(&kc, sm + 2, NONCELEN + msg_len);
+	if (inner_keccak256_inject(&kc, sm + 2, NONCELEN + msg_len) != 0)
+	{
+		// message too long for the Keccak buffer
+		return -1;
+	}
 	inner_keccak256_flip(&kc);
 	Zf(keccak_hash_to_point_vartime)(&kc, hm, 9);
 #else
diff --git a/falcon/nistfalcon/src/nist16.c b/falcon/nistfalcon/src/nist16.c
index 7e432b3..5d51c60 100644
--- a/falcon/nistfalcon/src/nist16.c
+++ b/falcon/nistfalcon/src/nist16.c
@@ -244,7 +244,11 @@ int zknox_crypto_sign(unsigned char *sm, unsigned long long *smlen,
 #if ETHFALCON
 	inner_keccak256_init(&kc);
 	inner_keccak256_inject(&kc, nonce, sizeof nonce);
-	inner_keccak256_inject(&kc, m, mlen);
+	if (inner_keccak256_inject(&kc, m, mlen) != 0)
+	{
+		// message too long for the Keccak buffer
+		return -1;
+	}
 	inner_keccak256_flip(&kc);
 	Zf(keccak_hash_to_point_vartime)(&kc, r.hm, 9);
 #else
@@ -366,7 +370,11 @@ int zknox_crypto_sign_open(unsigned char *m, unsigned long long *mlen,
 	 */
 #if ETHFALCON
 	inner_keccak256_init(&kc);
-	inner_keccak256_inject(&kc, sm + 2, NONCELEN + msg_len);
+	if (inner_keccak256_inject(&kc, sm + 2, NONCELEN + msg_len) != 0)
+	{
+		// message too long for the Keccak buffer
+		return -1;
+	}
 	inner_keccak256_flip(&kc);
 	Zf(keccak_hash_to_point_vartime)(&kc, hm, 9);
 #else
-- 
2.43.0


From cba0cb04670514ccc94dfd121128652bbe0e80e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:35 +0000
Subject: [PATCH 02/32] fix: zknox_crypto_sign_open_epervier must check the
 signature length before reading it

s1, s2 and their headers were read at fixed offsets whatever the announced
length was: out of the buffer for a short one, across the message for others.
---
 falcon/nistfalcon/src/epervier16.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/falcon/nistfalcon/src/epervier16.c b/falcon/nistfalcon/src/epervier16.c
index 6f88d11..9c52b96 100644
--- a/falcon/nistfalcon/src/epervier16.c
+++ b/falcon/nistfalcon/src/epervier16.c
@@ -228,7 +228,8 @@ zknox_crypto_sign_open_epervier(unsigned char *m, unsigned long long *mlen,
 	 * Decode signature.
 	 */
 	esig = sm + 2 + NONCELEN + msg_len;
-	if (sig_len < 1 || esig[0] != 0x20 + 9 || esig[1025] != 0x20 + 9) {
+	if (sig_len != 2 * (1 + 1024) + 2
+		|| esig[0] != 0x20 + 9 || esig[1025] != 0x20 + 9) {
 		return -1;
 	}
 
-- 
2.43.0


From ea2c2b17b7d13e51dd01a63381b7e2334cec7dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:35 +0000
Subject: [PATCH 03/32] fix: zknox_pk_epervier must not apply the NTT a second
 time

zknox_crypto_sign_keypair() outputs NTT(h) already, so no signature opened
under the key zknox_pk_epervier() returned (kat512int_epervier_zknox failed).
---
 falcon/nistfalcon/src/epervier16.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/falcon/nistfalcon/src/epervier16.c b/falcon/nistfalcon/src/epervier16.c
index 9c52b96..400742c 100644
--- a/falcon/nistfalcon/src/epervier16.c
+++ b/falcon/nistfalcon/src/epervier16.c
@@ -41,8 +41,8 @@ zknox_pk_epervier(unsigned char *pk)
 		return -1;
 	}
 
-	// NTT not in montgomery representation
-	Zf(to_ntt)(h, 9);
+	// zknox_crypto_sign_keypair() already provides NTT(h), not in
+	// montgomery representation: this is what epervier compares with.
 
 	/*
 	 * Re-encode public key.
-- 
2.43.0


From 50418ccc06e66c5157dab713d4cc0cbb3e155829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:35 +0000
Subject: [PATCH 04/32] fix: comp_decode16 must reject words above 0x7FFF and
 centre at q/2

Words of 0x8000 and more passed the range check as negative numbers, so each
negative coefficient had two encodings; coefficients in 2047..6144 came back
as negative ones.
---
 falcon/nistfalcon/src/codec.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/falcon/nistfalcon/src/codec.c b/falcon/nistfalcon/src/codec.c
index f5e81c7..66fc0eb 100644
--- a/falcon/nistfalcon/src/codec.c
+++ b/falcon/nistfalcon/src/codec.c
@@ -624,16 +624,16 @@ Zf(comp_decode16)(
 		acc = (acc << 8) | (*buf ++);
 		acc_len += 8;
 		if (acc_len >= 16) {
-			int16_t w;
+			int32_t w;
 
 			acc_len -= 16;
 			w = (acc >> acc_len) & 0xFFFF;
 			if (w >= 12289) {
 				return 0;
 			}
-			// using the bound 2047 from the comments below
-			w -= 12289 & ~((w - 2047) >> 31);
-			x[u++] = w;
+			// representative in the -6144..+6144 range
+			w -= 12289 & ~((w - 6145) >> 31);
+			x[u++] = (int16_t)w;
 		}
 	}
 	if ((acc & (((uint32_t)1 << acc_len) - 1)) != 0) {
-- 
2.43.0


From ade190d8e2e6a02642b25de0cbc87be6eeb6cd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:15 +0000
Subject: [PATCH 05/32] fix: sign_open must reject a signature made of its
 header byte only

With sig_len == 1 the decoder's failure value 0 equals sig_len - 1, so the
check passed and verification went on with an uninitialized s2: after a valid
signature had been processed, the stale copy on the stack made any such
truncated signature of the same message verify.
---
 falcon/nistfalcon/src/nist.c   | 2 +-
 falcon/nistfalcon/src/nist16.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/falcon/nistfalcon/src/nist.c b/falcon/nistfalcon/src/nist.c
index 77d998d..618bbe1 100644
--- a/falcon/nistfalcon/src/nist.c
+++ b/falcon/nistfalcon/src/nist.c
@@ -341,7 +341,7 @@ int crypto_sign_open(unsigned char *m, unsigned long long *mlen,
 	 * Decode signature.
 	 */
 	esig = sm + 2 + NONCELEN + msg_len;
-	if (sig_len < 1 || esig[0] != 0x20 + 9)
+	if (sig_len < 2 || esig[0] != 0x20 + 9)
 	{
 		return -1;
 	}
diff --git a/falcon/nistfalcon/src/nist16.c b/falcon/nistfalcon/src/nist16.c
index 5d51c60..fd20c7f 100644
--- a/falcon/nistfalcon/src/nist16.c
+++ b/falcon/nistfalcon/src/nist16.c
@@ -356,7 +356,7 @@ int zknox_crypto_sign_open(unsigned char *m, unsigned long long *mlen,
 	 * Decode signature.
 	 */
 	esig = sm + 2 + NONCELEN + msg_len;
-	if (sig_len < 1 || esig[0] != 0x20 + 9)
+	if (sig_len < 2 || esig[0] != 0x20 + 9)
 	{
 		return -1;
 	}
-- 
2.43.0


From c1c9d0244fd7a12210b6129e833be64c2625940e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:03 +0000
Subject: [PATCH 06/32] fix: prng_get_bytes must read at the current position
 of the buffer

It copied from the start of the buffer whatever the position was, so two reads
returned the same random bytes.
---
 falcon/nistfalcon/src/rng.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falcon/nistfalcon/src/rng.c b/falcon/nistfalcon/src/rng.c
index dd03a22..16586a1 100644
--- a/falcon/nistfalcon/src/rng.c
+++ b/falcon/nistfalcon/src/rng.c
@@ -179,7 +179,7 @@ Zf(prng_get_bytes)(prng *p, void *dst, size_t len)
 		if (clen > len) {
 			clen = len;
 		}
-		memcpy(buf, p->buf.d, clen);
+		memcpy(buf, p->buf.d + p->ptr, clen);
 		buf += clen;
 		len -= clen;
 		p->ptr += clen;
-- 
2.43.0


From 1fc8ebb556d4aa8589abcf312c24bfb67c7d2048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:41 +0000
Subject: [PATCH 07/32] fix: the Go binding must size its buffers for the
 message and check lengths before calling C

SignMessage wrote the signed message into 1330 bytes and VerifySignature the recovered one into 1024,
whatever their length; empty slices panicked and short keys were read out of bounds.
---
 falcon/falcon.go | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/falcon/falcon.go b/falcon/falcon.go
index 0a11476..e2cce99 100644
--- a/falcon/falcon.go
+++ b/falcon/falcon.go
@@ -40,36 +40,46 @@ func GenerateKeypair() ([]byte, []byte, error) {
 	return pkBytes, skBytes, nil
 }
 
+// bytesPtr returns a pointer to the first byte of b that C may use, which is never nil
+func bytesPtr(b []byte) *C.uchar {
+	if len(b) == 0 {
+		return (*C.uchar)(unsafe.Pointer(&[1]byte{}))
+	}
+	return (*C.uchar)(unsafe.Pointer(&b[0]))
+}
+
 // SignMessage signs a message using the private key
 func SignMessage(message []byte, sk []byte) ([]byte, error) {
-	var sm [SignatureSize]C.uchar
+	if len(sk) != SecretKeySize {
+		return nil, fmt.Errorf("invalid secret key length: %d", len(sk))
+	}
+	// The signed message holds the message itself
+	sm := make([]byte, len(message)+C.CRYPTO_BYTES)
 	var smlen C.ulonglong
 
-	ret := C.crypto_sign(&sm[0], &smlen, (*C.uchar)(unsafe.Pointer(&message[0])), C.ulonglong(len(message)), (*C.uchar)(unsafe.Pointer(&sk[0])))
+	ret := C.crypto_sign(bytesPtr(sm), &smlen, bytesPtr(message), C.ulonglong(len(message)), bytesPtr(sk))
 	if ret != 0 {
 		return nil, fmt.Errorf("signing failed: %d", int(ret))
 	}
 
-	// Convert signature to Go byte slice
-	smBytes := C.GoBytes(unsafe.Pointer(&sm[0]), C.int(smlen))
-	return smBytes, nil
+	return sm[:smlen], nil
 }
 
 // VerifySignature verifies a signature for a given message and public key
 func VerifySignature(signature []byte, message []byte, pk []byte) (bool, error) {
-	var m [1024]C.uchar // Buffer for the recovered message
+	if len(pk) != PublicKeySize {
+		return false, fmt.Errorf("invalid public key length: %d", len(pk))
+	}
+	m := make([]byte, len(signature)) // Buffer for the recovered message
 	var mlen C.ulonglong
 
-	ret := C.crypto_sign_open(&m[0], &mlen, (*C.uchar)(unsafe.Pointer(&signature[0])), C.ulonglong(len(signature)), (*C.uchar)(unsafe.Pointer(&pk[0])))
+	ret := C.crypto_sign_open(bytesPtr(m), &mlen, bytesPtr(signature), C.ulonglong(len(signature)), bytesPtr(pk))
 	if ret != 0 {
 		return false, fmt.Errorf("verification failed: %d", int(ret))
 	}
 
-	// Convert recovered message back to Go byte slice
-	recoveredMessage := C.GoBytes(unsafe.Pointer(&m[0]), C.int(mlen))
-
 	// Compare the recovered message with the original message
-	if string(recoveredMessage) == string(message) {
+	if string(m[:mlen]) == string(message) {
 		return true, nil
 	}
 	return false, nil
-- 
2.43.0


From 4751ecbf6a4c6ad9e3b46f24059c3dc9216f5f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:02 +0000
Subject: [PATCH 08/32] fix: the Go binding must seed the C generator from the
 system, and not share it unlocked

The generator was never seeded: every process made the same keys and the same salts. It is a single
global, so concurrent calls raced on it.
---
 falcon/falcon.go | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/falcon/falcon.go b/falcon/falcon.go
index e2cce99..2199638 100644
--- a/falcon/falcon.go
+++ b/falcon/falcon.go
@@ -7,6 +7,7 @@ package falcon
 
 #include <stdlib.h>
 #include "api.h"
+#include "katrng.h"
 
 // Wrapper for crypto_sign_keypair, crypto_sign, crypto_sign_open
 
@@ -14,7 +15,9 @@ package falcon
 import "C"
 
 import (
+	"crypto/rand"
 	"fmt"
+	"sync"
 	"unsafe"
 )
 
@@ -24,11 +27,29 @@ const (
 	SignatureSize  = 1330 // Falcon signature size
 )
 
+// The C library draws its randomness from one global generator, which is deterministic until it is seeded
+var rngMutex sync.Mutex
+
+// seedRng seeds the global generator; rngMutex must be held until its last use
+func seedRng() error {
+	var entropy [48]byte
+	if _, err := rand.Read(entropy[:]); err != nil {
+		return fmt.Errorf("no system randomness: %w", err)
+	}
+	C.randombytes_init((*C.uchar)(unsafe.Pointer(&entropy[0])), nil, 256)
+	return nil
+}
+
 // GenerateKeypair generates a public/private keypair
 func GenerateKeypair() ([]byte, []byte, error) {
 	var pk [PublicKeySize]C.uchar
 	var sk [SecretKeySize]C.uchar
 
+	rngMutex.Lock()
+	defer rngMutex.Unlock()
+	if err := seedRng(); err != nil {
+		return nil, nil, err
+	}
 	ret := C.crypto_sign_keypair(&pk[0], &sk[0])
 	if ret != 0 {
 		return nil, nil, fmt.Errorf("keypair generation failed: %d", int(ret))
@@ -57,6 +78,11 @@ func SignMessage(message []byte, sk []byte) ([]byte, error) {
 	sm := make([]byte, len(message)+C.CRYPTO_BYTES)
 	var smlen C.ulonglong
 
+	rngMutex.Lock()
+	defer rngMutex.Unlock()
+	if err := seedRng(); err != nil {
+		return nil, err
+	}
 	ret := C.crypto_sign(bytesPtr(sm), &smlen, bytesPtr(message), C.ulonglong(len(message)), bytesPtr(sk))
 	if ret != 0 {
 		return nil, fmt.Errorf("signing failed: %d", int(ret))
-- 
2.43.0


From a0a3e630b55bfaf3c521570650de4ddc528b0c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:52 +0000
Subject: [PATCH 09/32] fix: decompress must reject nonzero padding and not
 fail on truncated encodings

---
 pythonref/encoding.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pythonref/encoding.py b/pythonref/encoding.py
index d5c7b9e..10bfa83 100755
--- a/pythonref/encoding.py
+++ b/pythonref/encoding.py
@@ -48,8 +48,7 @@ def decompress(x, slen, n):
     v = []
 
     # Remove the last bits
-    while u[-1] == "0":
-        u = u[:-1]
+    u = u.rstrip("0")
 
     try:
         while (u != "") and (len(v) < n):
@@ -70,12 +69,13 @@ def decompress(x, slen, n):
             # Store intermediate results
             v += [coef]
             u = u[i + 1:]
-        # In this case, the encoding is invalid
-        if (len(v) != n):
+        # In this case, the encoding is invalid (coefficients are missing,
+        # or the padding is not zero)
+        if (len(v) != n) or (u != ""):
             return False
         return v
-    # IndexError is raised if indices are read outside the table bounds
-    except IndexError:
+    # IndexError (or ValueError) is raised if the last coefficient is truncated
+    except (IndexError, ValueError):
         return False
 
 def decode16(x:bytes, n: int, q=12289):
-- 
2.43.0


From af5eae3d6cab5919c6525a1ef72bf0f134229848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:52 +0000
Subject: [PATCH 10/32] fix: PublicKey.verify must check the header of the
 signature

---
 pythonref/falcon.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pythonref/falcon.py b/pythonref/falcon.py
index 1ba0871..a82b2d1 100755
--- a/pythonref/falcon.py
+++ b/pythonref/falcon.py
@@ -288,6 +288,11 @@ class PublicKey:
         """
         Verify a signature.
         """
+        # Check the length and the header
+        if (len(signature) < HEAD_LEN + SALT_LEN
+                or signature[0] not in (0x20 + logn[self.n], 0x30 + logn[self.n])):
+            print("Invalid header")
+            return False
         # Unpack the salt and the short polynomial s1
         salt = signature[HEAD_LEN:HEAD_LEN + SALT_LEN]
         enc_s = signature[HEAD_LEN + SALT_LEN:]
-- 
2.43.0


From cab0e9803fc34db853e77247cff0caf08b46253b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:52 +0000
Subject: [PATCH 11/32] fix: PublicKey.from_bytes must take 1793 bytes for
 falcon-1024 and match length and header

---
 pythonref/falcon.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pythonref/falcon.py b/pythonref/falcon.py
index a82b2d1..3e3e514 100755
--- a/pythonref/falcon.py
+++ b/pythonref/falcon.py
@@ -240,14 +240,14 @@ class PublicKey:
 
         Format:
         - 1 byte header: 0x09 or 0x0A (for falcon-1024)
-        - 896 bytes: 512 coefficients, each 14 bits
+        - 896 bytes (1792 for falcon-1024): n coefficients, each 14 bits
 
         Returns:
         The corresponding PublicKey
         """
 
-        if len(pk_bytes) not in (897, 1792):
-            raise ValueError("Invalid public key length (must be 897 or 1792 bytes)")
+        if len(pk_bytes) not in (897, 1793):
+            raise ValueError("Invalid public key length (must be 897 or 1793 bytes)")
 
         # Check header
         if pk_bytes[0] == 0x09:
@@ -258,6 +258,8 @@ class PublicKey:
             raise ValueError("Invalid Falcon public key header")
 
         data = pk_bytes[HEAD_LEN:]  # Remove header
+        if 8 * len(data) != 14 * n:
+            raise ValueError("Public key length does not match its header")
 
         h = []
         acc = 0
-- 
2.43.0


From 44d02d97897bc98f5aa7b60c298a2471d8c0c99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:52 +0000
Subject: [PATCH 12/32] fix: key recovery must reject other headers,
 non-canonical inverses and failed recoveries under key 0

---
 pythonref/falcon_epervier.py | 10 +++++++++-
 pythonref/falcon_recovery.py | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/pythonref/falcon_epervier.py b/pythonref/falcon_epervier.py
index c0d8ae1..deb758f 100644
--- a/pythonref/falcon_epervier.py
+++ b/pythonref/falcon_epervier.py
@@ -25,6 +25,10 @@ class EpervierPublicKey:
         """
         Recover a public key.
         """
+        # Check the header
+        if len(signature) == 0 or signature[0] != 0x30 + logn[self.n]:
+            print("Invalid header")
+            return False
         # Unpack the salt and the short polynomial s1
         salt = signature[HEAD_LEN:HEAD_LEN + SALT_LEN]
         enc_s = signature[HEAD_LEN+SALT_LEN:-self.n*3]
@@ -41,6 +45,9 @@ class EpervierPublicKey:
         byte_s_1_inv_ntt = signature[-self.n*3:]
         s_1_inv_ntt = [int.from_bytes(byte_s_1_inv_ntt[i:i+3], 'big')
                        for i in range(0, len(byte_s_1_inv_ntt), 3)]
+        # The coefficients of the inverse have a unique encoding
+        if any(elt >= q for elt in s_1_inv_ntt):
+            return False
         T = ntt(q)
         # check that s_1_inv_ntt * s_1_ntt == [1, ... , 1]
         mul_s1_s1inv = T.vec_mul(s_1_inv_ntt, s_1_ntt)
@@ -70,7 +77,8 @@ class EpervierPublicKey:
     def verify(self, message, signature, ntt=NTTIterative, xof=KeccakPRNG):
         pk_rec = self.recover(message, signature,
                               ntt=ntt, xof=xof)
-        return pk_rec == self.pk
+        # recover returns False (which is equal to 0) for an invalid signature
+        return pk_rec is not False and pk_rec == self.pk
 
 
 class EpervierSecretKey(SecretKey):
diff --git a/pythonref/falcon_recovery.py b/pythonref/falcon_recovery.py
index fcb47e4..5c5961a 100644
--- a/pythonref/falcon_recovery.py
+++ b/pythonref/falcon_recovery.py
@@ -25,6 +25,10 @@ class RecoveryModePublicKey:
         """
         Verify a signature.
         """
+        # Check the header
+        if len(signature) == 0 or signature[0] != 0x30 + logn[self.n]:
+            print("Invalid header")
+            return False
         # Unpack the salt and the short polynomial s1
         salt = signature[HEAD_LEN:HEAD_LEN + SALT_LEN]
         enc_s = signature[HEAD_LEN+SALT_LEN: -self.n*3]
@@ -41,6 +45,9 @@ class RecoveryModePublicKey:
         byte_s_1_inv_ntt = signature[-self.n*3:]
         s_1_inv_ntt = [int.from_bytes(byte_s_1_inv_ntt[i:i+3], 'big')
                        for i in range(0, len(byte_s_1_inv_ntt), 3)]
+        # The coefficients of the inverse have a unique encoding
+        if any(elt >= q for elt in s_1_inv_ntt):
+            return False
         T = ntt(q)
         s_1_ntt = T.ntt(s1)
         # check that s_1_inv_ntt * s_1_ntt == [1, ... , 1]
@@ -74,7 +81,8 @@ class RecoveryModePublicKey:
     def verify(self, message, signature, ntt=NTTIterative, xof=KeccakPRNG):
         pk_rec = self.recover(message, signature,
                               ntt=ntt, xof=xof)
-        return pk_rec == self.pk
+        # recover returns False (which is equal to 0) for an invalid signature
+        return pk_rec is not False and pk_rec == self.pk
 
 
 class RecoveryModeSecretKey(SecretKey):
-- 
2.43.0


From abc02d425e126b6b72b19edf36bd377e92d4012c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:52 +0000
Subject: [PATCH 13/32] fix: KeccaXOF.read must return the number of bytes
 asked for

---
 pythonref/keccaxof.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pythonref/keccaxof.py b/pythonref/keccaxof.py
index c49c81c..4bca006 100755
--- a/pythonref/keccaxof.py
+++ b/pythonref/keccaxof.py
@@ -1,3 +1,4 @@
+from binascii import unhexlify
 from Crypto.Hash import keccak
 from eth_abi.packed import encode_packed
 
@@ -34,7 +35,7 @@ class KeccaXOF:
 
         buff = self.tmp[:to_slice]
         self.tmp = self.tmp[to_slice:]
-        return int(buff, 16).to_bytes(2, 'big')
+        return unhexlify(buff)
 
     def flip(self):
         return
-- 
2.43.0


From 352bd7a7d3ecbd5f24e15f70afa1ceb21e50119b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:52 +0000
Subject: [PATCH 14/32] fix: the ChaCha20 counter is 64 bits long

---
 pythonref/rng.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonref/rng.py b/pythonref/rng.py
index 88655b7..d861c20 100644
--- a/pythonref/rng.py
+++ b/pythonref/rng.py
@@ -96,7 +96,7 @@ class ChaCha20:
             self.qround(3, 4, 9, 14)
         for i in range(16):
             self.state[i] = (self.state[i] + state[i]) & 0xffffffff
-        self.ctr += 1
+        self.ctr = (self.ctr + 1) & 0xffffffffffffffff
         return self.state
 
     def block_update(self):
-- 
2.43.0


From 9cd02fa7f98b4739dbfe89bc9a72d7cb34c664d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:17 +0000
Subject: [PATCH 15/32] fix: the derandomized signer must pad its SHAKE input
 before reading from it

---
 pythonref/sign_cli.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pythonref/sign_cli.py b/pythonref/sign_cli.py
index 819887d..d8e1d10 100755
--- a/pythonref/sign_cli.py
+++ b/pythonref/sign_cli.py
@@ -126,6 +126,7 @@ def signature(sk, data, version):
     # data TODO consider h(M) instead here.
     # if H does not output 32 bytes, change V above.
     deterministic_bytes.update(data)
+    deterministic_bytes.flip()
 
     return sk.sign(
         data,
-- 
2.43.0


From 0b4a265b2898baf4c360782d948448246d817ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:17 +0000
Subject: [PATCH 16/32] fix: sign_tx must use the version of the key and the
 signatures of its helpers

---
 pythonref/sign_cli.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pythonref/sign_cli.py b/pythonref/sign_cli.py
index d8e1d10..3b2bf25 100755
--- a/pythonref/sign_cli.py
+++ b/pythonref/sign_cli.py
@@ -386,9 +386,9 @@ def cli():
         print(tx_hash)
         [sk, version] = load_sk(args.privkey)
         pk = PublicKey(512, sk.h)
-        sig = signature(sk, tx_hash, args.version)
-        assert (verify_signature(pk, tx_hash, sig))
-        print_signature_transaction(sig, pk, tx_hash, version)
+        sig = signature(sk, tx_hash, version)
+        assert (verify_signature(pk, tx_hash, sig, version))
+        print_signature_transaction(sig, pk, tx_hash)
 
     elif args.action == "verify":
         if not args.data or not args.pubkey or not args.signature:
-- 
2.43.0


From 6aa4b5f91f2c651606988fdc52552acaff1e651e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:17 +0000
Subject: [PATCH 17/32] fix: verify must handle the keys of version falconrec

---
 pythonref/sign_cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pythonref/sign_cli.py b/pythonref/sign_cli.py
index 3b2bf25..760bb84 100755
--- a/pythonref/sign_cli.py
+++ b/pythonref/sign_cli.py
@@ -169,10 +169,10 @@ def print_signature_transaction(sig, pk, tx_hash):
 def verify_signature(pk, data, sig, version):
     if version == 'falcon' or version == 'epervier':
         XOF = SHAKE
-    elif version == 'ethfalcon':
+    elif version == 'ethfalcon' or version == 'falconrec':
         XOF = KeccakPRNG
     else:
-        print('NOT IMPLEMENTED YET')
+        raise ValueError('NOT IMPLEMENTED YET')
     return pk.verify(data, sig, xof=XOF)
 
 
-- 
2.43.0


From 6b10326dfe4824417d8fb694aea2c339a8e7f990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:17 +0000
Subject: [PATCH 18/32] fix: the on-chain recovery commands must name recover's
 real signature and pass s1

---
 pythonref/sign_cli.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pythonref/sign_cli.py b/pythonref/sign_cli.py
index 760bb84..fa4d5ad 100755
--- a/pythonref/sign_cli.py
+++ b/pythonref/sign_cli.py
@@ -200,7 +200,7 @@ def recover_on_chain(data, sig, contract_address, rpc, version):
 
     command = [
         "cast", "call", contract_address,
-        "recover(bytes,bytes,uint256[],uint256[],uint256,)", MSG, SALT, S1, S2, HINT, "--rpc-url", rpc
+        "recover(bytes,bytes,uint256[],uint256[],uint256)", MSG, SALT, S1, S2, HINT, "--rpc-url", rpc
     ]
 
     result = subprocess.run(
@@ -270,11 +270,12 @@ def recover_on_chain_with_transaction(data, sig, contract_address, rpc, private_
         hint = (hint * elt) % q
     HINT = str(hint)
 
-    command = "cast send --private-key {} {} \"recover(bytes,bytes,uint256[],uint256[], uint256)\" {} {} \"{}\" \"{}\" \"{}\" --rpc-url {}".format(
+    command = "cast send --private-key {} {} \"recover(bytes,bytes,uint256[],uint256[],uint256)\" {} {} \"{}\" \"{}\" \"{}\" --rpc-url {}".format(
         private_key,
         contract_address,
         MSG,
         SALT,
+        S1,
         S2,
         HINT,
         rpc
-- 
2.43.0


From 8208e0d6461f45b78748bdbde26461f9a2f0f03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:16 +0000
Subject: [PATCH 19/32] fix: the derandomized signer must derive its randomness
 from the secret key, not the public one

---
 pythonref/sign_cli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pythonref/sign_cli.py b/pythonref/sign_cli.py
index fa4d5ad..e6a6b30 100755
--- a/pythonref/sign_cli.py
+++ b/pythonref/sign_cli.py
@@ -122,7 +122,8 @@ def signature(sk, data, version):
     # separator
     deterministic_bytes.update(bytes([0x00]))
     # secret key encoded
-    deterministic_bytes.update(b''.join(x.to_bytes(2, 'big') for x in sk.h))
+    deterministic_bytes.update(b''.join(
+        (x % q).to_bytes(2, 'big') for poly in (sk.f, sk.g, sk.F, sk.G) for x in poly))
     # data TODO consider h(M) instead here.
     # if H does not output 32 bytes, change V above.
     deterministic_bytes.update(data)
-- 
2.43.0


From f2c656ea667ee66646336841962cc6a683283a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:24 +0000
Subject: [PATCH 20/32] fix: falcon_normalize must count every coefficient of
 s1 and s2 in the norm

The first loop stopped before the last coefficient; the second compared a
memory address with a length, so that its body never ran and s2 was free.
---
 src/ZKNOX_falcon_core.sol | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ZKNOX_falcon_core.sol b/src/ZKNOX_falcon_core.sol
index b5f0f29..f70a892 100644
--- a/src/ZKNOX_falcon_core.sol
+++ b/src/ZKNOX_falcon_core.sol
@@ -59,7 +59,7 @@ function falcon_normalize(
 
     // OPTIMIZATION: Added memory-safe annotation, use lt instead of gt for clarity
     assembly ("memory-safe") {
-        for { let offset := 32 } lt(offset, 16384) { offset := add(offset, 32) } {
+        for { let offset := 32 } lt(offset, 16416) { offset := add(offset, 32) } {
             let s1i := addmod(mload(add(hashed, offset)), sub(q, mload(add(s1, offset))), q) //s1[i] = addmod(hashed[i], q - s1[i], q);
             let cond := gt(s1i, qs1) //s1[i] > qs1 ?
             s1i := add(mul(cond, sub(q, s1i)), mul(sub(1, cond), s1i))
@@ -78,7 +78,8 @@ function falcon_normalize(
             }
         }
 
-        for { let offset := add(s1, 32) } lt(offset, 16384) { offset := add(offset, 32) } {
+        let end := add(s1, 16416)
+        for { let offset := add(s1, 32) } lt(offset, end) { offset := add(offset, 32) } {
             let s1i := mload(offset) //s1[i]
             let cond := gt(s1i, qs1) //s1[i] > qs1 ?
             s1i := add(mul(cond, sub(q, s1i)), mul(sub(1, cond), s1i))
-- 
2.43.0


From 8cc33877e03de2a58edfe08c9077996c4d502059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:24 +0000
Subject: [PATCH 21/32] fix: falcon_normalize must accept a signature whose
 squared norm is the bound

As the C code, the Python reference and the recovery contracts do.
---
 src/ZKNOX_falcon_core.sol | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ZKNOX_falcon_core.sol b/src/ZKNOX_falcon_core.sol
index f70a892..fa52c15 100644
--- a/src/ZKNOX_falcon_core.sol
+++ b/src/ZKNOX_falcon_core.sol
@@ -42,7 +42,7 @@ function falcon_checkPolynomialRange(uint256[] memory polynomial, bool is_compac
 ///      1. Computes s1 = h - s1 (mod q) where h is hash-to-point result
 ///      2. Normalizes both s1 and s2 to centered representatives (-q/2, q/2]
 ///      3. Computes squared L2 norm: ||s1||² + ||s2||²
-///      4. Verifies norm² < sigBound = 34034726
+///      4. Verifies norm² <= sigBound = 34034726
 /// @param s1 First signature component (will be overwritten with h - s1)
 /// @param s2 Second signature component in compacted format (32 words)
 /// @param hashed Hash-to-point result (512 coefficients)
@@ -86,7 +86,7 @@ function falcon_normalize(
             norm := add(norm, mul(s1i, s1i))
         }
 
-        result := gt(sigBound, norm) //norm < SigBound ?
+        result := iszero(gt(norm, sigBound)) //norm <= SigBound ?
     }
 
     return result;
@@ -95,7 +95,7 @@ function falcon_normalize(
 /// @notice Core Falcon-512 verification algorithm with compacted input
 /// @dev Implements the Falcon signature verification equation:
 ///      1. Computes s1 = h - h·s2 (in NTT domain) where h is the public key
-///      2. Verifies ||s1||² + ||s2||² < sigBound
+///      2. Verifies ||s1||² + ||s2||² <= sigBound
 /// @dev Uses compacted polynomial representation for gas efficiency
 /// @param s2 Second signature component (32 uint256 words, compacted)
 /// @param ntth Public key in NTT domain (32 uint256 words, compacted)
-- 
2.43.0


From f02561d3418988c0aaac7aed65a110a4a26f3f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:10 +0000
Subject: [PATCH 22/32] fix: on-chain verification must refuse an s2 with
 coefficients of q or more

falcon_checkPolynomialRange expanded the wrong one of the two formats, let q
itself through and was never called, so that a coefficient c could also be
written c + q and every signature had many accepted encodings.
---
 src/ZKNOX_falcon_core.sol | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ZKNOX_falcon_core.sol b/src/ZKNOX_falcon_core.sol
index fa52c15..b309573 100644
--- a/src/ZKNOX_falcon_core.sol
+++ b/src/ZKNOX_falcon_core.sol
@@ -16,7 +16,7 @@ import "./ZKNOX_NTT_falcon.sol";
 /// @return true if all coefficients are valid (< q), false otherwise
 function falcon_checkPolynomialRange(uint256[] memory polynomial, bool is_compact) pure returns (bool) {
     uint256[] memory a;
-    if (is_compact == false) {
+    if (is_compact) {
         a = _ZKNOX_NTT_Expand(polynomial);
     } else {
         a = polynomial;
@@ -28,7 +28,7 @@ function falcon_checkPolynomialRange(uint256[] memory polynomial, bool is_compac
         let ptr := add(a, 32)
         let endPtr := add(ptr, shl(5, len)) // len * 32
         for {} lt(ptr, endPtr) { ptr := add(ptr, 32) } {
-            if gt(mload(ptr), q) {
+            if iszero(lt(mload(ptr), q)) {
                 result := 0
                 ptr := endPtr // break
             }
@@ -111,6 +111,7 @@ function falcon_core(
 {
     if (hashed.length != 512) return false;
     if (s2.length != 32) return false; //"Invalid signature length"
+    if (!falcon_checkPolynomialRange(s2, true)) return false; //a coefficient has one representation only
 
     result = false;
 
-- 
2.43.0


From 70b45ea9a7f27423172bd1ee7bc8e126051d0a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:41 +0000
Subject: [PATCH 23/32] fix: recover must count the last coefficients of s1 and
 s2 in the norm

---
 src/ZKNOX_epervier.sol    | 2 +-
 src/ZKNOX_ethepervier.sol | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ZKNOX_epervier.sol b/src/ZKNOX_epervier.sol
index e5ba946..d1e211d 100644
--- a/src/ZKNOX_epervier.sol
+++ b/src/ZKNOX_epervier.sol
@@ -48,7 +48,7 @@ contract ZKNOX_epervier {
 
         assembly {
             //normalization
-            for { let offset := 32 } gt(16384, offset) { offset := add(offset, 32) } {
+            for { let offset := 32 } gt(16416, offset) { offset := add(offset, 32) } {
                 let s1i := mload(add(s1, offset))
 
                 let cond := gt(s1i, qs1) //s1[i] > qs1 ?
diff --git a/src/ZKNOX_ethepervier.sol b/src/ZKNOX_ethepervier.sol
index 8ec7b55..895a255 100644
--- a/src/ZKNOX_ethepervier.sol
+++ b/src/ZKNOX_ethepervier.sol
@@ -47,7 +47,7 @@ contract ZKNOX_ethepervier {
 
         assembly {
             //normalization
-            for { let offset := 32 } gt(16384, offset) { offset := add(offset, 32) } {
+            for { let offset := 32 } gt(16416, offset) { offset := add(offset, 32) } {
                 let s1i := mload(add(s1, offset))
 
                 let cond := gt(s1i, qs1) //s1[i] > qs1 ?
-- 
2.43.0


From 6b0b787c4d19c7169360f67969caa2c3dcf54977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:41 +0000
Subject: [PATCH 24/32] fix: recover must refuse coefficients and hints of q or
 more

Otherwise a signature has many accepted encodings: a lane c is also c + q, and
any hint plus a multiple of q passes.
---
 src/ZKNOX_epervier.sol    | 4 ++++
 src/ZKNOX_ethepervier.sol | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/ZKNOX_epervier.sol b/src/ZKNOX_epervier.sol
index d1e211d..cd849cd 100644
--- a/src/ZKNOX_epervier.sol
+++ b/src/ZKNOX_epervier.sol
@@ -8,6 +8,7 @@ pragma solidity ^0.8.25;
 
 import {Test, console} from "forge-std/Test.sol";
 import "./ZKNOX_falcon_utils.sol";
+import "./ZKNOX_falcon_core.sol";
 import "./ZKNOX_NTT_falcon.sol";
 import "./ZKNOX_HashToPoint.sol";
 
@@ -38,6 +39,9 @@ contract ZKNOX_epervier {
         if (salt.length != 40) revert("wrong salt length"); //CVETH-2025-080201: control salt length to avoid potential forge
         if (cs1.length != 32) revert("Invalid s1 length"); //"Invalid s1 length"
         if (cs2.length != 32) revert("Invalid s2 length"); //"Invalid s2 length"
+        if (!falcon_checkPolynomialRange(cs1, true)) revert("Invalid s1 coefficient"); //a coefficient has one representation only
+        if (!falcon_checkPolynomialRange(cs2, true)) revert("Invalid s2 coefficient");
+        if (hint >= q) revert("wrong hint");
 
         uint256[] memory s1 = _ZKNOX_NTT_Expand(cs1); //avoiding another memory declaration
         uint256[] memory s2 = _ZKNOX_NTT_Expand(cs2); //avoiding another memory declaration
diff --git a/src/ZKNOX_ethepervier.sol b/src/ZKNOX_ethepervier.sol
index 895a255..3dcf034 100644
--- a/src/ZKNOX_ethepervier.sol
+++ b/src/ZKNOX_ethepervier.sol
@@ -9,6 +9,7 @@ pragma solidity ^0.8.25;
 import {Test, console} from "forge-std/Test.sol";
 
 import "./ZKNOX_falcon_utils.sol";
+import "./ZKNOX_falcon_core.sol";
 import "./ZKNOX_NTT_falcon.sol";
 import "./ZKNOX_HashToPoint.sol";
 
@@ -37,6 +38,9 @@ contract ZKNOX_ethepervier {
         if (salt.length != 40) revert("wrong salt length"); //CVETH-2025-080201: control salt length to avoid potential forge
         if (cs1.length != 32) revert("Invalid s1 length"); //"Invalid s1 length"
         if (cs2.length != 32) revert("Invalid s2 length"); //"Invalid s2 length"
+        if (!falcon_checkPolynomialRange(cs1, true)) revert("Invalid s1 coefficient"); //a coefficient has one representation only
+        if (!falcon_checkPolynomialRange(cs2, true)) revert("Invalid s2 coefficient");
+        if (hint >= q) revert("wrong hint");
 
         uint256[] memory s1 = _ZKNOX_NTT_Expand(cs1); //avoiding another memory declaration
         uint256[] memory s2 = _ZKNOX_NTT_Expand(cs2); //avoiding another memory declaration
-- 
2.43.0


From 2c642b6af390f3870dffe58578985f83b871a5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:28 +0000
Subject: [PATCH 25/32] fix: make_immutable must stop update from changing the
 tables

The flag was set from construction and update only worked with it set.
---
 src/ZKNOX_NTT.sol | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ZKNOX_NTT.sol b/src/ZKNOX_NTT.sol
index 2c22f3c..3260a64 100644
--- a/src/ZKNOX_NTT.sol
+++ b/src/ZKNOX_NTT.sol
@@ -64,11 +64,11 @@ contract ZKNOX_NTT {
 
         o_psirev = Apsi_rev;
         o_psi_inv_rev = Apsi_inrev;
-        is_immutable = 1;
+        is_immutable = 0;
     }
 
     function update(address Apsi_rev, address Apsi_inrev, uint256 q, uint256 nm1modq) public {
-        if (is_immutable > 0) {
+        if (is_immutable == 0) {
             storage_q = q; //prime field modulus
             storage_nm1modq = nm1modq; //n^-1 mod 12289, used in inverse NTT
 
-- 
2.43.0


From 91c163925fe439e196629c6ec04393912fad90ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:24 +0000
Subject: [PATCH 26/32] fix: _decompress_sig must refuse encodings that are not
 canonical or not in the buffer

It took -0, anything in the bits and bytes after the last coefficient, and read
on in memory after the end of a truncated signature.
---
 src/ZKNOX_falcon_encodings.sol | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/ZKNOX_falcon_encodings.sol b/src/ZKNOX_falcon_encodings.sol
index 8a8c924..c4db903 100644
--- a/src/ZKNOX_falcon_encodings.sol
+++ b/src/ZKNOX_falcon_encodings.sol
@@ -14,12 +14,26 @@ uint256 constant max_in_len = 666;
 //decompress signature starting from offset in buf
 //compared to _ZKNOX_NTT_Decompress, extra testing conditions are set if norm gonna blow
 //because of a too high coefficient
+//only zero padding may follow it
 function _decompress_sig(bytes memory buf, uint256 offset) pure returns (uint256[] memory) {
-    uint256[] memory x = new uint256[](512);
+    (uint256[] memory x, uint256 end) = _decompress_sig_until(buf, offset);
+
+    for (uint256 i = end; i < buf.length; i++) {
+        if (buf[i] != 0) {
+            revert("nonzero padding");
+        }
+    }
+
+    return x;
+}
+
+//same, returning also the position in buf after the last byte read
+function _decompress_sig_until(bytes memory buf, uint256 offset) pure returns (uint256[] memory x, uint256 v) {
+    x = new uint256[](512);
 
     uint32 acc = 0;
     uint256 acc_len = 0;
-    uint256 v = offset;
+    v = offset;
 
     for (uint256 u = 0; u < n; u++) {
         uint256 s;
@@ -31,6 +45,7 @@ function _decompress_sig(bytes memory buf, uint256 offset) pure returns (uint256
         */
 
         assembly {
+            if iszero(lt(v, mload(buf))) { revert(0, 0) } // truncated
             let temp := byte(0, mload(add(add(buf, 32), v)))
             acc := or(shl(8, acc), temp)
             v := add(v, 1)
@@ -40,6 +55,7 @@ function _decompress_sig(bytes memory buf, uint256 offset) pure returns (uint256
 
             for {} eq(0, 0) {} {
                 if eq(0, acc_len) {
+                    if iszero(lt(v, mload(buf))) { revert(0, 0) } // truncated
                     acc := or(shl(8, acc), byte(0, mload(add(add(buf, 32), v))))
                     v := add(1, v)
                     acc_len := 8
@@ -64,9 +80,9 @@ function _decompress_sig(bytes memory buf, uint256 offset) pure returns (uint256
         /*
         * "-0" is forbidden.
         */
-        //	if ( ((s==0) && (m==0)) ) {//TODO: replace
-        //		revert("incorrect zero encoding");
-        //	}
+        if (s != 0 && m == 0) {
+            revert("incorrect zero encoding");
+        }
 
         assembly {
             let temp := m // x[u] = m;
@@ -83,7 +99,10 @@ function _decompress_sig(bytes memory buf, uint256 offset) pure returns (uint256
         revert("too long");
     }
 
-    return x;
+    //the bits left in the last byte are zero
+    if ((uint256(acc) & ((uint256(1) << acc_len) - 1)) != 0) {
+        revert("nonzero padding");
+    }
 }
 
 /*
-- 
2.43.0


From ff3bb483f4b3cd254c377fb7be681484096fbb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:49 +0000
Subject: [PATCH 27/32] fix: decompress_KAT must check slen and the length of
 the key

Any slen was taken, and bytes after the key or the signature were ignored.
---
 src/ZKNOX_falcon_encodings.sol | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/ZKNOX_falcon_encodings.sol b/src/ZKNOX_falcon_encodings.sol
index c4db903..75d2119 100644
--- a/src/ZKNOX_falcon_encodings.sol
+++ b/src/ZKNOX_falcon_encodings.sol
@@ -113,12 +113,19 @@ function _decompress_sig_until(bytes memory buf, uint256 offset) pure returns (u
 	 *   nonce                40 bytes
 	 *   message              mlen bytes
 	 *   signature            slen bytes
+     * Nothing else follows any of these.
 	 */
 function decompress_KAT(bytes memory pk, bytes memory sm, uint256 mlen)
     pure
     returns (uint256[] memory h, uint256[] memory s2, bytes memory salt, bytes memory message)
 {
     uint256 slen = (uint256(uint8(sm[0])) << 8) + uint256(uint8(sm[1]));
+    if (pk.length != 897) {
+        revert("wrong public key length");
+    }
+    if (2 + 40 + mlen + slen != sm.length) {
+        revert("wrong signature length");
+    }
 
     /*
     * Decode public key.
@@ -143,7 +150,10 @@ function decompress_KAT(bytes memory pk, bytes memory sm, uint256 mlen)
         revert("wrong header sigbytes");
     }
 
-    s2 = _decompress_sig(sm, 2 + 40 + mlen + 1);
+    (s2, i) = _decompress_sig_until(sm, 2 + 40 + mlen + 1);
+    if (i != sm.length) {
+        revert("wrong signature length");
+    }
 
     return (h, s2, salt, message);
 }
-- 
2.43.0


From dcdbb04d628229779d41b64c7bfb7034233fd67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:06 +0000
Subject: [PATCH 28/32] fix: the ERC-7913 entry points must refuse signatures
 of other lengths

Up to 31 bytes after the signature were ignored, and the length of a signature
of fewer than 40 bytes wrapped around.
---
 src/ZKNOX_ethfalcon.sol | 2 ++
 src/ZKNOX_falcon.sol    | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/ZKNOX_ethfalcon.sol b/src/ZKNOX_ethfalcon.sol
index b9eb64f..c1f4ccb 100644
--- a/src/ZKNOX_ethfalcon.sol
+++ b/src/ZKNOX_ethfalcon.sol
@@ -77,6 +77,8 @@ contract ZKNOX_ethfalcon is ISigVerifier {
     }
 
     function verify(bytes calldata _pubkey, bytes32 _digest, bytes calldata _sig) external view returns (bytes4) {
+        if (_sig.length != SALT_LEN + 32 * falcon_S256) return 0xFFFFFFFF; //salt and s2, nothing else
+
         address pkContractAddress;
         assembly {
             pkContractAddress := shr(96, calldataload(_pubkey.offset))
diff --git a/src/ZKNOX_falcon.sol b/src/ZKNOX_falcon.sol
index c1f4635..43dc085 100644
--- a/src/ZKNOX_falcon.sol
+++ b/src/ZKNOX_falcon.sol
@@ -79,6 +79,8 @@ contract ZKNOX_falcon is ISigVerifier {
     }
 
     function verify(bytes calldata _pubkey, bytes32 _digest, bytes calldata _sig) external view returns (bytes4) {
+        if (_sig.length != SALT_LEN + 32 * falcon_S256) return 0xFFFFFFFF; //salt and s2, nothing else
+
         address pkContractAddress;
         assembly {
             pkContractAddress := shr(96, calldataload(_pubkey.offset))
-- 
2.43.0


From 9d2a9dfef636d08806190288fa93c9c3225f47f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:46 +0000
Subject: [PATCH 29/32] fix: the recursive verifier must check the length of
 the salt

As the other verifiers do: otherwise a signature also verifies for the
messages that result from moving bytes between message and salt.
---
 external/ETHFalcon_Recursive.sol | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/external/ETHFalcon_Recursive.sol b/external/ETHFalcon_Recursive.sol
index 9a0f9d3..b5f420e 100644
--- a/external/ETHFalcon_Recursive.sol
+++ b/external/ETHFalcon_Recursive.sol
@@ -32,6 +32,7 @@ contract ETHFalcon {
         uint256[] memory h // public key
     ) public view returns (address ret) {
         require(h.length == 512, "Invalid public key length");
+        require(signature.salt.length == 40, "Invalid salt length"); //CVETH-2025-080201: control salt length to avoid potential forge
         require(signature.s1.length == 512, "Invalid signature length");
         uint256[] memory s1 = new uint256[](512);
         for (uint256 i = 0; i < 512; i++) {
@@ -78,6 +79,7 @@ contract ETHFalcon {
         uint256[] memory ntt_h // public key, ntt form
     ) public view returns (address ret) {
         require(ntt_h.length == 512, "Invalid public key length");
+        require(signature.salt.length == 40, "Invalid salt length"); //CVETH-2025-080201: control salt length to avoid potential forge
         require(signature.s1.length == 512, "Invalid signature length");
         uint256[] memory s1 = new uint256[](512);
         for (uint256 i = 0; i < 512; i++) {
-- 
2.43.0


From cb0ef4a4910098c14fb954a84d7e00c7ef779905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:13 +0000
Subject: [PATCH 30/32] fix: forgery.py verifies its signature with the public
 key

---
 pythonref/forgery.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pythonref/forgery.py b/pythonref/forgery.py
index 14aeef2..57aa14b 100644
--- a/pythonref/forgery.py
+++ b/pythonref/forgery.py
@@ -1,8 +1,9 @@
-from falcon import HEAD_LEN, SALT_LEN, Params, decompress, SecretKey
+from falcon import HEAD_LEN, SALT_LEN, Params, decompress, PublicKey, SecretKey
 from keccaxof import KeccaXOF
 
 n = 512
 sk = SecretKey(n)
+pk = PublicKey(n, sk.h)
 
 salt = "Send ______ 1 USDC ______ to vitalik.eth"
 message = " and 50000 USDC to RektMe.eth!"
@@ -14,7 +15,7 @@ def constant_salt(x):
 
 σ = sk.sign(message.encode(), randombytes=constant_salt, xof=KeccaXOF)
 
-assert sk.verify(message.encode(), σ, xof=KeccaXOF)
+assert pk.verify(message.encode(), σ, xof=KeccaXOF)
 
 # recover s1 in the Solidity format (as in verification)
 enc_s = σ[HEAD_LEN + SALT_LEN:]
-- 
2.43.0


From 75254999b737e0b77db6439eb10a8be184822d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:59 +0000
Subject: [PATCH 31/32] fix: saga.py: the chi-square test applies the rounding
 correction to the buckets it tests

---
 pythonref/scripts/saga.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pythonref/scripts/saga.py b/pythonref/scripts/saga.py
index 8fbf0a7..aa53580 100644
--- a/pythonref/scripts/saga.py
+++ b/pythonref/scripts/saga.py
@@ -173,8 +173,8 @@ class UnivariateSamples:
         obs.pop(-1)
         exp.pop(-1)
         exp = [round(prob * self.nsamples) for prob in exp]
-        diff = self.nsamples - sum(exp_histogram.values())
-        exp_histogram[int(round(self.exp_mu))] += diff
+        # The two sums must agree: the largest bucket takes the rounding error
+        exp[exp.index(max(exp))] += sum(obs) - sum(exp)
         res = chisquare(obs, f_exp=exp)
         return res
 
-- 
2.43.0


From 7b3c2447085f2b21625631c12d53c62f6c46d7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:59 +0000
Subject: [PATCH 32/32] fix: saga.py: diagcov sums the diagonals below the
 leading one of the quarter it describes

---
 pythonref/scripts/saga.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonref/scripts/saga.py b/pythonref/scripts/saga.py
index aa53580..59807dd 100644
--- a/pythonref/scripts/saga.py
+++ b/pythonref/scripts/saga.py
@@ -367,7 +367,7 @@ def diagcov(cov_mat, nsamples):
         diagsum[i] = sum(cov_mat[j][i + j] for j in range(n0 - i))
         diagsum[i + n0] = sum(cov_mat[n0 + j][n0 + i + j] for j in range(n0 - i))
         diagsum[i + 2 * n0] = sum(cov_mat[j][n0 + i + j] for j in range(n0 - i))
-        diagsum[i + 3 * n0] = sum(cov_mat[j][n0 - i + j] for j in range(n0 - i))
+        diagsum[i + 3 * n0] = sum(cov_mat[i + j][n0 + j] for j in range(n0 - i))
     # Diagnorm contains the normalized sums, which should be normal
     diagnorm = diagsum[:]
     for i in range(1, n0):
-- 
2.43.0

