From 22ea215287dfb53669fa38cf90d18902400bcbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:33 +0000
Subject: [PATCH 01/20] fix: keep byte and lane accesses of the Keccak state in
 order (strict aliasing)

---
 third_party/sha3.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/third_party/sha3.c b/third_party/sha3.c
index 74ce6bc..1f6e7f2 100644
--- a/third_party/sha3.c
+++ b/third_party/sha3.c
@@ -37,7 +37,10 @@ static const uint64_t KeccakF21600RoundConstants[24] =
 				(uint64_t) 0x8000000080008008ULL
 		};
 
-static void KeccakF2(uint64_t *state) {
+/* The state of a hashState is declared as bytes but permuted as 64-bit lanes. */
+typedef uint64_t __attribute__ ((may_alias)) KeccakLane;
+
+static void KeccakF2(KeccakLane *state) {
 
 	uint64_t Ba, Be, Bi, Bo, Bu;
 	uint64_t Ca, Ce, Ci, Co, Cu;
@@ -399,7 +402,7 @@ HashReturn Update(hashState *state, const BitSequence *data, DataLength databitl
 			state->s[i] = state->s[i] ^ tmp[j];
 		}
 
-		KeccakF2((uint64_t *) state->s);
+		KeccakF2((KeccakLane *) state->s);
 
 		tmp += ((state->r - state->statebitlen) / 8);
 		lentmp -= (state->r - state->statebitlen);
@@ -429,7 +432,7 @@ HashReturn Final(hashState *state, BitSequence *hashval) {
 	state->s[sbytelen] ^= 0x06;
 	state->s[(state->r / 8) - 1] ^= 0x80;
 
-	KeccakF2((uint64_t *) state->s);
+	KeccakF2((KeccakLane *) state->s);
 
 	memcpy(hashval, state->s, state->r / 8);
 
@@ -447,14 +450,14 @@ HashReturn Final2(hashState *state, BitSequence *hashval, unsigned int d_byte) {
 	state->s[sbytelen] ^= 0x1F;
 	state->s[r - 1] ^= 0x80;
 
-	KeccakF2((uint64_t *) state->s);
+	KeccakF2((KeccakLane *) state->s);
 
 
 	while (d_byte > r) {
 
 		memcpy((hashval + j), state->s, r);
 
-		KeccakF2((uint64_t *) state->s);
+		KeccakF2((KeccakLane *) state->s);
 		j += r;
 		d_byte -= r;
 	}
-- 
2.43.0


From 4a3a2dd7820f6de00a1d9981b107255a3658ba0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:22 +0000
Subject: [PATCH 02/20] fix: reject signatures whose scalar is out of range
 (RFC 8032 5.1.7, 5.2.7)

---
 src/sign255.c | 27 +++++++++++++++++++++++++++
 src/sign448.c | 31 +++++++++++++++++++++++++++++++
 2 files changed, 58 insertions(+)

diff --git a/src/sign255.c b/src/sign255.c
index b4618ca..bfcbde8 100644
--- a/src/sign255.c
+++ b/src/sign255.c
@@ -233,6 +233,29 @@ void modular_reduction_ed25519(uint8_t *a) {
   reduce64bits(pA);
 }
 
+/**
+ * Checks whether the scalar s is fully reduced, i.e. s < \ell; RFC 8032
+ * (Section 5.1.7) requires rejecting any signature that does not satisfy it.
+ *
+ * @param s A 32-byte scalar.
+ * @return 1 if s < \ell, 0 otherwise.
+ */
+static inline int is_reduced_ed25519(const uint8_t *s) {
+  static const uint8_t ell[ED25519_KEY_SIZE_BYTES_PARAM] = {
+      0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58,
+      0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14,
+      0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
+      0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x10
+  };
+  int i;
+  for (i = ED25519_KEY_SIZE_BYTES_PARAM - 1; i >= 0; i--) {
+    if (s[i] != ell[i]) {
+      return s[i] < ell[i];
+    }
+  }
+  return 0;
+}
+
 /**
  *
  * Calculates:
@@ -487,6 +510,10 @@ static inline int ed25519_verify_all(
   if(point_decoding_ed25519(&A, NULL, (uint8_t *) public_key)!=0)
     return EDDSA_ERROR_PUBLICKEY;
 
+  if (!is_reduced_ed25519(signature + ED25519_KEY_SIZE_BYTES_PARAM)) {
+    return EDDSA_INVALID_SIGNATURE;
+  }
+
   sph_sha512_init(&hash_context);
   if (pureEdDSA == 0) {
     sph_sha512(&hash_context, prefix, 34);
diff --git a/src/sign448.c b/src/sign448.c
index 997e7c8..7a5d11d 100644
--- a/src/sign448.c
+++ b/src/sign448.c
@@ -63,6 +63,33 @@ static inline uint8_t *allocEd448_Signature(void) {
   return (uint8_t *) allocate_bytes(ED448_SIG_SIZE_BYTES_PARAM * sizeof(uint8_t));
 }
 
+/**
+ * Checks whether the scalar s is fully reduced, i.e. s < \ell; RFC 8032
+ * (Section 5.2.7) requires rejecting any signature that does not satisfy it.
+ *
+ * @param s A 57-byte scalar.
+ * @return 1 if s < \ell, 0 otherwise.
+ */
+static inline int is_reduced_ed448(const uint8_t *s) {
+  static const uint8_t ell[ED448_KEY_SIZE_BYTES_PARAM] = {
+      0xf3, 0x44, 0x58, 0xab, 0x92, 0xc2, 0x78, 0x23,
+      0x55, 0x8f, 0xc5, 0x8d, 0x72, 0xc2, 0x6c, 0x21,
+      0x90, 0x36, 0xd6, 0xae, 0x49, 0xdb, 0x4e, 0xc4,
+      0xe9, 0x23, 0xca, 0x7c, 0xff, 0xff, 0xff, 0xff,
+      0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
+      0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
+      0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x3f,
+      0x00
+  };
+  int i;
+  for (i = ED448_KEY_SIZE_BYTES_PARAM - 1; i >= 0; i--) {
+    if (s[i] != ell[i]) {
+      return s[i] < ell[i];
+    }
+  }
+  return 0;
+}
+
 /**
  * Calculates:
  *     s = r+k*a  (mod 2^246-\ell)
@@ -297,6 +324,10 @@ static int ed448_verify_all(
     return EDDSA_ERROR_PUBLICKEY;
   }
 
+  if (!is_reduced_ed448(signature + ED448_KEY_SIZE_BYTES_PARAM)) {
+    return EDDSA_INVALID_SIGNATURE;
+  }
+
   double_point_mult_4w_ed448(Q, signature + ED448_KEY_SIZE_BYTES_PARAM, H_RAM, &A);
   return (memcmp(signature, Q, ED448_KEY_SIZE_BYTES_PARAM) == 0) ? EDDSA_VERIFICATION_OK : EDDSA_INVALID_SIGNATURE;
 }
-- 
2.43.0


From ce16d93e56062e8f8dbec989f85384574b7b6236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:57 +0000
Subject: [PATCH 03/20] fix: never return from the random generator with an
 unfilled buffer

---
 third_party/prng.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/third_party/prng.c b/third_party/prng.c
index 17afcde..36aa1fc 100644
--- a/third_party/prng.c
+++ b/third_party/prng.c
@@ -1,3 +1,4 @@
+#include <errno.h>
 #include <stdint.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -6,6 +7,10 @@
  * Taken from: https://github.com/relic-toolkit/relic/src/rand/relic_rand_call.c
  *
  * @warning Provide a secure random number generator.
+ *
+ * An interrupted system call is retried; when the source is unavailable the
+ * process is aborted, since the caller could not tell that the buffer does not
+ * hold random bytes.
  * @param buffer
  * @param num_bytes
  */
@@ -15,17 +20,25 @@ void prgn_random_bytes(uint8_t *buffer, size_t num_bytes) {
   size_t l = 0;
   int c, fd = open("/dev/urandom", O_RDONLY);
 
+  while (fd == -1 && errno == EINTR) {
+    fd = open("/dev/urandom", O_RDONLY);
+  }
   if (fd == -1) {
     printf("Error opening /dev/urandom\n");
+    abort();
   }
 
   l = 0;
   do {
     c = read(fd, buffer + l, num_bytes - l);
-    l += c;
     if (c == -1) {
+      if (errno == EINTR) {
+        continue;
+      }
       printf("Error reading /dev/urandom\n");
+      abort();
     }
+    l += c;
   } while (l < num_bytes);
 
   close(fd);
-- 
2.43.0


From 6f36b2c0f65aed84a6fe8d4dc663401e5a7811aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:11 +0000
Subject: [PATCH 04/20] fix: hash to the curve without the copies of the
 message when memory is exhausted

---
 src/hash255.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/hash255.c b/src/hash255.c
index e897662..0fe93e4 100644
--- a/src/hash255.c
+++ b/src/hash255.c
@@ -42,6 +42,18 @@ void hash_to_field_2w(argElement_1w u0, argElement_1w u1,
   Digest h0_msg, h1_msg;
   message[0] = (uint8_t *)_mm_malloc(mlen + 1, ALIGN_BYTES);
   message[1] = (uint8_t *)_mm_malloc(mlen + 1, ALIGN_BYTES);
+  if (message[0] == NULL || message[1] == NULL) {
+    /* no room for the copies: hash sequentially, which needs none. */
+    if (message[0] != NULL) {
+      _mm_free(message[0]);
+    }
+    if (message[1] != NULL) {
+      _mm_free(message[1]);
+    }
+    hash_to_field(u0, 0, msg, mlen);
+    hash_to_field(u1, 1, msg, mlen);
+    return;
+  }
   digest[0] = h0_msg;
   digest[1] = h1_msg;
   memcpy(message[0] + 1, msg, mlen);
-- 
2.43.0


From 01cd138591e9c506a8c2f86700014a48631cf941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:48 +0000
Subject: [PATCH 05/20] fix: negate all four lanes in the four-lane field of
 2^255-19

The neg entry of Fp25519._4w_red pointed to the two-lane routine, which
works on 5 vectors only, so the upper digits were left alone.
---
 src/fp255.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fp255.c b/src/fp255.c
index 8fe2fce..7ec4d7f 100644
--- a/src/fp255.c
+++ b/src/fp255.c
@@ -138,7 +138,7 @@ const PrimeField Fp25519 = {
             .add = SUFFIX(add,4,redradix),
             .cmp = SUFFIX(cmp,4,redradix),
             .mul = SUFFIX(mul,4,redradix),
-            .neg = SUFFIX(neg,2,redradix),
+            .neg = SUFFIX(neg,4,redradix),
             .ngz = SUFFIX(ngz,4,redradix),
             .sqr = SUFFIX(sqr,4,redradix),
             .srt = SUFFIX(srt,4,redradix),
-- 
2.43.0


From 2eb4fb8a3bc4acfdb86d05948887387f17741ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:48 +0000
Subject: [PATCH 06/20] fix: write only the digest in Final of SHA-3

It copied a whole rate block (136 bytes for SHA3-256) into the digest of
the caller, which has hashbitlen/8 bytes.
---
 third_party/sha3.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/third_party/sha3.c b/third_party/sha3.c
index 1f6e7f2..db07540 100644
--- a/third_party/sha3.c
+++ b/third_party/sha3.c
@@ -434,7 +434,7 @@ HashReturn Final(hashState *state, BitSequence *hashval) {
 
 	KeccakF2((KeccakLane *) state->s);
 
-	memcpy(hashval, state->s, state->r / 8);
+	memcpy(hashval, state->s, state->hashbitlen / 8);
 
 	return SUCCESS;
 }
-- 
2.43.0


From 32aca1f48761f19e5ff2a023d9b575c34ceaf94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:25 +0000
Subject: [PATCH 07/20] fix: refuse public keys that are not the canonical
 encoding of a point

RFC 8032 5.1.3 and 5.2.3: decoding fails when y is not reduced, when no
square root exists, and when x is zero with the sign bit set. The first and
the last were not checked by either scheme, the second not by Ed25519, so a
signature verified under more than one encoding of the same key.
---
 src/edwards255.c | 21 +++++++++++++++++++++
 src/edwards448.c | 13 ++++++++++++-
 2 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/src/edwards255.c b/src/edwards255.c
index 9cc99e6..71a341a 100644
--- a/src/edwards255.c
+++ b/src/edwards255.c
@@ -20,6 +20,7 @@
 
 #include "edwards255.h"
 #include "table_verf_w7_ed25519.h"
+#include <string.h>
 
 #if   LOOKUP_TABLE_SIZE == LUT_12KB
 #include "table_sign_w4_12k_ed25519.h"
@@ -1102,6 +1103,11 @@ static inline int point_decoding_ed25519(
   Fp25519._1w_full.arith.misc.copy(u, (argElement_1w) A);
   u[3] &= ((uint64_t) 1 << 63) - 1;
   Fp25519._1w_full.arith.misc.copy(Y, u);
+  /*  the encoding of y must be canonical */
+  modp_Fp255_1w_fullradix(u);
+  if (memcmp(u, Y, SIZE_FP25519) != 0) {
+    return -1;
+  }
   /*  u = y^2    */
   Fp25519._1w_full.arith.sqr(u);
   /*  v = dy^2   */
@@ -1112,10 +1118,25 @@ static inline int point_decoding_ed25519(
   Fp25519._1w_full.arith.add(v, v, one);
   /*  X = sqrt(u/v) */
   invsqrt_Fp255_1w_fullradix(X, u, v);
+  /*  Checking whether v*X^2 == u,
+   *  note that invsqrt negates u
+   */
+  Fp25519._1w_full.arith.misc.copy(T, X);
+  Fp25519._1w_full.arith.sqr(T);
+  Fp25519._1w_full.arith.mul(T, T, v);
+  Fp25519._1w_full.arith.neg(u);
+  if (Fp25519._1w_full.arith.cmp(T, u) != 0) {
+    /* no square root exists */
+    return -1;
+  }
   /*  Checking whether
    *  X is positive or negative
    */
   modp_Fp255_1w_fullradix(X);
+  if (bit_X == 1 && (X[0] | X[1] | X[2] | X[3]) == 0) {
+    /* zero has no negative */
+    return -1;
+  }
   if (bit_X == (X[0] & 0x1)) {
     Fp25519._1w_full.arith.neg(X);
   }
diff --git a/src/edwards448.c b/src/edwards448.c
index 53c9743..4993e52 100644
--- a/src/edwards448.c
+++ b/src/edwards448.c
@@ -791,13 +791,19 @@ static int point_decoding_ed448(
   EltFp448_1w_redradix a, b, c, d;
   EltFp448_1w_redradix u, v, v2;
   EltFp448_1w_redradix uv, u2, u3v, u5v, u5v3, u5v3_exp;
-  Ed448_PublicKey buf;
+  Ed448_PublicKey buf, canonical;
 
   memcpy(buf, A, ED448_KEY_SIZE_BYTES_PARAM);
   int8_t bit_X = buf[ED448_KEY_SIZE_BYTES_PARAM - 1] >> 7;
 
   buf[ED448_KEY_SIZE_BYTES_PARAM - 1] &= 0x7F;
   Fp448._1w_red.arith.misc.unser(Y, buf);
+  /* the encoding of y must be canonical */
+  Fp448._1w_red.arith.misc.ser(canonical, Y);
+  if (buf[ED448_KEY_SIZE_BYTES_PARAM - 1] != 0 ||
+      memcmp(canonical, buf, SIZE_FP448) != 0) {
+    return -1;
+  }
   buf[ED448_KEY_SIZE_BYTES_PARAM - 1] |= bit_X << 7;
 
   Fp448._1w_red.arith.misc.copy(u, Y);
@@ -830,6 +836,11 @@ static int point_decoding_ed448(
     /* no square root exists */
     return -1;
   }
+  Fp448._1w_red.arith.misc.zero(T);
+  if (bit_X != 0 && Fp448._1w_red.arith.cmp(X, T) == 0) {
+    /* zero has no negative */
+    return -1;
+  }
 
   /**
    * Checking whether
-- 
2.43.0


From 8eb4bbb7adc6f4ccb500b27a31261e3156249efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:25 +0000
Subject: [PATCH 08/20] fix: compare all bits of field elements in reduced
 radix

Elements whose bytes differ in even bits only were reported as equal by the
one, two and four lane engines, unlike by the full radix engine.
---
 src/eltfp25519_1w_redradix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eltfp25519_1w_redradix.c b/src/eltfp25519_1w_redradix.c
index b2e733e..19fef80 100644
--- a/src/eltfp25519_1w_redradix.c
+++ b/src/eltfp25519_1w_redradix.c
@@ -434,7 +434,7 @@ DECL(int, cmp)(argElement_1w a, argElement_1w b) {
   ALIGN uint8_t b_bytes[SIZE_FP25519];
   FN(ser)(a_bytes, a);
   FN(ser)(b_bytes, b);
-  return cmp_bytes(a_bytes, b_bytes, SIZE_FP25519) & 0x1;
+  return cmp_bytes(a_bytes, b_bytes, SIZE_FP25519) != 0;
 }
 
 DECL(void, cmv)(int bit, argElement_1w c, argElement_1w a, argElement_1w b) {
-- 
2.43.0


From c3f5f878dcfcc271b776fe4be4f8ffc3d9b716f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:55 +0000
Subject: [PATCH 09/20] fix: do not write to the operands of comparisons and
 sign tests

The full radix engines reduced the operands in place, so areEqual and the
comparison of field elements wrote to objects the caller may share between
threads or keep in read-only memory.
---
 src/eltfp25519_1w_fullradix.c | 13 ++++++++-----
 src/eltfp448_1w_fullradix.c   | 19 +++++++++++--------
 2 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/eltfp25519_1w_fullradix.c b/src/eltfp25519_1w_fullradix.c
index de0dc1d..bd7c614 100644
--- a/src/eltfp25519_1w_fullradix.c
+++ b/src/eltfp25519_1w_fullradix.c
@@ -832,14 +832,17 @@ DECL(void, unser)(argElement_1w c, uint8_t *buffer) {
 }
 
 DECL(int, sgn)(argElement_1w c) {
-  FN(modp)(c);
-  return c[0]&0x1;
+  ALIGN uint8_t c_bytes[SIZE_FP25519];
+  FN(ser)(c_bytes, c);
+  return c_bytes[0] & 0x1;
 }
 
 DECL(int, cmp)(argElement_1w a, argElement_1w b) {
-  FN(modp)(a);
-  FN(modp)(b);
-  return cmp_bytes((uint8_t *) a, (uint8_t *) b, SIZE_FP25519);
+  ALIGN uint8_t a_bytes[SIZE_FP25519];
+  ALIGN uint8_t b_bytes[SIZE_FP25519];
+  FN(ser)(a_bytes, a);
+  FN(ser)(b_bytes, b);
+  return cmp_bytes(a_bytes, b_bytes, SIZE_FP25519);
 }
 
 DECL(void, print)(FILE *file, argElement_1w a) {
diff --git a/src/eltfp448_1w_fullradix.c b/src/eltfp448_1w_fullradix.c
index 2fc565e..462130d 100644
--- a/src/eltfp448_1w_fullradix.c
+++ b/src/eltfp448_1w_fullradix.c
@@ -156,11 +156,6 @@ DECL(void, modp)(argElement_1w c) {
   FN(sub)(c, c, p);
 }
 
-DECL(int, sgn)(argElement_1w c) {
-  FN(modp)(c);
-  return c[0]&0x1;
-}
-
 DECL(void, ser)(uint8_t *buffer, argElement_1w c) {
   FN(copy)((argElement_1w)buffer,c);
   FN(modp)((argElement_1w)buffer);
@@ -171,10 +166,18 @@ DECL(void, unser)(argElement_1w c, uint8_t *buffer) {
   FN(modp)(c);
 }
 
+DECL(int, sgn)(argElement_1w c) {
+  ALIGN uint8_t c_bytes[SIZE_FP448];
+  FN(ser)(c_bytes, c);
+  return c_bytes[0] & 0x1;
+}
+
 DECL(int, cmp)(argElement_1w a, argElement_1w b) {
-  FN(modp)(a);
-  FN(modp)(b);
-  return cmp_bytes((uint8_t *) a, (uint8_t *) b, SIZE_FP448);
+  ALIGN uint8_t a_bytes[SIZE_FP448];
+  ALIGN uint8_t b_bytes[SIZE_FP448];
+  FN(ser)(a_bytes, a);
+  FN(ser)(b_bytes, b);
+  return cmp_bytes(a_bytes, b_bytes, SIZE_FP448);
 }
 
 DECL(void, print)(FILE *file, argElement_1w a) {
-- 
2.43.0


From a1abac1ba8112da85c64a6c669eec2cdc8b4300c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:50 +0000
Subject: [PATCH 10/20] fix: two-element products of Fp448 address their
 operands in words, not bytes

intmul2, intsqr2 and reduce2 took the second element 56 words behind the
first and wrote the second product 112 words behind the first, far outside
of the two-element buffers they are given.
---
 src/eltfp448_1w_fullradix.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/eltfp448_1w_fullradix.c b/src/eltfp448_1w_fullradix.c
index 462130d..6885518 100644
--- a/src/eltfp448_1w_fullradix.c
+++ b/src/eltfp448_1w_fullradix.c
@@ -866,17 +866,17 @@ DECL(void, reduce)(argElement_1w c, argElement_1w a) {
 
 DECL(void, intmul2_mulxadx)(argElement_1w c, argElement_1w a, argElement_1w b)  {
   FN(intmul_mulxadx)(c,a,b);
-  FN(intmul_mulxadx)(c+2*SIZE_FP448,a+SIZE_FP448,b+SIZE_FP448);
+  FN(intmul_mulxadx)(c+2*NUM_DIGITS_FP448_X64,a+NUM_DIGITS_FP448_X64,b+NUM_DIGITS_FP448_X64);
 }
 
 DECL(void, intmul2_mulx)(argElement_1w c, argElement_1w a, argElement_1w b) {
   FN(intmul_mulx)(c,a,b);
-  FN(intmul_mulx)(c+2*SIZE_FP448,a+SIZE_FP448,b+SIZE_FP448);
+  FN(intmul_mulx)(c+2*NUM_DIGITS_FP448_X64,a+NUM_DIGITS_FP448_X64,b+NUM_DIGITS_FP448_X64);
 }
 
 DECL(void, intmul2_mulq)(argElement_1w c, argElement_1w a, argElement_1w b) {
   FN(intmul_mulq)(c,a,b);
-  FN(intmul_mulq)(c+2*SIZE_FP448,a+SIZE_FP448,b+SIZE_FP448);
+  FN(intmul_mulq)(c+2*NUM_DIGITS_FP448_X64,a+NUM_DIGITS_FP448_X64,b+NUM_DIGITS_FP448_X64);
 }
 
 DECL(void, intmul2)(argElement_1w c, argElement_1w a, argElement_1w b) {
@@ -893,17 +893,17 @@ DECL(void, intmul2)(argElement_1w c, argElement_1w a, argElement_1w b) {
 
 DECL(void, intsqr2_mulxadx)(argElement_1w c, argElement_1w a) {
   FN(intsqr_mulxadx)(c,a);
-  FN(intsqr_mulxadx)(c+2*SIZE_FP448,a+SIZE_FP448);
+  FN(intsqr_mulxadx)(c+2*NUM_DIGITS_FP448_X64,a+NUM_DIGITS_FP448_X64);
 }
 
 DECL(void, intsqr2_mulx)(argElement_1w c, argElement_1w a) {
   FN(intsqr_mulx)(c,a);
-  FN(intsqr_mulx)(c+2*SIZE_FP448,a+SIZE_FP448);
+  FN(intsqr_mulx)(c+2*NUM_DIGITS_FP448_X64,a+NUM_DIGITS_FP448_X64);
 }
 
 DECL(void, intsqr2_mulq)(argElement_1w c, argElement_1w a) {
   FN(intsqr_mulq)(c,a);
-  FN(intsqr_mulq)(c+2*SIZE_FP448,a+SIZE_FP448);
+  FN(intsqr_mulq)(c+2*NUM_DIGITS_FP448_X64,a+NUM_DIGITS_FP448_X64);
 }
 
 DECL(void, intsqr2)(argElement_1w c, argElement_1w a) {
@@ -920,12 +920,12 @@ DECL(void, intsqr2)(argElement_1w c, argElement_1w a) {
 
 DECL(void, reduce2_adx)(argElement_1w c, argElement_1w a) {
   FN(reduce_adx)(c,a);
-  FN(reduce_adx)(c+2*SIZE_FP448,a+SIZE_FP448);
+  FN(reduce_adx)(c+NUM_DIGITS_FP448_X64,a+2*NUM_DIGITS_FP448_X64);
 }
 
 DECL(void, reduce2_leg)(argElement_1w c, argElement_1w a) {
   FN(reduce_leg)(c,a);
-  FN(reduce_leg)(c+2*SIZE_FP448,a+SIZE_FP448);
+  FN(reduce_leg)(c+NUM_DIGITS_FP448_X64,a+2*NUM_DIGITS_FP448_X64);
 }
 
 DECL(void, reduce2)(argElement_1w c, argElement_1w a) {
-- 
2.43.0


From 05aef7f2607efa3e3c19ec47192ce173d90f0753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:50 +0000
Subject: [PATCH 11/20] fix: Ed448 key decoding kept u = y^2-1 and v = d*y^2-1
 as negative limbs

When the lowest limb of y^2 (or d*y^2) is zero, subtracting one from it
alone wrapped around; the multiplications read it as a large positive limb
and valid public keys were refused.
---
 src/edwards448.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/edwards448.c b/src/edwards448.c
index 4993e52..b540868 100644
--- a/src/edwards448.c
+++ b/src/edwards448.c
@@ -787,6 +787,7 @@ static int point_decoding_ed448(
       0xfffffff, 0xfffffff,
       0xfffffff, 0xfffffff
   };
+  const EltFp448_1w_redradix one = {0x1};
   EltFp448_1w_redradix X, Y, Z, T;
   EltFp448_1w_redradix a, b, c, d;
   EltFp448_1w_redradix u, v, v2;
@@ -809,8 +810,10 @@ static int point_decoding_ed448(
   Fp448._1w_red.arith.misc.copy(u, Y);
   Fp448._1w_red.arith.sqr(u);  /* y^2 */
   Fp448._1w_red.arith.mul(v, u, (argElement_1w) param_curve_d);/* dy^2 */
-  u[0] = u[0] - 1;  /* u=y^2-1 */
-  v[0] = v[0] - 1;  /* v=dy^2-1 */
+  Fp448._1w_red.arith.sub(u, u, (argElement_1w) one);  /* u=y^2-1 */
+  new_compressfast_Fp448_1w_redradix(u);
+  Fp448._1w_red.arith.sub(v, v, (argElement_1w) one);  /* v=dy^2-1 */
+  new_compressfast_Fp448_1w_redradix(v);
 
   Fp448._1w_red.arith.mul(uv, u, v);      /* uv */
   Fp448._1w_red.arith.misc.copy(u2, u);
-- 
2.43.0


From fbc72782e2253ff00524d9d672d81d71c71275cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:51 +0000
Subject: [PATCH 12/20] fix: prime of the reduced-radix Fp448 had the odd limb
 in the wrong place

Limbs are stored interleaved (0,8,1,9,...), so limb 8 is a[1], not a[8].
---
 src/eltfp448_1w_redradix.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eltfp448_1w_redradix.c b/src/eltfp448_1w_redradix.c
index 26fecfa..e783150 100644
--- a/src/eltfp448_1w_redradix.c
+++ b/src/eltfp448_1w_redradix.c
@@ -756,14 +756,14 @@ DECL(argElement_1w, alloc)(void) {
 
 DECL(void, prime)(argElement_1w a) {
   a[0] = 0xfffffff;
-  a[1] = 0xfffffff;
+  a[1] = 0xffffffe;
   a[2] = 0xfffffff;
   a[3] = 0xfffffff;
   a[4] = 0xfffffff;
   a[5] = 0xfffffff;
   a[6] = 0xfffffff;
   a[7] = 0xfffffff;
-  a[8] = 0xffffffe;
+  a[8] = 0xfffffff;
   a[9] = 0xfffffff;
   a[10] = 0xfffffff;
   a[11] = 0xfffffff;
-- 
2.43.0


From dfcc5678505d7410f91367535f9729fc40586efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:51 +0000
Subject: [PATCH 13/20] fix: ser of the reduced-radix Fp448 dropped carries of
 its last reduction step

---
 src/eltfp448_1w_redradix.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/eltfp448_1w_redradix.c b/src/eltfp448_1w_redradix.c
index e783150..bd21bd1 100644
--- a/src/eltfp448_1w_redradix.c
+++ b/src/eltfp448_1w_redradix.c
@@ -427,11 +427,15 @@ DECL(void, ser)(uint8_t *buf, argElement_1w puA) {
   c[6] = (c[5]>>64) + (a[15]<<(8+BASE_FP448))   + (a[13]<<8);
 
   tmp = (c[6]>>64);
-  c[0] += tmp;
-  c[3] += tmp<<(4+BASE_FP448);
-
-  for(i=0;i<NUM_DIGITS_FP448_X64;i++)
+  c[0] = (__int128_t)(uint64_t)c[0] + tmp;
+  p64C[0]=c[0];
+  for(i=1;i<NUM_DIGITS_FP448_X64;i++)
   {
+    c[i] = (__int128_t)(uint64_t)c[i] + (c[i-1]>>64);
+    if(i==3)
+    {
+      c[i] += tmp<<(4+BASE_FP448);
+    }
     p64C[i]=c[i];
   }
   ser_Fp448_1w_fullradix(buf,pC);
-- 
2.43.0


From 542402fe8b072d48e20c1ab332341f28c04a2105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:37 +0000
Subject: [PATCH 14/20] fix: word64_multiplier lost carries beyond the third
 word

The carry out of C[i+j+2] was dropped, so scalars with long runs of ones in
the intermediate product (e.g. the X448 key 2^447) gave a wrong quotient in
div4 and hence a wrong public key or verification result.
---
 src/bytestring.c | 27 +++++++++++++++------------
 src/edwards448.c | 10 +++++-----
 src/sign255.c    |  2 +-
 src/sign448.c    |  2 +-
 4 files changed, 22 insertions(+), 19 deletions(-)

diff --git a/src/bytestring.c b/src/bytestring.c
index 0f9f3dc..c1d1a63 100644
--- a/src/bytestring.c
+++ b/src/bytestring.c
@@ -65,34 +65,37 @@ static void deallocate_bytes(void *a) {
 }
 
 /**
+ * Computes C = C + A*B.
+ *
+ * The carries are propagated up to the last word of C, thus
+ * the running time does not depend on the values of the words.
  *
  * @param C
+ * @param numC
  * @param A
  * @param numA
  * @param B
  * @param numB
  */
 static inline void word64_multiplier(
-    uint64_t *C,
+    uint64_t *C, const int numC,
     const uint64_t *A, const int numA,
     const uint64_t *B, const int numB) {
   int i, j;
-#define mul64x64(Z, X, Y)    __asm__ __volatile__ (\
-            "movq 0(%3), %%rax     ;"\
-            "mulq 0(%4)            ;"\
-            "addq %%rax, %0        ;"\
-            "adcq %%rdx, %1        ;"\
-            "adcq $0x0,  %2        ;"\
-    :/* out  */ "+r" ((Z)[0]),"+r" ((Z)[1]),"+r" ((Z)[2])\
-    :/* in   */ "r" (X),"r" (Y)\
-    :/* regs */ "memory","cc","%rax","%rdx");
 
   for (i = 0; i < numA; i++) {
+    __uint128_t sum = 0;
     for (j = 0; j < numB; j++) {
-      mul64x64(C + i + j, A + i, B + j);
+      sum += (__uint128_t) A[i] * B[j] + C[i + j];
+      C[i + j] = (uint64_t) sum;
+      sum >>= 64;
+    }
+    for (j = i + numB; j < numC; j++) {
+      sum += C[j];
+      C[j] = (uint64_t) sum;
+      sum >>= 64;
     }
   }
-#undef mul64x64
 }
 
 volatile void *spc_memset(volatile void *dst, int c, size_t len) {
diff --git a/src/edwards448.c b/src/edwards448.c
index b540868..5d86ecf 100644
--- a/src/edwards448.c
+++ b/src/edwards448.c
@@ -57,23 +57,23 @@ static inline void modular_reduction_ed448(uint8_t *a) {
 		product[i] = 0;
 	}
 
-	word64_multiplier(product,ellx4,4,high,8);
+	word64_multiplier(product,13,ellx4,4,high,8);
 	for(i=0;i<58;i++)
 	{
 		((uint8_t *)high)[i] = ((uint8_t*)product)[i+56];
 		((uint8_t*)product)[i+56]=0;
 	}
-	word64_multiplier(product,ellx4,4,high,4);
+	word64_multiplier(product,13,ellx4,4,high,4);
 	for(i=0;i<58;i++)
 	{
 		((uint8_t *)high)[i] = ((uint8_t*)product)[i+56];
 		((uint8_t*)product)[i+56]=0;
 	}
-	word64_multiplier(product,ellx4,4,high,1);
+	word64_multiplier(product,13,ellx4,4,high,1);
 
 	high[0] = product[6]>>62;
 	product[6] &= (((uint64_t)1)<<62)-1;
-	word64_multiplier(product,ell,4,high,1);
+	word64_multiplier(product,13,ell,4,high,1);
 	for(i=0;i<56;i++)
 	{
 		a[i] = ((uint8_t*)product)[i];
@@ -108,7 +108,7 @@ static inline void div4(uint8_t * number_div_4,const uint8_t * number) {
 	{
 		((uint8_t*)a)[i] = number[i];
 	}
-	word64_multiplier(product,ifour,7,a,7);
+	word64_multiplier(product,16,ifour,7,a,7);
 	modular_reduction_ed448((uint8_t*)product);
 	for(i=0;i<56;i++)
 	{
diff --git a/src/sign255.c b/src/sign255.c
index bfcbde8..40a4fc8 100644
--- a/src/sign255.c
+++ b/src/sign255.c
@@ -274,7 +274,7 @@ static inline void calculate_s_ed25519(uint8_t *s_mod_l, uint8_t *r, uint8_t *k,
     product[i] = ((uint64_t *) r)[i];
   }
 
-  word64_multiplier(product, (uint64_t *) k, 4, (uint64_t *) a, 4);
+  word64_multiplier(product, 12, (uint64_t *) k, 4, (uint64_t *) a, 4);
   modular_reduction_ed25519((uint8_t *) product);
   for (i = 0; i < 4; i++) {
     ((uint64_t *) s_mod_l)[i] = product[i];
diff --git a/src/sign448.c b/src/sign448.c
index 7a5d11d..ba93471 100644
--- a/src/sign448.c
+++ b/src/sign448.c
@@ -112,7 +112,7 @@ static inline void calculate_s_ed448(uint8_t *s_mod_l, uint8_t *r, uint8_t *h, u
     product[i] = 0;
   }
 
-  word64_multiplier(product, hh, 7, aa, 7);
+  word64_multiplier(product, 16, hh, 7, aa, 7);
   modular_reduction_ed448((uint8_t *) product);
 
   for (i = 0; i < 56; i++) {
-- 
2.43.0


From 95f093b498c842a710f7917cfe1db2c10fcb9999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:30 +0000
Subject: [PATCH 15/20] fix: Ed25519 verification rejected about one in 14000
 valid signatures

CONST_2_to_35P_4w held 2^34*P. The product (Y1-X1)*(Y2-X2) in the mixed
addition of four lanes can exceed 2^60 per word, so the difference taken from
it wrapped around. Use 2^35*P, as its name says and as the two-lane code does.
---
 src/edwards255.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/edwards255.c b/src/edwards255.c
index 71a341a..e86477f 100644
--- a/src/edwards255.c
+++ b/src/edwards255.c
@@ -1219,16 +1219,16 @@ static inline int wnaf_256bits(int8_t *K, const uint8_t *p8_r, int w) {
 }
 
 static const ALIGN uint64_t CONST_2_to_35P_4w[4*NUM_DIGITS_FP25519] = {
-		0xfffffb400000000,0xfffffb400000000,0xfffffb400000000,0xfffffb400000000,
-		0x7fffffc00000000,0x7fffffc00000000,0x7fffffc00000000,0x7fffffc00000000,
-		0x7fffffc00000000,0x7fffffc00000000,0x7fffffc00000000,0x7fffffc00000000,
-		0xffffffc00000000,0xffffffc00000000,0xffffffc00000000,0xffffffc00000000,
-		0xffffffc00000000,0xffffffc00000000,0xffffffc00000000,0xffffffc00000000,
-		0x7fffffc00000000,0x7fffffc00000000,0x7fffffc00000000,0x7fffffc00000000,
-		0x7fffffc00000000,0x7fffffc00000000,0x7fffffc00000000,0x7fffffc00000000,
-		0xffffffc00000000,0xffffffc00000000,0xffffffc00000000,0xffffffc00000000,
-		0xffffffc00000000,0xffffffc00000000,0xffffffc00000000,0xffffffc00000000,
-		0x7fffffc00000000,0x7fffffc00000000,0x7fffffc00000000,0x7fffffc00000000
+		0x1fffff6800000000,0x1fffff6800000000,0x1fffff6800000000,0x1fffff6800000000,
+		0x0ffffff800000000,0x0ffffff800000000,0x0ffffff800000000,0x0ffffff800000000,
+		0x0ffffff800000000,0x0ffffff800000000,0x0ffffff800000000,0x0ffffff800000000,
+		0x1ffffff800000000,0x1ffffff800000000,0x1ffffff800000000,0x1ffffff800000000,
+		0x1ffffff800000000,0x1ffffff800000000,0x1ffffff800000000,0x1ffffff800000000,
+		0x0ffffff800000000,0x0ffffff800000000,0x0ffffff800000000,0x0ffffff800000000,
+		0x0ffffff800000000,0x0ffffff800000000,0x0ffffff800000000,0x0ffffff800000000,
+		0x1ffffff800000000,0x1ffffff800000000,0x1ffffff800000000,0x1ffffff800000000,
+		0x1ffffff800000000,0x1ffffff800000000,0x1ffffff800000000,0x1ffffff800000000,
+		0x0ffffff800000000,0x0ffffff800000000,0x0ffffff800000000,0x0ffffff800000000
 };
 /**
  * Computes the doubling of ONE point
-- 
2.43.0


From 6a8ba34716da82a1defdeafe214ca03f8c82297f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:33 +0000
Subject: [PATCH 16/20] fix: srt of Fp25519 returned a wrong root, or none at
 all

invsqrt was called with the output as numerator and the operand as
denominator. Take a copy of the operand over one instead. In four lanes,
invsqrt also multiplied every lane by the square root of -1, wanted or not;
choose per lane.
---
 src/eltfp25519_1w_fullradix.c |  4 +++-
 src/eltfp25519_1w_redradix.c  |  4 +++-
 src/eltfp25519_4w_redradix.c  | 14 ++++++++++----
 3 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/eltfp25519_1w_fullradix.c b/src/eltfp25519_1w_fullradix.c
index bd7c614..5c8da20 100644
--- a/src/eltfp25519_1w_fullradix.c
+++ b/src/eltfp25519_1w_fullradix.c
@@ -1519,7 +1519,9 @@ DECL(void, invsqrt)(argElement_1w uv_p38, argElement_1w u, argElement_1w v) {
 #undef sqrn_Fp255_1w_fullradix
 
 DECL(void, srt)(argElement_1w c, argElement_1w a) {
-  FN(invsqrt)(c, c, a);
+  EltFp25519_1w_fullradix u, one = {1};
+  FN(copy)(u, a);
+  FN(invsqrt)(c, u, one);
 }
 
 DECL(void, mula24_mulx)(argElement_1w c, argElement_1w a) {
diff --git a/src/eltfp25519_1w_redradix.c b/src/eltfp25519_1w_redradix.c
index 19fef80..b23e846 100644
--- a/src/eltfp25519_1w_redradix.c
+++ b/src/eltfp25519_1w_redradix.c
@@ -801,7 +801,9 @@ DECL(void, invsqrt)(argElement_1w uv_p38, argElement_1w u, argElement_1w v) {
 }
 
 DECL(void, srt)(argElement_1w c, argElement_1w a) {
-  FN(invsqrt)(c, c, a);
+  EltFp25519_1w_redradix u, one = {1};
+  FN(copy)(u, a);
+  FN(invsqrt)(c, u, one);
 }
 
 DECL(void, rand)(argElement_1w a) {
diff --git a/src/eltfp25519_4w_redradix.c b/src/eltfp25519_4w_redradix.c
index cc68d79..57b1cd8 100644
--- a/src/eltfp25519_4w_redradix.c
+++ b/src/eltfp25519_4w_redradix.c
@@ -805,6 +805,7 @@ DECL(void, ser)(uint8_t *buf, argElement_4w a) {
 }
 
 DECL(void, invsqrt)(argElement_4w uv_p38, argElement_4w u, argElement_4w v) {
+  int i = 0;
   EltFp25519_4w_redradix sqrt_minus_one = {
 	SET164(0x20ea0b0),SET164(0x1fbd7a7),
 	SET164(0x186c9d2),SET164(0x2804c9e),
@@ -883,13 +884,18 @@ DECL(void, invsqrt)(argElement_4w uv_p38, argElement_4w u, argElement_4w v) {
   FN(mul)(uv, uv3, v); /* v*B^2 */
   FN(neg)(u);
 
-  // if (FN(cmp)(uv, u) == ZERO) {
-    FN(mul)(uv_p38, uv_p38, sqrt_minus_one);/* (√-1)*B */
-  // }
+  /* (√-1)*B in the lanes where it holds */
+  __m256i differ = _mm256_cmpgt_epi64(FN(cmp)(uv, u), ZERO);
+  FN(mul)(sqrt, uv_p38, sqrt_minus_one);
+  for (i = 0; i < NUM_DIGITS_FP25519; i++) {
+    uv_p38[i] = OR(AND(differ, uv_p38[i]), ANDNOT(differ, sqrt[i]));
+  }
 }
 
 DECL(void, srt)(argElement_4w c, argElement_4w a) {
-  FN(invsqrt)(c, c, a);
+  EltFp25519_4w_redradix u, one = {SET164(1)};
+  FN(copy)(u, a);
+  FN(invsqrt)(c, u, one);
 }
 
 DECL(argElement_4w,alloc)(void) {
-- 
2.43.0


From 0723cf3a6d81350cfc371983dbbed781de619bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:33 +0000
Subject: [PATCH 17/20] fix: two-lane SHA-512 cut the message length to 32 bits

h2c25519_avx2 and hash_to_field_2w pass a size_t, so messages of 2^32-1 bytes
and more gave the hash of a prefix, and a point other than h2c25519_x64.
---
 third_party/multi_hash.h  | 2 +-
 third_party/sha512_2way.c | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/third_party/multi_hash.h b/third_party/multi_hash.h
index 2556105..84e554b 100644
--- a/third_party/multi_hash.h
+++ b/third_party/multi_hash.h
@@ -76,7 +76,7 @@
 :/* in   */ "r" (Y)\
 :/* regs */);
 
-void sha512_2w_avx(uint8_t *message_2x[2], unsigned int message_length, uint8_t *digest_2x[2]);
+void sha512_2w_avx(uint8_t *message_2x[2], size_t message_length, uint8_t *digest_2x[2]);
 
 ALIGN static const uint64_t KSHA512[80] =
 {
diff --git a/third_party/sha512_2way.c b/third_party/sha512_2way.c
index b22d99e..2219ca7 100644
--- a/third_party/sha512_2way.c
+++ b/third_party/sha512_2way.c
@@ -265,17 +265,17 @@ void sha512_2w_avx_256b(uint8_t *message_2x[2], uint8_t *digest_2x[2])
     }
 }
 
-void sha512_2w_avx(uint8_t *message_2x[2], unsigned int message_length_bytes, uint8_t *digest_2x[2])
+void sha512_2w_avx(uint8_t *message_2x[2], size_t message_length_bytes, uint8_t *digest_2x[2])
 {
     const __m128i big_endian = _mm_set_epi64x(0x08090a0b0c0d0e0f,0x0001020304050607);
-    const unsigned int num_blocks = message_length_bytes>>7;
-    const unsigned int remainder_bytes = message_length_bytes-(num_blocks<<7);
+    const size_t num_blocks = message_length_bytes>>7;
+    const size_t remainder_bytes = message_length_bytes-(num_blocks<<7);
     const __uint128_t mlen_bits = (__uint128_t)message_length_bytes*8;
     ALIGN __m128i state[8];
     ALIGN __m128i block[80];
     ALIGN uint8_t buffer[BLOCK_SIZE_BYTES*NUM_MSG] = {0};
     int i=0,msg=0;
-    unsigned int b=0;
+    size_t b=0;
 
     initialize(state);
     for(b=0;b<num_blocks;b++)
-- 
2.43.0


From 632c9b77399068c94f4c5fcfacbefc2e68cc46c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:33 +0000
Subject: [PATCH 18/20] fix: SHAKE outputs of more than 2 GiB were written
 before the buffer

The offset in Final2 was an int. The one-shot functions already use an
unsigned int, which holds every output length.
---
 third_party/sha3.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/third_party/sha3.c b/third_party/sha3.c
index db07540..70f8a0d 100644
--- a/third_party/sha3.c
+++ b/third_party/sha3.c
@@ -444,7 +444,7 @@ HashReturn Final(hashState *state, BitSequence *hashval) {
  */
 HashReturn Final2(hashState *state, BitSequence *hashval, unsigned int d_byte) {
 	int sbytelen = (state->statebitlen / 8);
-	int j = 0;
+	unsigned int j = 0;
 	unsigned int r = (state->r / 8);
 
 	state->s[sbytelen] ^= 0x1F;
-- 
2.43.0


From 522358fe6bfdcccb20f727923ca086ff21eaed08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:01 +0000
Subject: [PATCH 19/20] fix: ser of the reduced-radix Fp25519 dropped carries
 of its last reduction step

---
 src/eltfp25519_1w_redradix.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/eltfp25519_1w_redradix.c b/src/eltfp25519_1w_redradix.c
index b23e846..410dd8c 100644
--- a/src/eltfp25519_1w_redradix.c
+++ b/src/eltfp25519_1w_redradix.c
@@ -411,6 +411,11 @@ DECL(void, ser)(uint8_t *buf, argElement_1w a) {
   "xorl  %%ecx, %%ecx ;"
   "addq  %%rax,  %%r8 ;"
   "adcq  %%rcx,  %%r9 ;"
+  "adcq     $0, %%r10 ;"
+  "adcq     $0, %%r11 ;"
+  "sbbq  %%rcx, %%rcx ;"
+  "andq    $38, %%rcx ;"
+  "addq  %%rcx,  %%r8 ;"
 
   "movq  %%r8,   (%0) ;"
   "movq  %%r9,  8(%0) ;"
-- 
2.43.0


From 76f489ca1c2d761d8a39a38fb49beb73c5e05b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:23 +0000
Subject: [PATCH 20/20] fix: two-lane SHA-512 of 32 bytes reads 32 bytes of
 each message

The loading loop ran over 128 bytes of either message. Optimisation removes
the surplus loads, because their results are overwritten; without it they
are performed, beyond the end of the messages.
---
 third_party/sha512_2way.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/third_party/sha512_2way.c b/third_party/sha512_2way.c
index 2219ca7..d085f83 100644
--- a/third_party/sha512_2way.c
+++ b/third_party/sha512_2way.c
@@ -241,7 +241,7 @@ void sha512_2w_avx_256b(uint8_t *message_2x[2], uint8_t *digest_2x[2])
     initialize(state);
     for (msg = 0; msg < NUM_MSG; msg++)
     {
-        for (i = 0; i < 16/(NUM_MSG); i++)
+        for (i = 0; i < 4/(NUM_MSG); i++)
         {
             block[NUM_MSG*i+msg] = SHUF8(LOAD(message_2x[msg]+i),big_endian);
         }
-- 
2.43.0

