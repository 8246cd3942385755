From 54d33173685293a3c65de2cf963bc9c8d5c595a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:23 +0000
Subject: [PATCH 1/8] fix: make the AltiVec bitslice header compile

The vec_splat_u8() results were assigned to a vector of unsigned int, the
shift counts given to vec_slo()/vec_sro() had that type too, and the counts
8, 16 and 32 that the transposition macros need were missing, so that
--enable-altivec did not build.
---
 src/dvbcsa_bs_altivec.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/dvbcsa_bs_altivec.h b/src/dvbcsa_bs_altivec.h
index 72a3dbe..d91b7ab 100644
--- a/src/dvbcsa_bs_altivec.h
+++ b/src/dvbcsa_bs_altivec.h
@@ -59,15 +59,15 @@ static DVBCSA_INLINE dvbcsa_bs_word_t get_bs_val8( uint8_t val, dvbcsa_bs_word_t
         case 0x04:
                 return (dvbcsa_bs_word_t)vec_splat_u8(4);
         case 0x10: {
-                dvbcsa_bs_word_t x = vec_splat_u8(8);
+                vector unsigned char x = vec_splat_u8(8);
                 return (dvbcsa_bs_word_t)vec_add(x,x);
         }
         case 0x29: {
-                dvbcsa_bs_word_t x = vec_splat_u8(10);
+                vector unsigned char x = vec_splat_u8(10);
                 return (dvbcsa_bs_word_t)vec_add(vec_splat_u8(0x1),vec_rl(x,x));
         }
         case 0x40: {
-                dvbcsa_bs_word_t x = vec_splat_u8(4);
+                vector unsigned char x = vec_splat_u8(4);
                 return (dvbcsa_bs_word_t)vec_rl(x,x);
         }
         case 0x80: {
@@ -97,9 +97,12 @@ static DVBCSA_INLINE dvbcsa_bs_word_t get_bs_val8( uint8_t val, dvbcsa_bs_word_t
 #define SHVAL_13 BS_VAL8(0d)
 #define SHVAL_14 BS_VAL8(0e)
 #define SHVAL_7 BS_VAL8(07)
+#define SHVAL_8 BS_VAL8(08)
+#define SHVAL_16 BS_VAL8(10)
+#define SHVAL_32 BS_VAL8(20)
 
-#define BS_SHL(a, n)    ({ dvbcsa_bs_word_t x = SHVAL_##n; vec_sll(vec_slo((a), x), x); })
-#define BS_SHR(a, n)    ({ dvbcsa_bs_word_t x = SHVAL_##n; vec_srl(vec_sro((a), x), x); })
+#define BS_SHL(a, n)    ({ vector unsigned char x = (vector unsigned char)SHVAL_##n; vec_sll(vec_slo((a), x), x); })
+#define BS_SHR(a, n)    ({ vector unsigned char x = (vector unsigned char)SHVAL_##n; vec_srl(vec_sro((a), x), x); })
 
 #define BS_EXTRACT8(a, n) ((dvbcsa_u8_aliasing_t *)&(a))[15 - (n)]
 
-- 
2.43.0


From f7bc0089a2985a400405120687db2df15dbcffd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:23 +0000
Subject: [PATCH 2/8] fix: signed overflow in dvbcsa_bs_key_set() with 32 bits
 words

A key schedule byte of 0x80 or more was multiplied by 0x01010101 as an int.
---
 src/dvbcsa_bs_key.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dvbcsa_bs_key.c b/src/dvbcsa_bs_key.c
index e2fcf55..77d871e 100644
--- a/src/dvbcsa_bs_key.c
+++ b/src/dvbcsa_bs_key.c
@@ -46,7 +46,7 @@ dvbcsa_bs_key_set (const dvbcsa_cw_t cw, struct dvbcsa_bs_key_s *key)
   for (i = 0; i < DVBCSA_KEYSBUFF_SIZE; i++)
     {
 #if BS_BATCH_SIZE == 32
-      *(dvbcsa_u32_aliasing_t *)(key->block + i) = kk[i] * 0x01010101;
+      *(dvbcsa_u32_aliasing_t *)(key->block + i) = kk[i] * 0x01010101U;
 
 #elif BS_BATCH_SIZE == 64
       *(dvbcsa_u64_aliasing_t *)(key->block + i) = kk[i] * 0x0101010101010101ULL;
-- 
2.43.0


From 588f1572ca0843d4adf95e93e036a2245f919f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:23 +0000
Subject: [PATCH 3/8] fix: dvbcsa_encrypt() with payloads of 2 GiB and more

The block index was a signed int, negative from the start for such a
payload: only its last block was encrypted.
---
 src/dvbcsa_algo.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dvbcsa_algo.c b/src/dvbcsa_algo.c
index 268f03c..4a738bc 100644
--- a/src/dvbcsa_algo.c
+++ b/src/dvbcsa_algo.c
@@ -50,7 +50,7 @@ void dvbcsa_decrypt (const struct dvbcsa_key_s *key, uint8_t *data, unsigned int
 void dvbcsa_encrypt (const struct dvbcsa_key_s *key, uint8_t *data, unsigned int len)
 {
   unsigned int  alen = len & (unsigned)~0x7;
-  int       i;
+  unsigned int  i;
 
   if (len < 8)
     return;
@@ -58,8 +58,9 @@ void dvbcsa_encrypt (const struct dvbcsa_key_s *key, uint8_t *data, unsigned int
 #ifndef DVBCSA_DISABLE_BLOCK
   dvbcsa_block_encrypt(key->sch, data + alen - 8, data + alen - 8);
 
-  for (i = alen - 16; i >= 0; i -= 8)
+  for (i = alen - 8; i > 0; )
     {
+      i -= 8;
       dvbcsa_xor_64(data + i, data + i + 8);
       dvbcsa_block_encrypt(key->sch, data + i, data + i);
     }
-- 
2.43.0


From 258242602df81c9f308aeaf23bb39f640af3ca28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:23 +0000
Subject: [PATCH 4/8] fix: parallel processing of packets longer than the
 length limit

README says that a packet greater than maxlen is processed partially, but
the whole of it was copied to and from a 184 bytes slot: a packet of more
than 184 bytes got bytes of the next one, or overran the stack buffer.
---
 src/dvbcsa_bs_algo.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/dvbcsa_bs_algo.c b/src/dvbcsa_bs_algo.c
index 54ff830..3611c86 100644
--- a/src/dvbcsa_bs_algo.c
+++ b/src/dvbcsa_bs_algo.c
@@ -38,6 +38,13 @@
 #include <assert.h>
 #endif
 
+/* bytes of a packet that are processed: the others are left alone */
+static inline unsigned int dvbcsa_pkt_len(const struct dvbcsa_bs_batch_s *pck,
+                                          unsigned int maxlen)
+{
+  return pck->len < maxlen ? pck->len : maxlen;
+}
+
 static void dvbcsa_pkt_buf_load(struct dvbcsa_bs_pkt_buf *pkt_buf,
                                 const struct dvbcsa_bs_batch_s *pcks,
                                 unsigned int maxlen)
@@ -47,8 +54,10 @@ static void dvbcsa_pkt_buf_load(struct dvbcsa_bs_pkt_buf *pkt_buf,
 
   for (i = 0; pcks[i].data; i++, block += BS_PKT_BLOCKS8)
     {
-      pkt_buf->len8[i] = pcks[i].len & (unsigned)~0x7;
-      memcpy(block, pcks[i].data, pcks[i].len);
+      unsigned int len = dvbcsa_pkt_len(pcks + i, maxlen);
+
+      pkt_buf->len8[i] = len & (unsigned)~0x7;
+      memcpy(block, pcks[i].data, len);
     }
 
   pkt_buf->n_packets = i;
@@ -62,7 +71,7 @@ static void dvbcsa_pkt_buf_store(const struct dvbcsa_bs_pkt_buf *pkt_buf,
   const dvbcsa_bs_block8_t *block = pkt_buf->data;
 
   for (i = 0; pcks[i].data; i++, block += BS_PKT_BLOCKS8)
-    memcpy(pcks[i].data, block, pcks[i].len);
+    memcpy(pcks[i].data, block, dvbcsa_pkt_len(pcks + i, pkt_buf->maxlen));
 }
 
 void dvbcsa_bs_decrypt(const struct dvbcsa_bs_key_s *key,
-- 
2.43.0


From 629139b73793df9ec76a6ca51ce2a0c24a580681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:43 +0000
Subject: [PATCH 5/8] fix: AVX2 sbox look-up reads past the end of its table

The look-up of the 16 bits entry 255 loads 32 bits.
---
 src/dvbcsa_bs_avx2.h  | 2 +-
 src/dvbcsa_bs_block.c | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dvbcsa_bs_avx2.h b/src/dvbcsa_bs_avx2.h
index 8398943..5117288 100644
--- a/src/dvbcsa_bs_avx2.h
+++ b/src/dvbcsa_bs_avx2.h
@@ -58,7 +58,7 @@ typedef __m256i dvbcsa_bs_word_t;
       var_hi = _mm256_load_si256((ptr) + 1); \
       }
 
-static const uint16_t dvbcsa_block_sbox_perm[256];
+static const uint16_t dvbcsa_block_sbox_perm[256 + 1];
 
 static inline void avx2_block_sbox_permute(dvbcsa_bs_word_t *src,
                                            dvbcsa_bs_word_t *dst)
diff --git a/src/dvbcsa_bs_block.c b/src/dvbcsa_bs_block.c
index 470e299..2d1fa41 100644
--- a/src/dvbcsa_bs_block.c
+++ b/src/dvbcsa_bs_block.c
@@ -52,8 +52,10 @@
 
   LSB: sbox output
   MSB: permuted sbox output
+
+  The last entry is padding: AVX2 loads the 16 bits entries 32 bits at a time.
 */
-static const uint16_t dvbcsa_block_sbox_perm[256] =
+static const uint16_t dvbcsa_block_sbox_perm[256 + 1] =
   {
     0xd43a, 0xd9ea, 0x5168, 0xfdfe, 0xc633, 0x5be9, 0x1888, 0x941a,
     0x8a83, 0xbbcf, 0x4be1, 0xf77f, 0xdcba, 0xc9e2, 0x5438, 0x8412,
-- 
2.43.0


From 9ef33c77d80e5d451c918210e81eef17b7e2a800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:50 +0000
Subject: [PATCH 6/8] fix: wrong results of --enable-avx2 --enable-alt-sbox

The alternative look-up stores interleaved sbox and permutation outputs
that the AVX2 BS_LOAD_DEINTERLEAVE_8 stub did not separate.
---
 src/dvbcsa_bs_avx2.h | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/dvbcsa_bs_avx2.h b/src/dvbcsa_bs_avx2.h
index 5117288..647cce4 100644
--- a/src/dvbcsa_bs_avx2.h
+++ b/src/dvbcsa_bs_avx2.h
@@ -51,6 +51,26 @@ typedef __m256i dvbcsa_bs_word_t;
 
 #define BS_EMPTY()
 
+#ifdef DVBCSA_USE_ALT_SBOX
+
+/* block cipher 2-word load with byte-deinterleaving */
+#define BS_LOAD_DEINTERLEAVE_8(ptr, var_lo, var_hi) \
+      {\
+      dvbcsa_bs_word_t a, b; \
+      dvbcsa_bs_word_t shuffle_mask = _mm256_set_epi8(15,13,11,9,7,5,3,1, \
+                                                      14,12,10,8,6,4,2,0, \
+                                                      15,13,11,9,7,5,3,1, \
+                                                      14,12,10,8,6,4,2,0); \
+      a = _mm256_load_si256((ptr)); \
+      b = _mm256_load_si256((ptr) + 1); \
+      a = _mm256_permute4x64_epi64(_mm256_shuffle_epi8(a, shuffle_mask), 0xd8); \
+      b = _mm256_permute4x64_epi64(_mm256_shuffle_epi8(b, shuffle_mask), 0xd8); \
+      var_lo = _mm256_permute2x128_si256(a, b, 0x20); \
+      var_hi = _mm256_permute2x128_si256(a, b, 0x31); \
+      }
+
+#else
+
 /* BS_LOAD_DEINTERLEAVE_8 stub: deinterleaving is done by BLOCK_SBOX_PERMUTE */
 #define BS_LOAD_DEINTERLEAVE_8(ptr, var_lo, var_hi) \
       {\
@@ -113,5 +133,7 @@ static inline void avx2_block_sbox_permute(dvbcsa_bs_word_t *src,
 
 #define BLOCK_SBOX_PERMUTE(in_buf, out_buf) avx2_block_sbox_permute(in_buf, out_buf);
 
+#endif /* DVBCSA_USE_ALT_SBOX */
+
 #endif
 
-- 
2.43.0


From 68237ba870a959bf20043e21791aa359fa8f4411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:33 +0000
Subject: [PATCH 7/8] fix: AltiVec builds without optimisation (--enable-debug)
 do not compile

---
 src/dvbcsa_bs_altivec.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dvbcsa_bs_altivec.h b/src/dvbcsa_bs_altivec.h
index d91b7ab..84829a7 100644
--- a/src/dvbcsa_bs_altivec.h
+++ b/src/dvbcsa_bs_altivec.h
@@ -45,6 +45,7 @@ typedef vector unsigned int dvbcsa_bs_word_t;
 #define BS_VAL32(n)     BS_VAL64(n##n)
 #define BS_VAL16(n)     BS_VAL32(n##n)
 
+#ifdef __OPTIMIZE__
 static DVBCSA_INLINE dvbcsa_bs_word_t get_bs_val8( uint8_t val, dvbcsa_bs_word_t def_val )
 {
         if ( (val & 0xf) == val ) {
@@ -82,6 +83,10 @@ static DVBCSA_INLINE dvbcsa_bs_word_t get_bs_val8( uint8_t val, dvbcsa_bs_word_t
 }
 
 #define BS_VAL8(x) get_bs_val8(0x##x, BS_VAL16(x##x))
+#else
+/* vec_splat_u8() takes literals only, what an argument becomes by inlining */
+#define BS_VAL8(x) BS_VAL16(x##x)
+#endif
 
 #define BS_AND(a, b)    vec_and((a), (b))
 #define BS_OR(a, b)     vec_or((a), (b))
-- 
2.43.0


From 003a26e76a8d35ae5d6393b031f1152c168a5d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:57:38 +0000
Subject: [PATCH 8/8] fix: dvbcsa_bs_key_set() leaves the x87 state unusable in
 32-bit MMX builds

With a compiler that uses MMX registers for the key words, floating point
operations of the caller yield NaN after dvbcsa_bs_key_set() returns.
---
 src/dvbcsa_bs_key.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dvbcsa_bs_key.c b/src/dvbcsa_bs_key.c
index 77d871e..fd7f728 100644
--- a/src/dvbcsa_bs_key.c
+++ b/src/dvbcsa_bs_key.c
@@ -61,5 +61,7 @@ dvbcsa_bs_key_set (const dvbcsa_cw_t cw, struct dvbcsa_bs_key_s *key)
 # error
 #endif
     }
+
+  BS_EMPTY ();                  // restore CPU multimedia state
 }
 
-- 
2.43.0

