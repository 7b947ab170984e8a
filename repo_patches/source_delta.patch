From 356c21e297d7550a2c00837e7fd3f72fe6be67cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:10 +0000
Subject: [PATCH 01/14] fix: SaberX4 shake128x4 squeezes 168-byte blocks into
 136-byte stack buffers

---
 Variants/SaberX4_avx2/fips202x4.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Variants/SaberX4_avx2/fips202x4.c b/Variants/SaberX4_avx2/fips202x4.c
index 88e61fc..7712d8a 100644
--- a/Variants/SaberX4_avx2/fips202x4.c
+++ b/Variants/SaberX4_avx2/fips202x4.c
@@ -152,10 +152,10 @@ void shake128x4(unsigned char *out0,
                        const unsigned char *in3, unsigned long long inlen)
 {
   __m256i s[25];
-  unsigned char t0[SHAKE256_RATE];
-  unsigned char t1[SHAKE256_RATE];
-  unsigned char t2[SHAKE256_RATE];
-  unsigned char t3[SHAKE256_RATE];
+  unsigned char t0[SHAKE128_RATE];
+  unsigned char t1[SHAKE128_RATE];
+  unsigned char t2[SHAKE128_RATE];
+  unsigned char t3[SHAKE128_RATE];
   unsigned int i;
 
   // zero state 
-- 
2.43.0


From 8ce74f58191563b055533c28a30fba99113c3a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:10 +0000
Subject: [PATCH 02/14] fix: AES-NI CTR loses the carry when a batch ends
 exactly at the 64-bit wrap

---
 Variants/uSaber-90s/avx2/crypto_stream_aes256ctr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Variants/uSaber-90s/avx2/crypto_stream_aes256ctr.c b/Variants/uSaber-90s/avx2/crypto_stream_aes256ctr.c
index b363ecc..88d0012 100644
--- a/Variants/uSaber-90s/avx2/crypto_stream_aes256ctr.c
+++ b/Variants/uSaber-90s/avx2/crypto_stream_aes256ctr.c
@@ -183,7 +183,7 @@ static inline void incle(unsigned char n[16]) {
     long long nl = *(long long*)&n[8];                                  \
     MAKEN(NVxV_DEC);                                                    \
     /* check for nonce wraparound */                                    \
-    if ((nl < 0) && (nl + (N-1)) >= 0) {                                \
+    if ((nl < 0) && (nl + N) >= 0) {                                    \
       int wrapnumber = (int)(N - (nl+N));                               \
       MAKEN(NVxV_WRAP);                                                 \
       _mm_storeu_si128((__m128i*)n, _mm_add_epi64(nv0i, _mm_set_epi64x(N,1))); \
-- 
2.43.0


From 6a3ecb96c10ce36508faa8b863d5d25af68c2b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:10 +0000
Subject: [PATCH 03/14] fix: SaberX4 packs to and unpacks from caller buffers
 of any alignment

---
 Variants/SaberX4_avx2/pack_unpack.c | 32 ++++++++++++++---------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/Variants/SaberX4_avx2/pack_unpack.c b/Variants/SaberX4_avx2/pack_unpack.c
index 1e97d02..eeef7ce 100644
--- a/Variants/SaberX4_avx2/pack_unpack.c
+++ b/Variants/SaberX4_avx2/pack_unpack.c
@@ -119,10 +119,10 @@ void avx_store_8bit_bs(__m256i * avx_bytes, uint16_t size,
 		
 		
 		//do the same thing to back half(4 number) from 256-bit avx to 128bit
-		_mm_store_si128(bs0+k,ph0);
-		_mm_store_si128(bs1+k,ph1);
-		_mm_store_si128(bs2+k,ph2);
-		_mm_store_si128(bs3+k,ph3);
+		_mm_storeu_si128(bs0+k,ph0);
+		_mm_storeu_si128(bs1+k,ph1);
+		_mm_storeu_si128(bs2+k,ph2);
+		_mm_storeu_si128(bs3+k,ph3);
 		
 		//pack second half
 		l0 = _mm256_extractf128_ps((__m256)avx_bytes[offset0+0],1);
@@ -173,10 +173,10 @@ void avx_store_8bit_bs(__m256i * avx_bytes, uint16_t size,
 		//(128 every store bit)/(8 bit/number)=32number
 		//pointer space 128bit 
 		
-		_mm_store_si128(bs4+k,ph0);
-		_mm_store_si128(bs5+k,ph1);
-		_mm_store_si128(bs6+k,ph2);
-		_mm_store_si128(bs7+k,ph3);
+		_mm_storeu_si128(bs4+k,ph0);
+		_mm_storeu_si128(bs5+k,ph1);
+		_mm_storeu_si128(bs6+k,ph2);
+		_mm_storeu_si128(bs7+k,ph3);
 		
 		//depend on how many lines in this part
 		offset0 += 16;
@@ -206,16 +206,16 @@ void avx_load_8bit_16bit(const float * cfbs0, const float * cfbs1,
 	// i = size/32
 	for(i = 0;i<(size)/32;i++){
 		//Load 128 bit from bs0, bs1, bs2, bs3
-		l0 = _mm_load_ps(cfbs0+p*4); //0
-		l1 = _mm_load_ps(cfbs1+p*4); //160
-		l2 = _mm_load_ps(cfbs2+p*4); //64
-		l3 = _mm_load_ps(cfbs3+p*4); //224
+		l0 = _mm_loadu_ps(cfbs0+p*4); //0
+		l1 = _mm_loadu_ps(cfbs1+p*4); //160
+		l2 = _mm_loadu_ps(cfbs2+p*4); //64
+		l3 = _mm_loadu_ps(cfbs3+p*4); //224
 		
 		//Load 128 bit from middle of bs0, bs1, bs2, bs3
-		l4 = _mm_load_ps(cfbs4+p*4); //208
-		l5 = _mm_load_ps(cfbs5+p*4); //112
-		l6 = _mm_load_ps(cfbs6+p*4); //16
-		l7 = _mm_load_ps(cfbs7+p*4); //176
+		l4 = _mm_loadu_ps(cfbs4+p*4); //208
+		l5 = _mm_loadu_ps(cfbs5+p*4); //112
+		l6 = _mm_loadu_ps(cfbs6+p*4); //16
+		l7 = _mm_loadu_ps(cfbs7+p*4); //176
 
 		//Transpose 4x4 matrix
 		_MM_TRANSPOSE4_PS(l0,l1,l2,l3);
-- 
2.43.0


From 7d238a3a6c729f3abc4c8e6e891237823ae63ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:07 +0000
Subject: [PATCH 04/14] fix: Cortex-M0 SHA3/SHAKE feed plain lanes to a
 bit-interleaved Keccak state

---
 .../Cortex-M0/saber-ref-mem/src/fips202.c     | 54 +++----------------
 1 file changed, 8 insertions(+), 46 deletions(-)

diff --git a/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/fips202.c b/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/fips202.c
index c502789..4752db1 100644
--- a/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/fips202.c
+++ b/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/fips202.c
@@ -12,42 +12,11 @@
 #define NROUNDS 24
 #define ROL(a, offset) ((a << offset) ^ (a >> (64-offset)))
 
-/*************************************************
-* Name:        load64
-*
-* Description: Load 8 bytes into uint64_t in little-endian order
-*
-* Arguments:   - const unsigned char *x: pointer to input byte array
-*
-* Returns the loaded 64-bit unsigned integer
-**************************************************/
-static uint64_t load64(const unsigned char *x)
-{
-  unsigned long long r = 0, i;
-
-  for (i = 0; i < 8; ++i) {
-    r |= (unsigned long long)x[i] << 8 * i;
-  }
-  return r;
-}
-
-/*************************************************
-* Name:        store64
-*
-* Description: Store a 64-bit integer to a byte array in little-endian order
-*
-* Arguments:   - uint8_t *x: pointer to the output byte array
-*              - uint64_t u: input 64-bit unsigned integer
-**************************************************/
-static void store64(uint8_t *x, uint64_t u)
-{
-  unsigned int i;
-
-  for(i=0; i<8; ++i) {
-    x[i] = u;
-    u >>= 8;
-  }
-}
+/* Implemented in asm_KeccakF-1600.S. The state is kept in bit-interleaved form,
+ * so bytes must enter and leave it through XORBytes and ExtractBytes. */
+void KeccakF1600_StateXORBytes(void *state, const unsigned char *data, unsigned int offset, unsigned int length);
+void KeccakF1600_StateExtractBytes(void *state, unsigned char *data, unsigned int offset, unsigned int length);
+void KeccakF1600_StatePermute(void *state);
 
 #include <string.h>
 #define MIN(a, b) ((a) < (b) ? (a) : (b))
@@ -79,9 +48,7 @@ void keccak_absorb(uint64_t *s,
 
   while (mlen >= r)
   {
-    for (i = 0; i < r / 8; ++i)
-      s[i] ^= load64(m + 8 * i);
-
+    KeccakF1600_StateXORBytes(s, m, 0, r);
     KeccakF1600_StatePermute(s);
     mlen -= r;
     m += r;
@@ -93,8 +60,7 @@ void keccak_absorb(uint64_t *s,
     t[i] = m[i];
   t[i] = p;
   t[r - 1] |= 128;
-  for (i = 0; i < r / 8; ++i)
-    s[i] ^= load64(t + 8 * i);
+  KeccakF1600_StateXORBytes(s, t, 0, r);
 }
 
 
@@ -114,14 +80,10 @@ void keccak_squeezeblocks(unsigned char *h, unsigned long long int nblocks,
                                  uint64_t *s,
                                  unsigned int r)
 {
-  unsigned int i;
   while(nblocks > 0)
   {
     KeccakF1600_StatePermute(s);
-    for(i=0;i<(r>>3);i++)
-    {
-      store64(h+8*i, s[i]);
-    }
+    KeccakF1600_StateExtractBytes(s, h, 0, r);
     h += r;
     nblocks--;
   }
-- 
2.43.0


From 35a72deee1b794b66999f95bcea6a5d9a5b8dd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:07 +0000
Subject: [PATCH 05/14] fix: Cortex-M0 decryption overruns the message buffer
 and never packs the message

---
 .../Cortex-M0/saber-ref-mem/src/SABER_indcpa.c              | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/SABER_indcpa.c b/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/SABER_indcpa.c
index 38d4ed0..54b9359 100644
--- a/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/SABER_indcpa.c
+++ b/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/SABER_indcpa.c
@@ -332,6 +332,8 @@ void indcpa_kem_dec(const unsigned char *sk, const unsigned char *ciphertext, un
 
 	uint16_t v[SABER_N];
 
+	uint16_t message_dec_unpacked[SABER_N];
+
 	BS2POLVECq(sk, sksv); //sksv is the secret-key
 
 	// vector-vector scalar multiplication with mod p
@@ -346,11 +348,11 @@ void indcpa_kem_dec(const unsigned char *sk, const unsigned char *ciphertext, un
 
 	VectorMul(ciphertext, sksv,v);
 
-	ExtractKeyBits(v,ciphertext+SABER_POLYVECCOMPRESSEDBYTES,message_dec);
+	ExtractKeyBits(v,ciphertext+SABER_POLYVECCOMPRESSEDBYTES,message_dec_unpacked);
 
 
 	// pack decrypted message
-	//POL2MSG(message_dec_unpacked, message_dec);
+	POL2MSG(message_dec_unpacked, message_dec);
 }
 
 
-- 
2.43.0


From a9d6c9df3c213c2f30722ad2db791e9feefa81e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:07 +0000
Subject: [PATCH 06/14] fix: Cortex-M0 encryption and decryption omit Saber's
 rounding constant h1

---
 .../Cortex-M0/saber-ref-mem/src/SABER_indcpa.c                  | 2 +-
 .../Cortex-M0/saber-ref-mem/src/encode.c                        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/SABER_indcpa.c b/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/SABER_indcpa.c
index 54b9359..f01fd55 100644
--- a/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/SABER_indcpa.c
+++ b/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/SABER_indcpa.c
@@ -309,7 +309,7 @@ void indcpa_kem_enc(unsigned char *message_received, unsigned char *noiseseed, c
 		{
 			message_bit = ((message_received[j]>>i) & 0x01);
 			message_bit = (message_bit<<9);
-			vprime[j*8+i]=vprime[j*8+i]+ message_bit;
+			vprime[j*8+i]=vprime[j*8+i]+ message_bit + 4;	// h1 = 4
 		}
 	}
 
diff --git a/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/encode.c b/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/encode.c
index 0f900b2..81340e0 100644
--- a/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/encode.c
+++ b/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/encode.c
@@ -6,7 +6,7 @@
 #define P_1 P_SIZE-1
 
 #define TWO_SCALE_MINUS1 ((1<<SCALE_SIZE)-1)
-#define H2 ( (1<<(P_1-1)) - (1<<(P_1-SCALE_SIZE-1)) )
+#define H2 ( (1<<(P_1-1)) - (1<<(P_1-SCALE_SIZE-1)) + 4 )
 
 uint16_t floor_special(uint16_t a)
 {
-- 
2.43.0


From d9883dcfab4c83600d844de0fc476c085b367648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:07 +0000
Subject: [PATCH 07/14] fix: Cortex-M0 randombytes fills every second byte with
 zero

---
 Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/prng.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/prng.c b/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/prng.c
index 3ad8581..f27e4da 100644
--- a/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/prng.c
+++ b/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/prng.c
@@ -37,7 +37,7 @@ void randombytes(unsigned char *x,unsigned long long xlen)
 {
     union
     {
-        uint16_t aschar[2];
+        uint8_t aschar[4];
         uint32_t asint;
     } random;
 
-- 
2.43.0


From 5c1153adfe244effa081a0ec353ecd88c49720fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:53 +0000
Subject: [PATCH 08/14] fix: Cortex-M0 SABER_pack_3bit packs bit 2 of every
 sixth coefficient in place of bit 0

---
 .../Cortex-M0/saber-ref-mem/src/pack_unpack.c                   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/pack_unpack.c b/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/pack_unpack.c
index ff27aa4..2462cf0 100644
--- a/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/pack_unpack.c
+++ b/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/pack_unpack.c
@@ -10,7 +10,7 @@ void SABER_pack_3bit(uint8_t *bytes, uint16_t *data){
 		offset_byte=3*j;
 		offset_data=8*j;
 		bytes[offset_byte + 0]= (data[offset_data + 0] & 0x7) | ( (data[offset_data + 1] & 0x7)<<3 ) | ((data[offset_data + 2] & 0x3)<<6);
-		bytes[offset_byte + 1]= ((data[offset_data + 2] >> 2 ) & 0x01)  | ( (data[offset_data + 3] & 0x7)<<1 ) | ( (data[offset_data + 4] & 0x7)<<4 ) | (((data[offset_data + 5] >> 2 ) & 0x01)<<7);
+		bytes[offset_byte + 1]= ((data[offset_data + 2] >> 2 ) & 0x01)  | ( (data[offset_data + 3] & 0x7)<<1 ) | ( (data[offset_data + 4] & 0x7)<<4 ) | ((data[offset_data + 5] & 0x01)<<7);
 		bytes[offset_byte + 2]= ((data[offset_data + 5] >> 1 ) & 0x03) | ( (data[offset_data + 6] & 0x7)<<2 ) | ( (data[offset_data + 7] & 0x7)<<5 );
 	}
 }
-- 
2.43.0


From 1302cf76067adf6c74ef8e68e2bba13b77306e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:46 +0000
Subject: [PATCH 09/14] fix: tail_probability counts the bound itself and
 misses the extreme values

---
 Scripts/Python_Scripts/select_params/proba_util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Scripts/Python_Scripts/select_params/proba_util.py b/Scripts/Python_Scripts/select_params/proba_util.py
index 53f9cbc..a06abe8 100644
--- a/Scripts/Python_Scripts/select_params/proba_util.py
+++ b/Scripts/Python_Scripts/select_params/proba_util.py
@@ -7,7 +7,7 @@
 #----------------------------------------------------------------------*/ 
 
 from math import factorial as fac
-from math import log, ceil, erf, sqrt
+from math import log, ceil, floor, erf, sqrt
 
 
 def gaussian_center_weight(sigma, t):
@@ -165,10 +165,10 @@ def tail_probability(D, t):
     :param t: tail parameter (integer)
     '''
     s = 0
-    ma = max(D.keys())
+    ma = max(abs(i) for i in D)
     if t >= ma:
         return 0
-    for i in reversed(range(int(ceil(t)), ma)):  # Summing in reverse for better numerical precision (assuming tails are decreasing)
+    for i in reversed(range(int(floor(t)) + 1, ma + 1)):  # Summing in reverse for better numerical precision (assuming tails are decreasing)
         s += D.get(i, 0) + D.get(-i, 0)
     return s
 
-- 
2.43.0


From 40424e688422bf80aa7fbec489d915d4112d1e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:32 +0000
Subject: [PATCH 10/14] fix: toom_cook_4way_striding_asm swaps the middle
 coefficients and starts from uninitialised carries

---
 .../m4-striding/generate-multiplication.py    |  12 +-
 .../Cortex-M4/src/saber/m4-striding/tc.s      | 260 +++++++++---------
 2 files changed, 136 insertions(+), 136 deletions(-)

diff --git a/Cortex-M_Implementation_KEM/Cortex-M4/src/saber/m4-striding/generate-multiplication.py b/Cortex-M_Implementation_KEM/Cortex-M4/src/saber/m4-striding/generate-multiplication.py
index c8fdd96..ab9e0ed 100644
--- a/Cortex-M_Implementation_KEM/Cortex-M4/src/saber/m4-striding/generate-multiplication.py
+++ b/Cortex-M_Implementation_KEM/Cortex-M4/src/saber/m4-striding/generate-multiplication.py
@@ -26,8 +26,8 @@ def toomcook_256_64(pntA, pntB, pntC):
 		yield f"ldr {r1},[{pntA},#{i*16+4}]"
 		yield f"ldr {r3},[{pntA},#{i*16+12}]"
 		yield f"pkhbt {r8}, {r0}, {r2}, lsl #16"
-		yield f"pkhtb {r2}, {r2}, {r0}, asr #16"
-		yield f"pkhbt {r9}, {r1}, {r3}, lsl #16"
+		yield f"pkhtb {r9}, {r2}, {r0}, asr #16"
+		yield f"pkhbt {r2}, {r1}, {r3}, lsl #16"
 		yield f"pkhtb {r3}, {r3}, {r1}, asr #16"
 		yield f"uadd16 {r4}, {r8}, {r2}"
 		yield f"uadd16 {r5}, {r9}, {r3}"
@@ -63,8 +63,8 @@ def toomcook_256_64(pntA, pntB, pntC):
 		yield f"ldr {r1},[{pntB},#{i*16+4}]"
 		yield f"ldr {r3},[{pntB},#{i*16+12}]"
 		yield f"pkhbt {r8}, {r0}, {r2}, lsl #16"
-		yield f"pkhtb {r2}, {r2}, {r0}, asr #16"
-		yield f"pkhbt {r9}, {r1}, {r3}, lsl #16"
+		yield f"pkhtb {r9}, {r2}, {r0}, asr #16"
+		yield f"pkhbt {r2}, {r1}, {r3}, lsl #16"
 		yield f"pkhtb {r3}, {r3}, {r1}, asr #16"
 		yield f"uadd16 {r4}, {r8}, {r2}"
 		yield f"uadd16 {r5}, {r9}, {r3}"
@@ -129,8 +129,8 @@ def toomcook_256_64(pntA, pntB, pntC):
 	#yield f"add {sp}, {sp}, #{896}"
 	for i in range(32):
 		if i == 0:
-			yield f"eor r9, r9, r9"
-			yield f"eor r8, r8, r8"
+			yield f"eor {r9}, {r9}, {r9}"
+			yield f"eor {r8}, {r8}, {r8}"
 		yield f"ldr {r0},[{pntB},#{128+i*4}]"
 		yield f"ldr {r1},[{pntB},#{i*4}]"
 		yield f"ldr {r2},[{sp},#{896+i*4}]"
diff --git a/Cortex-M_Implementation_KEM/Cortex-M4/src/saber/m4-striding/tc.s b/Cortex-M_Implementation_KEM/Cortex-M4/src/saber/m4-striding/tc.s
index 5445855..03e0e7c 100644
--- a/Cortex-M_Implementation_KEM/Cortex-M4/src/saber/m4-striding/tc.s
+++ b/Cortex-M_Implementation_KEM/Cortex-M4/src/saber/m4-striding/tc.s
@@ -11,8 +11,8 @@ ldr r6, [r0, #8]
 ldr r5, [r0, #4]
 ldr r7, [r0, #12]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -45,8 +45,8 @@ ldr r6, [r0, #24]
 ldr r5, [r0, #20]
 ldr.w r7, [r0, #28]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -79,8 +79,8 @@ ldr r6, [r0, #40]
 ldr r5, [r0, #36]
 ldr.w r7, [r0, #44]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -113,8 +113,8 @@ ldr r6, [r0, #56]
 ldr r5, [r0, #52]
 ldr.w r7, [r0, #60]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -147,8 +147,8 @@ ldr r6, [r0, #72]
 ldr r5, [r0, #68]
 ldr.w r7, [r0, #76]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -181,8 +181,8 @@ ldr r6, [r0, #88]
 ldr r5, [r0, #84]
 ldr.w r7, [r0, #92]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -215,8 +215,8 @@ ldr r6, [r0, #104]
 ldr r5, [r0, #100]
 ldr.w r7, [r0, #108]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -249,8 +249,8 @@ ldr r6, [r0, #120]
 ldr r5, [r0, #116]
 ldr.w r7, [r0, #124]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -283,8 +283,8 @@ ldr.w r6, [r0, #136]
 ldr.w r5, [r0, #132]
 ldr.w r7, [r0, #140]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -317,8 +317,8 @@ ldr.w r6, [r0, #152]
 ldr.w r5, [r0, #148]
 ldr.w r7, [r0, #156]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -351,8 +351,8 @@ ldr.w r6, [r0, #168]
 ldr.w r5, [r0, #164]
 ldr.w r7, [r0, #172]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -385,8 +385,8 @@ ldr.w r6, [r0, #184]
 ldr.w r5, [r0, #180]
 ldr.w r7, [r0, #188]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -419,8 +419,8 @@ ldr.w r6, [r0, #200]
 ldr.w r5, [r0, #196]
 ldr.w r7, [r0, #204]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -453,8 +453,8 @@ ldr.w r6, [r0, #216]
 ldr.w r5, [r0, #212]
 ldr.w r7, [r0, #220]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -487,8 +487,8 @@ ldr.w r6, [r0, #232]
 ldr.w r5, [r0, #228]
 ldr.w r7, [r0, #236]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -521,8 +521,8 @@ ldr.w r6, [r0, #248]
 ldr.w r5, [r0, #244]
 ldr.w r7, [r0, #252]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -555,8 +555,8 @@ ldr.w r6, [r0, #264]
 ldr.w r5, [r0, #260]
 ldr.w r7, [r0, #268]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -589,8 +589,8 @@ ldr.w r6, [r0, #280]
 ldr.w r5, [r0, #276]
 ldr.w r7, [r0, #284]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -623,8 +623,8 @@ ldr.w r6, [r0, #296]
 ldr.w r5, [r0, #292]
 ldr.w r7, [r0, #300]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -657,8 +657,8 @@ ldr.w r6, [r0, #312]
 ldr.w r5, [r0, #308]
 ldr.w r7, [r0, #316]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -691,8 +691,8 @@ ldr.w r6, [r0, #328]
 ldr.w r5, [r0, #324]
 ldr.w r7, [r0, #332]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -725,8 +725,8 @@ ldr.w r6, [r0, #344]
 ldr.w r5, [r0, #340]
 ldr.w r7, [r0, #348]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -759,8 +759,8 @@ ldr.w r6, [r0, #360]
 ldr.w r5, [r0, #356]
 ldr.w r7, [r0, #364]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -793,8 +793,8 @@ ldr.w r6, [r0, #376]
 ldr.w r5, [r0, #372]
 ldr.w r7, [r0, #380]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -827,8 +827,8 @@ ldr.w r6, [r0, #392]
 ldr.w r5, [r0, #388]
 ldr.w r7, [r0, #396]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -861,8 +861,8 @@ ldr.w r6, [r0, #408]
 ldr.w r5, [r0, #404]
 ldr.w r7, [r0, #412]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -895,8 +895,8 @@ ldr.w r6, [r0, #424]
 ldr.w r5, [r0, #420]
 ldr.w r7, [r0, #428]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -929,8 +929,8 @@ ldr.w r6, [r0, #440]
 ldr.w r5, [r0, #436]
 ldr.w r7, [r0, #444]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -963,8 +963,8 @@ ldr.w r6, [r0, #456]
 ldr.w r5, [r0, #452]
 ldr.w r7, [r0, #460]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -997,8 +997,8 @@ ldr.w r6, [r0, #472]
 ldr.w r5, [r0, #468]
 ldr.w r7, [r0, #476]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1031,8 +1031,8 @@ ldr.w r6, [r0, #488]
 ldr.w r5, [r0, #484]
 ldr.w r7, [r0, #492]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1065,8 +1065,8 @@ ldr.w r6, [r0, #504]
 ldr.w r5, [r0, #500]
 ldr.w r7, [r0, #508]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1099,8 +1099,8 @@ ldr r6, [r1, #8]
 ldr r5, [r1, #4]
 ldr.w r7, [r1, #12]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1133,8 +1133,8 @@ ldr r6, [r1, #24]
 ldr r5, [r1, #20]
 ldr.w r7, [r1, #28]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1167,8 +1167,8 @@ ldr r6, [r1, #40]
 ldr r5, [r1, #36]
 ldr.w r7, [r1, #44]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1201,8 +1201,8 @@ ldr r6, [r1, #56]
 ldr r5, [r1, #52]
 ldr.w r7, [r1, #60]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1235,8 +1235,8 @@ ldr r6, [r1, #72]
 ldr r5, [r1, #68]
 ldr.w r7, [r1, #76]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1269,8 +1269,8 @@ ldr r6, [r1, #88]
 ldr r5, [r1, #84]
 ldr.w r7, [r1, #92]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1303,8 +1303,8 @@ ldr r6, [r1, #104]
 ldr r5, [r1, #100]
 ldr.w r7, [r1, #108]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1337,8 +1337,8 @@ ldr r6, [r1, #120]
 ldr r5, [r1, #116]
 ldr.w r7, [r1, #124]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1371,8 +1371,8 @@ ldr.w r6, [r1, #136]
 ldr.w r5, [r1, #132]
 ldr.w r7, [r1, #140]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1405,8 +1405,8 @@ ldr.w r6, [r1, #152]
 ldr.w r5, [r1, #148]
 ldr.w r7, [r1, #156]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1439,8 +1439,8 @@ ldr.w r6, [r1, #168]
 ldr.w r5, [r1, #164]
 ldr.w r7, [r1, #172]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1473,8 +1473,8 @@ ldr.w r6, [r1, #184]
 ldr.w r5, [r1, #180]
 ldr.w r7, [r1, #188]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1507,8 +1507,8 @@ ldr.w r6, [r1, #200]
 ldr.w r5, [r1, #196]
 ldr.w r7, [r1, #204]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1541,8 +1541,8 @@ ldr.w r6, [r1, #216]
 ldr.w r5, [r1, #212]
 ldr.w r7, [r1, #220]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1575,8 +1575,8 @@ ldr.w r6, [r1, #232]
 ldr.w r5, [r1, #228]
 ldr.w r7, [r1, #236]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1609,8 +1609,8 @@ ldr.w r6, [r1, #248]
 ldr.w r5, [r1, #244]
 ldr.w r7, [r1, #252]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1643,8 +1643,8 @@ ldr.w r6, [r1, #264]
 ldr.w r5, [r1, #260]
 ldr.w r7, [r1, #268]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1677,8 +1677,8 @@ ldr.w r6, [r1, #280]
 ldr.w r5, [r1, #276]
 ldr.w r7, [r1, #284]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1711,8 +1711,8 @@ ldr.w r6, [r1, #296]
 ldr.w r5, [r1, #292]
 ldr.w r7, [r1, #300]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1745,8 +1745,8 @@ ldr.w r6, [r1, #312]
 ldr.w r5, [r1, #308]
 ldr.w r7, [r1, #316]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1779,8 +1779,8 @@ ldr.w r6, [r1, #328]
 ldr.w r5, [r1, #324]
 ldr.w r7, [r1, #332]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1813,8 +1813,8 @@ ldr.w r6, [r1, #344]
 ldr.w r5, [r1, #340]
 ldr.w r7, [r1, #348]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1847,8 +1847,8 @@ ldr.w r6, [r1, #360]
 ldr.w r5, [r1, #356]
 ldr.w r7, [r1, #364]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1881,8 +1881,8 @@ ldr.w r6, [r1, #376]
 ldr.w r5, [r1, #372]
 ldr.w r7, [r1, #380]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1915,8 +1915,8 @@ ldr.w r6, [r1, #392]
 ldr.w r5, [r1, #388]
 ldr.w r7, [r1, #396]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1949,8 +1949,8 @@ ldr.w r6, [r1, #408]
 ldr.w r5, [r1, #404]
 ldr.w r7, [r1, #412]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1983,8 +1983,8 @@ ldr.w r6, [r1, #424]
 ldr.w r5, [r1, #420]
 ldr.w r7, [r1, #428]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -2017,8 +2017,8 @@ ldr.w r6, [r1, #440]
 ldr.w r5, [r1, #436]
 ldr.w r7, [r1, #444]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -2051,8 +2051,8 @@ ldr.w r6, [r1, #456]
 ldr.w r5, [r1, #452]
 ldr.w r7, [r1, #460]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -2085,8 +2085,8 @@ ldr.w r6, [r1, #472]
 ldr.w r5, [r1, #468]
 ldr.w r7, [r1, #476]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -2119,8 +2119,8 @@ ldr.w r6, [r1, #488]
 ldr.w r5, [r1, #484]
 ldr.w r7, [r1, #492]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -2153,8 +2153,8 @@ ldr.w r6, [r1, #504]
 ldr.w r5, [r1, #500]
 ldr.w r7, [r1, #508]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -2213,8 +2213,8 @@ add.w r1, r1, #128
 add.w r0, r0, #128
 bl kara_strd_mem_asm
 ldmia.w sp!, {r0, r1, r2}
-eor.w r9, r9, r9
-eor.w r8, r8, r8
+eor.w lr, lr, lr
+eor.w ip, ip, ip
 ldr.w r4, [r1, #128]
 ldr r5, [r1, #0]
 ldr r6, [sp, #896]
-- 
2.43.0


From efe4851cd310bb9f2276186017f1177638636617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:08 +0000
Subject: [PATCH 11/14] fix: generate-multiplication.py for 32 overlaps two
 products and leaks a carry

---
 .../Cortex-M4/src/saber/m4-striding/generate-multiplication.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Cortex-M_Implementation_KEM/Cortex-M4/src/saber/m4-striding/generate-multiplication.py b/Cortex-M_Implementation_KEM/Cortex-M4/src/saber/m4-striding/generate-multiplication.py
index ab9e0ed..83679a9 100644
--- a/Cortex-M_Implementation_KEM/Cortex-M4/src/saber/m4-striding/generate-multiplication.py
+++ b/Cortex-M_Implementation_KEM/Cortex-M4/src/saber/m4-striding/generate-multiplication.py
@@ -485,6 +485,7 @@ def schoolbook_from_next_8x8(SRC1, SRC2, DEST, n):
 			# c14
 			if ((index+28) % (2*n) in is_initialized) and ((index+28) % (2*n) == (index+28)):
 				yield f"smlatt {tmp0},{a3},{b3},{c}"
+				yield f"pkhtb {tmp0}, {c}, {tmp0}"
 				yield f"str {tmp0}, [{DEST}, #{(index+28) % (2*n)}]"
 			else:
 				yield f"smultt {tmp0},{a3},{b3}"
@@ -1110,7 +1111,7 @@ def karatsuba_64_32(pntA, pntB, pntC, pntX):
 	yield f"bl schoolbook_gen"
 	#yield f"pop {{r0-r12, r14}}"
 	yield f"ldr {pntB}, [sp, #8]"
-	yield f"add {pntA}, {pntA}, #{32}"
+	yield f"add {pntA}, {pntA}, #{64}"
 	#yield f"push {{r0-r12, r14}}"
 	yield f"bl schoolbook_gen"
 	#yield f"pop {{r0-r12, r14}}"
-- 
2.43.0


From 885523a42c81a127306105e96fce4a66f7dd38fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:10 +0000
Subject: [PATCH 12/14] fix: the parameter search takes an exactly zero failure
 probability as the best one, not as 2^0

---
 Scripts/Python_Scripts/select_params/select_params.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Scripts/Python_Scripts/select_params/select_params.py b/Scripts/Python_Scripts/select_params/select_params.py
index 855a20c..db56361 100644
--- a/Scripts/Python_Scripts/select_params/select_params.py
+++ b/Scripts/Python_Scripts/select_params/select_params.py
@@ -59,6 +59,8 @@ def search_params(D_s, q, k, n, minsec, maxerror):
             prob = tail_probability(D, q/4.)
             if prob!=0:
     	        prob = log(256*prob,2)
+            else:
+                prob = -float('inf')
 
             # if too low, search for a bigger T
             if prob > maxerror:
-- 
2.43.0


From f809814c0f3ea246fd5c1a8d138b8eb4c69dea7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:22 +0000
Subject: [PATCH 13/14] fix: randombytes indexes its output with an int and
 runs off requests beyond 2 GiB

---
 AVX_Implementation_KEM/rng.c       |  2 +-
 Reference_Implementation_KEM/rng.c |  2 +-
 Variants/SaberX4_avx2/rng.c        | 10 +++++-----
 Variants/uSaber-90s/avx2/rng.c     |  2 +-
 Variants/uSaber-90s/ref/rng.c      |  2 +-
 5 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/AVX_Implementation_KEM/rng.c b/AVX_Implementation_KEM/rng.c
index 43763dd..eb16de3 100644
--- a/AVX_Implementation_KEM/rng.c
+++ b/AVX_Implementation_KEM/rng.c
@@ -156,7 +156,7 @@ int
 randombytes(unsigned char *x, unsigned long long xlen)
 {
     unsigned char   block[16];
-    int             i = 0;
+    unsigned long long i = 0;
     
     while ( xlen > 0 ) {
         //increment V
diff --git a/Reference_Implementation_KEM/rng.c b/Reference_Implementation_KEM/rng.c
index 43763dd..eb16de3 100644
--- a/Reference_Implementation_KEM/rng.c
+++ b/Reference_Implementation_KEM/rng.c
@@ -156,7 +156,7 @@ int
 randombytes(unsigned char *x, unsigned long long xlen)
 {
     unsigned char   block[16];
-    int             i = 0;
+    unsigned long long i = 0;
     
     while ( xlen > 0 ) {
         //increment V
diff --git a/Variants/SaberX4_avx2/rng.c b/Variants/SaberX4_avx2/rng.c
index 427792e..f856f92 100644
--- a/Variants/SaberX4_avx2/rng.c
+++ b/Variants/SaberX4_avx2/rng.c
@@ -180,7 +180,7 @@ int
 randombytes(unsigned char *x, unsigned long long xlen)
 {
     unsigned char   block[16];
-    int             i = 0;
+    unsigned long long i = 0;
     
     while ( xlen > 0 ) {
         //increment V
@@ -213,7 +213,7 @@ int
 randombytes0(unsigned char *x, unsigned long long xlen)
 {
     unsigned char   block[16];
-    int             i = 0;
+    unsigned long long i = 0;
     
     while ( xlen > 0 ) {
         //increment V
@@ -246,7 +246,7 @@ int
 randombytes1(unsigned char *x, unsigned long long xlen)
 {
     unsigned char   block[16];
-    int             i = 0;
+    unsigned long long i = 0;
     
     while ( xlen > 0 ) {
         //increment V
@@ -279,7 +279,7 @@ int
 randombytes2(unsigned char *x, unsigned long long xlen)
 {
     unsigned char   block[16];
-    int             i = 0;
+    unsigned long long i = 0;
     
     while ( xlen > 0 ) {
         //increment V
@@ -312,7 +312,7 @@ int
 randombytes3(unsigned char *x, unsigned long long xlen)
 {
     unsigned char   block[16];
-    int             i = 0;
+    unsigned long long i = 0;
     
     while ( xlen > 0 ) {
         //increment V
diff --git a/Variants/uSaber-90s/avx2/rng.c b/Variants/uSaber-90s/avx2/rng.c
index 43763dd..eb16de3 100644
--- a/Variants/uSaber-90s/avx2/rng.c
+++ b/Variants/uSaber-90s/avx2/rng.c
@@ -156,7 +156,7 @@ int
 randombytes(unsigned char *x, unsigned long long xlen)
 {
     unsigned char   block[16];
-    int             i = 0;
+    unsigned long long i = 0;
     
     while ( xlen > 0 ) {
         //increment V
diff --git a/Variants/uSaber-90s/ref/rng.c b/Variants/uSaber-90s/ref/rng.c
index 43763dd..eb16de3 100644
--- a/Variants/uSaber-90s/ref/rng.c
+++ b/Variants/uSaber-90s/ref/rng.c
@@ -156,7 +156,7 @@ int
 randombytes(unsigned char *x, unsigned long long xlen)
 {
     unsigned char   block[16];
-    int             i = 0;
+    unsigned long long i = 0;
     
     while ( xlen > 0 ) {
         //increment V
-- 
2.43.0


From f60386d336b730da9b5a3633d8a96ffa77e499f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:10 +0000
Subject: [PATCH 14/14] fix: Cortex-M0 memory benchmark painted its canary over
 main's own stack frame

---
 .../Cortex-M0/saber-ref-mem/src/main.c        | 20 ++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/main.c b/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/main.c
index f4ae16d..c9220c9 100644
--- a/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/main.c
+++ b/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/main.c
@@ -135,37 +135,39 @@ int main(void)
 	rng_enable();
 
 
-	volatile unsigned char a; /* Mark the beginning of the stack */
+	volatile unsigned char *a; /* Mark the beginning of the stack: what lies above belongs to main itself */
+	__asm__ volatile("mov %0, sp" : "=r"(a));
+	a--;
 	//int i;
 	//poly sk;
 	canary = 42;
 
-	WRITE_CANARY(&a);
+	WRITE_CANARY(a);
 	crypto_kem_keypair(pk, sk_a);
-	ctr = MAXSTACK - stack_count(canary,&a);
+	ctr = MAXSTACK - stack_count(canary,a);
 	// sprintf((char *)output, "RAM usage of keygen: %d",ctr);
 	//   send_USART_str(output);
 	UART_SendTrace("RAM keygen", 10, ctr);
 
-	WRITE_CANARY(&a);
+	WRITE_CANARY(a);
 	crypto_kem_enc(sendb, key_b, pk);
-	ctr = MAXSTACK - stack_count(canary,&a);
+	ctr = MAXSTACK - stack_count(canary,a);
 	// sprintf((char *)output, "RAM usage of sharedb: %d",ctr);
 	//   send_USART_str(output);
 	UART_SendTrace("RAM encaps", 10, ctr);
 
-	WRITE_CANARY(&a);   
+	WRITE_CANARY(a);   
 	crypto_kem_dec(key_a, sendb, sk_a);
-	ctr = MAXSTACK - stack_count(canary,&a);
+	ctr = MAXSTACK - stack_count(canary,a);
 	// sprintf((char *)output, "RAM usage of shareda: %d",ctr);
 	//   send_USART_str(output);
 	UART_SendTrace("RAM decaps", 10, ctr);
 
-	WRITE_CANARY(&a);
+	WRITE_CANARY(a);
 	crypto_kem_keypair(pk, sk_a);
 	crypto_kem_enc(sendb, key_b, pk);
 	crypto_kem_dec(key_a, sendb, sk_a);
-	ctr = MAXSTACK - stack_count(canary,&a);
+	ctr = MAXSTACK - stack_count(canary,a);
 	// sprintf((char *)output, "RAM usage of KEM: %d",ctr);
 	//   send_USART_str(output);
 	UART_SendTrace("RAM total", 9, ctr);
-- 
2.43.0

