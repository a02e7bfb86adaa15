From 06e6931fd48a62aed2bdafbe5b5553510ed66c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:08 +0000
Subject: [PATCH 01/17] fix: padding helpers must not realloc the caller's
 buffer nor read before an empty message

---
 src/utils/padding.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/utils/padding.c b/src/utils/padding.c
index 14c9609..647b318 100644
--- a/src/utils/padding.c
+++ b/src/utils/padding.c
@@ -2,7 +2,6 @@
 
 size_t WBCRYPTO_key_padding_pkcs7(const unsigned char *src, size_t srclen, unsigned char *dst){
     int i, pad_num;
-    dst = (unsigned char *)realloc(dst,WBCRYPTO_PADDING_NUM*sizeof(unsigned char));
     memset(dst, 0, WBCRYPTO_PADDING_NUM*sizeof(unsigned char));
     if(srclen>WBCRYPTO_PADDING_NUM){
         for(i=0;i<WBCRYPTO_PADDING_NUM;i++) {
@@ -24,7 +23,6 @@ size_t WBCRYPTO_key_padding_pkcs7(const unsigned char *src, size_t srclen, unsig
 
 size_t WBCRYPTO_key_padding_zeros(const unsigned char *src, size_t srclen, unsigned char *dst){
     int i;
-    dst = (unsigned char *)realloc(dst,WBCRYPTO_PADDING_NUM*sizeof(unsigned char));
     memset(dst, 0, WBCRYPTO_PADDING_NUM*sizeof(unsigned char));
     if(srclen>WBCRYPTO_PADDING_NUM){
         for(i=0;i<WBCRYPTO_PADDING_NUM;i++) {
@@ -46,7 +44,6 @@ size_t WBCRYPTO_key_padding_zeros(const unsigned char *src, size_t srclen, unsig
 size_t WBCRYPTO_padding_pkcs7_merge(unsigned char *src, size_t srclen, unsigned char *dst){
     int i, pad_num, pad_len;
     pad_len = (srclen % 16 == 0)?srclen:((srclen/16)+1) *16;
-    dst = (unsigned char *)realloc(dst, pad_len*sizeof(unsigned char));
     memset(dst, 0, pad_len*sizeof(unsigned char));
     for(i=0;i<srclen;i++) {
         dst[i] = src[i];
@@ -61,12 +58,11 @@ size_t WBCRYPTO_padding_pkcs7_merge(unsigned char *src, size_t srclen, unsigned
 }
 
 size_t WBCRYPTO_padding_pkcs7_separate(unsigned char *src, size_t srclen, unsigned char *dst){
-    int pad_num = (int)src[srclen-1], afpad_len;
-    if(pad_num > 16 || pad_num < 0){
+    int pad_num = srclen ? (int)src[srclen-1] : 0, afpad_len;
+    if(pad_num > 16 || pad_num > srclen){
         pad_num = 0;
     }
     afpad_len = srclen - pad_num;
-    dst = (unsigned char *)realloc(dst,afpad_len*sizeof(unsigned char));
     memcpy(dst, src, afpad_len*sizeof(unsigned char));
     return afpad_len;
 }
@@ -78,8 +74,8 @@ size_t WBCRYPTO_padding_pkcs7_merge_length(unsigned char *src, size_t srclen){
 }
 
 size_t WBCRYPTO_padding_pkcs7_separate_length(unsigned char *src, size_t srclen){
-    int pad_num = src[srclen-1], afpad_len;
-    if(pad_num > 16 || pad_num < 0){
+    int pad_num = srclen ? src[srclen-1] : 0, afpad_len;
+    if(pad_num > 16 || pad_num > srclen){
         pad_num = 0;
     }
     afpad_len = srclen - pad_num;
-- 
2.43.0


From 6aabac4864fcae755a9fa7d0b5fd910a466c446a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:08 +0000
Subject: [PATCH 02/17] fix: CBC pads into its own buffer of the padded size
 and rejects partial ciphertext blocks

---
 src/modes/cbc128.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/modes/cbc128.c b/src/modes/cbc128.c
index d9c964f..7362fd5 100644
--- a/src/modes/cbc128.c
+++ b/src/modes/cbc128.c
@@ -4,12 +4,18 @@ int WBCRYPTO_cbc128_encrypt(const unsigned char *in, size_t inlen,
                             unsigned char *out, size_t max_olen, size_t *use_olen,
                             const void *key, unsigned char ivec[16], block128_f block)
 {
-    int ret=0,len;
-    unsigned char *afin = (unsigned char *)malloc(inlen*sizeof(unsigned char));
-    len = WBCRYPTO_padding_pkcs7_merge((unsigned char *)in, inlen, afin);
+    int ret=0;
+    size_t len = WBCRYPTO_padding_pkcs7_merge_length((unsigned char *)in, inlen);
+    unsigned char *padbuf = NULL, *afin;
     if(max_olen<len){
         WBCRYPTO_THROW_REASON("WBCRYPTO_cbc128_encrypt",WBCRYPTO_INLEN_THAN_OUTLEN);
     }
+    padbuf = (unsigned char *)malloc(len ? len : 1);
+    if(padbuf==NULL){
+        WBCRYPTO_THROW_REASON("WBCRYPTO_cbc128_encrypt",WBCRYPTO_ERR_ALLOC_FAILED);
+    }
+    afin = padbuf;
+    WBCRYPTO_padding_pkcs7_merge((unsigned char *)in, inlen, afin);
     *use_olen = len;
 
     size_t n;
@@ -40,6 +46,7 @@ int WBCRYPTO_cbc128_encrypt(const unsigned char *in, size_t inlen,
     }
     ret=1;
 cleanup:
+    free(padbuf);
     return ret;
 }
 
@@ -47,11 +54,13 @@ int WBCRYPTO_cbc128_decrypt(const unsigned char *in, size_t inlen,
                             unsigned char *out, size_t max_olen, size_t *use_olen,
                             const void *key,unsigned char ivec[16], block128_f block)
 {
-    int ret=0,len;
+    int ret=0;
+    size_t len = inlen;
     if(max_olen<inlen){
         WBCRYPTO_THROW_REASON("WBCRYPTO_cbc128_decrypt",WBCRYPTO_INLEN_THAN_OUTLEN);
-    }else{
-        len=inlen;
+    }
+    if(inlen%16!=0){
+        WBCRYPTO_THROW_REASON("WBCRYPTO_cbc128_decrypt",WBCRYPTO_ERR_BAD_INPUT_DATA);
     }
     size_t n;
     union {
-- 
2.43.0


From e3da26a527f9abd4078e97f712818187e8f7045d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:52 +0000
Subject: [PATCH 03/17] fix: WBCRYPTO_sm3 reports success as documented

---
 src/sm3/sm3.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sm3/sm3.c b/src/sm3/sm3.c
index c62f685..40f5aa7 100644
--- a/src/sm3/sm3.c
+++ b/src/sm3/sm3.c
@@ -199,5 +199,6 @@ int WBCRYPTO_sm3(const unsigned char *msg, size_t msglen, unsigned char *digest)
     WBCRYPTO_sm3_init(&ctx);
     WBCRYPTO_sm3_update(&ctx, msg, msglen);
     WBCRYPTO_sm3_final(&ctx, digest);
+    return 1;
 }
 
-- 
2.43.0


From 89452a767f3421c709d26ce6b34117a6f4da9a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:45 +0000
Subject: [PATCH 04/17] fix: AES pads short keys into the buffer it expands and
 decrypts with a decryption key schedule

---
 include/wbcrypto/aes.h | 1 +
 src/aes/aes.c          | 8 ++++----
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/wbcrypto/aes.h b/include/wbcrypto/aes.h
index 3f7b958..bbefd17 100644
--- a/include/wbcrypto/aes.h
+++ b/include/wbcrypto/aes.h
@@ -10,6 +10,7 @@ extern "C" {
 
     struct aes_context {
         AES_KEY aes_key;
+        AES_KEY aes_dec_key;
     };
 
     typedef struct aes_context WBCRYPTO_aes_context;
diff --git a/src/aes/aes.c b/src/aes/aes.c
index bc77d33..ddd22cc 100644
--- a/src/aes/aes.c
+++ b/src/aes/aes.c
@@ -17,10 +17,10 @@ void WBCRYPTO_aes_context_free(WBCRYPTO_aes_context *ctx){
 }
 
 int WBCRYPTO_aes_init_key(WBCRYPTO_aes_context *ctx, const uint8_t *key, size_t keylen){
-    keylen = keylen >= 16 ? 16 : keylen;
     uint8_t input_key[16];
-    memcpy(input_key, key, keylen);
-    AES_set_encrypt_key(key, 128, &ctx->aes_key);
+    WBCRYPTO_key_padding_pkcs7(key, keylen, input_key);   //Operation after key-padding
+    AES_set_encrypt_key(input_key, 128, &ctx->aes_key);
+    AES_set_decrypt_key(input_key, 128, &ctx->aes_dec_key);
     return 1;
 }
 
@@ -30,6 +30,6 @@ int WBCRYPTO_aes_encrypt(const unsigned char *in, unsigned char *out, WBCRYPTO_a
 }
 
 int WBCRYPTO_aes_decrypt(const unsigned char *in, unsigned char *out, WBCRYPTO_aes_context *ctx){
-    AES_decrypt(in, out, &ctx->aes_key);
+    AES_decrypt(in, out, &ctx->aes_dec_key);
     return 1;
 }
-- 
2.43.0


From 692a0d63b2e386078c934e9c4465bd5707f1da1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:45 +0000
Subject: [PATCH 05/17] fix: setting a new IV also forgets the previous
 message's additional-data length

---
 src/modes/gcm128.c                | 1 +
 src/wbaes/wbaes_wbgcm_ee_mode.c   | 1 +
 src/wbaes/wbaes_wbgcm_mask_mode.c | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/modes/gcm128.c b/src/modes/gcm128.c
index 48b2347..dc65f3c 100644
--- a/src/modes/gcm128.c
+++ b/src/modes/gcm128.c
@@ -109,6 +109,7 @@ int WBCRYPTO_gcm_setiv(WBCRYPTO_gcm_context *ctx,
     memset( ctx->y,   0x00, sizeof(ctx->y  ) );
     memset( ctx->buf, 0x00, sizeof(ctx->buf) );
     ctx->len = 0;
+    ctx->add_len = 0;
 
     if( len == 12 ) {                // GCM natively uses a 12-byte, 96-bit IV
         memcpy( ctx->y, iv, len );   // copy the IV to the top of the 'y' buff
diff --git a/src/wbaes/wbaes_wbgcm_ee_mode.c b/src/wbaes/wbaes_wbgcm_ee_mode.c
index 5a1455f..ffa6a9d 100644
--- a/src/wbaes/wbaes_wbgcm_ee_mode.c
+++ b/src/wbaes/wbaes_wbgcm_ee_mode.c
@@ -109,6 +109,7 @@ int WBCRYPTO_wbaes_wbgcm_ee_setiv(WBCRYPTO_wbgcm_ee_context *ctx, const unsigned
     memset(ctx->y, 0x00, sizeof(ctx->y));
     memset(ctx->buf, 0x00, sizeof(ctx->buf));
     ctx->len = 0;
+    ctx->add_len = 0;
 
     if (len == 12) {                // GCM natively uses a 12-byte, 96-bit IV
         memcpy(ctx->y, iv, len);   // copy the IV to the top of the 'y' buff
diff --git a/src/wbaes/wbaes_wbgcm_mask_mode.c b/src/wbaes/wbaes_wbgcm_mask_mode.c
index 8f1acc0..a9510a8 100644
--- a/src/wbaes/wbaes_wbgcm_mask_mode.c
+++ b/src/wbaes/wbaes_wbgcm_mask_mode.c
@@ -118,6 +118,7 @@ int WBCRYPTO_wbaes_wbgcm_mask_setiv(WBCRYPTO_wbgcm_mask_context *ctx, const unsi
     memset(ctx->y, 0x00, sizeof(ctx->y));
     memset(ctx->buf, 0x00, sizeof(ctx->buf));
     ctx->len = 0;
+    ctx->add_len = 0;
 
     if (len == 12) {                // GCM natively uses a 12-byte, 96-bit IV
         memcpy(ctx->y, iv, len);   // copy the IV to the top of the 'y' buff
-- 
2.43.0


From 39ffce30d65136780b0f11eaabc6725ddcd28cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:45 +0000
Subject: [PATCH 06/17] fix: parallel GCM keeps loop counters per thread,
 hashes ciphertext when decrypting and accepts empty input

---
 src/modes/gcm_parallel.c | 42 ++++++++++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/src/modes/gcm_parallel.c b/src/modes/gcm_parallel.c
index 84fb451..0c65331 100644
--- a/src/modes/gcm_parallel.c
+++ b/src/modes/gcm_parallel.c
@@ -14,6 +14,9 @@ int WBCRYPTO_gcm_parallel_encrypt(WBCRYPTO_gcm_context *ctx,
     block128_f block = ctx->block;
     void *key = ctx->key;
 
+    if (len == 0)
+        return 1;
+
     ctx->len += len; // bump the GCM context's running length count
 
     size_t len_s = (len - 1) / 16 + 1;
@@ -43,7 +46,7 @@ int WBCRYPTO_gcm_parallel_encrypt(WBCRYPTO_gcm_context *ctx,
                 use_len = (len % 16 == 0) ? 16 : len % 16;
             }
             (*block)(y_arr[i], ectr, key);
-            for (j = 0; j < use_len; j++)
+            for (size_t j = 0; j < use_len; j++)
             {
                 out[16 * i + j] = (unsigned char)(ectr[j] ^ in[16 * i + j]);
             }
@@ -63,6 +66,9 @@ int WBCRYPTO_gcm_parallel_encrypt(WBCRYPTO_gcm_context *ctx,
         }
         gcm_mult(ctx, ctx->buf, ctx->buf);
     }
+    for (i = 0; i < len_s; i++)
+        free(y_arr[i]);
+    free(y_arr);
     ret=1;
 cleanup:
     return ret;
@@ -81,6 +87,9 @@ int WBCRYPTO_gcm_parallel_decrypt(WBCRYPTO_gcm_context *ctx,
     block128_f block = ctx->block;
     void *key = ctx->key;
 
+    if (len == 0)
+        return 1;
+
     ctx->len += len; // bump the GCM context's running length count
 
     size_t len_s = (len - 1) / 16 + 1;
@@ -95,6 +104,20 @@ int WBCRYPTO_gcm_parallel_decrypt(WBCRYPTO_gcm_context *ctx,
         for (j = 0; j < 16; j++)
             y_arr[i][j] = ctx->y[j];
     }
+    //unable to parallel: the hash covers the ciphertext, taken before out (which may be in) is written
+    for (i = 0; i < len_s; i++)
+    {
+        size_t use_len = 16;
+        if (i == (len_s - 1))
+        {
+            use_len = (len % 16 == 0) ? 16 : len % 16;
+        }
+        for (j = 0; j < use_len; j++)
+        {
+            ctx->buf[j] ^= in[16 * i + j];
+        }
+        gcm_mult(ctx, ctx->buf, ctx->buf);
+    }
     //able to parallel
 //    int threads_num = omp_get_max_threads();
     omp_set_num_threads(4);
@@ -110,26 +133,15 @@ int WBCRYPTO_gcm_parallel_decrypt(WBCRYPTO_gcm_context *ctx,
                 use_len = (len % 16 == 0) ? 16 : len % 16;
             }
             (*block)(y_arr[i], ectr, key);
-            for (j = 0; j < use_len; j++)
+            for (size_t j = 0; j < use_len; j++)
             {
                 out[16 * i + j] = (unsigned char)(ectr[j] ^ in[16 * i + j]);
             }
         }
     }
-    //unable to parallel
     for (i = 0; i < len_s; i++)
-    {
-        size_t use_len = 16;
-        if (i == (len_s - 1))
-        {
-            use_len = (len % 16 == 0) ? 16 : len % 16;
-        }
-        for (j = 0; j < use_len; j++)
-        {
-            ctx->buf[j] ^= out[16 * i + j];
-        }
-        gcm_mult(ctx, ctx->buf, ctx->buf);
-    }
+        free(y_arr[i]);
+    free(y_arr);
     ret=1;
 cleanup:
     return ret;
-- 
2.43.0


From b9c40aa45386d2a3b6603a9643cf8af83b06d882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:45 +0000
Subject: [PATCH 07/17] fix: white-box GCM tags are decoded for empty messages
 and agree between mask encryption and decryption

---
 src/wbaes/wbaes_wbgcm_ee_mode.c   |  2 +-
 src/wbaes/wbaes_wbgcm_mask_mode.c | 11 +++++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/wbaes/wbaes_wbgcm_ee_mode.c b/src/wbaes/wbaes_wbgcm_ee_mode.c
index ffa6a9d..d02dc8c 100644
--- a/src/wbaes/wbaes_wbgcm_ee_mode.c
+++ b/src/wbaes/wbaes_wbgcm_ee_mode.c
@@ -264,7 +264,7 @@ int WBCRYPTO_wbaes_wbgcm_ee_finish(WBCRYPTO_wbgcm_ee_context *ctx, unsigned char
 
     if (len != 0) memcpy(tag, ctx->base_ectr, len);
 
-    if (orig_len || orig_add_len) {
+    {   // also for an empty message: the table look-ups below remove the encoding of base_ectr
         memset(work_buf, 0x00, 16);
 
         PUT_UINT32_BE((orig_add_len >> 32), work_buf, 0);
diff --git a/src/wbaes/wbaes_wbgcm_mask_mode.c b/src/wbaes/wbaes_wbgcm_mask_mode.c
index a9510a8..0d782c8 100644
--- a/src/wbaes/wbaes_wbgcm_mask_mode.c
+++ b/src/wbaes/wbaes_wbgcm_mask_mode.c
@@ -287,7 +287,7 @@ int WBCRYPTO_wbaes_wbgcm_mask_finish(WBCRYPTO_wbgcm_mask_context *ctx, unsigned
 
     if (len != 0) memcpy(tag, ctx->base_ectr, len);
 
-    if (orig_len || orig_add_len) {
+    {   // also for an empty message: the table look-ups below remove the encoding of base_ectr
         memset(work_buf, 0x00, 16);
 
         PUT_UINT32_BE((orig_add_len >> 32), work_buf, 0);
@@ -299,9 +299,16 @@ int WBCRYPTO_wbaes_wbgcm_mask_finish(WBCRYPTO_wbgcm_mask_context *ctx, unsigned
         wbgcm_mult(ctx, ctx->buf, ctx->buf);
 
         for (i = 0; i < len; i++) {
-            buff_change[i] = key->GBOX_TypeI[i][ctx->buf[i]];
+            buff_change[i] = ctx->buf[i];
+            if (!key->encMode) { //dec mode
+                buff_change[i] = MatMulNumM8(key->L1[i], buff_change[i]);
+            }
+            buff_change[i] = key->GBOX_TypeI[i][buff_change[i]];
 //            tag[i] ^= ctx->buf[i];
             tag[i] = key->GBOX_TypeIII[i][buff_change[i]][tag[i]];
+            if (key->encMode) { //enc mode
+                tag[i] = MatMulNumM8(key->L1[i], tag[i]);
+            }
         }
     }
     return 1;
-- 
2.43.0


From ee6b3ba2408efb210b76faff263610c518dc058e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:45 +0000
Subject: [PATCH 08/17] fix: GCM file decryption verifies the tag, and file
 errors are reported instead of ignored

---
 src/modes/gcmfile.c               | 57 +++++++++++++++++++------------
 src/wbaes/wbaes_wbgcm_ee_file.c   | 57 +++++++++++++++++++------------
 src/wbaes/wbaes_wbgcm_mask_file.c | 57 +++++++++++++++++++------------
 3 files changed, 108 insertions(+), 63 deletions(-)

diff --git a/src/modes/gcmfile.c b/src/modes/gcmfile.c
index bc27395..39d0292 100644
--- a/src/modes/gcmfile.c
+++ b/src/modes/gcmfile.c
@@ -35,7 +35,7 @@ cleanup:
 int WBCRYPTO_gcmfile_encrypt(WBCRYPTO_gcmfile_context *ctx, char *infpath, char *outfpath) {
     int ret = 0;
     int len_outfpath, file_size, block_size;
-    FILE *infp, *tmpfp, *outfp;
+    FILE *infp = NULL, *tmpfp = NULL, *outfp = NULL;
 
     // #0 Open file
     len_outfpath = strlen(outfpath);
@@ -61,7 +61,7 @@ int WBCRYPTO_gcmfile_encrypt(WBCRYPTO_gcmfile_context *ctx, char *infpath, char
     fseek(infp, 0, SEEK_END);
     file_size = ftell(infp);
     memset(size_buf, 0, sizeof(size_t));
-    memcpy(size_buf, &file_size, sizeof(size_t));
+    memcpy(size_buf, &file_size, sizeof(file_size));
     fseek(infp, 0, SEEK_SET);
 
     // GCM Block encrypt
@@ -70,39 +70,48 @@ int WBCRYPTO_gcmfile_encrypt(WBCRYPTO_gcmfile_context *ctx, char *infpath, char
             block_size != 0
             ) {
         WBCRYPTO_gcm_encrypt(ctx->gcm, buf, block_size, out, block_size);
-        fwrite(out, sizeof(unsigned char), block_size, tmpfp);
+        if (fwrite(out, sizeof(unsigned char), block_size, tmpfp) != block_size)
+            WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_encrypt", WBCRYPTO_ERR_FILE_IO);
 
         memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
         memset(out, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     }
 
+    if (ferror(infp))
+        WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_encrypt", WBCRYPTO_ERR_FILE_IO);
+
     // Get Tag of GCM encrypt
     WBCRYPTO_gcm_finish(ctx->gcm, ctx->tag, WBCRYPTO_GCM_FILE_TAG_LEN);
 
     // Finish encrypt
-    fflush(tmpfp);
-    fseek(tmpfp, 0, SEEK_SET);
-    fclose(infp);
+    if (fflush(tmpfp) != 0 || fseek(tmpfp, 0, SEEK_SET) != 0)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_encrypt", WBCRYPTO_ERR_FILE_IO);
 
     // #2 Write cipher file
     // add tag
-    fwrite(&ctx->tag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, outfp);
+    if (fwrite(&ctx->tag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, outfp) != WBCRYPTO_GCM_FILE_TAG_LEN)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_encrypt", WBCRYPTO_ERR_FILE_IO);
     // add file len
-    fwrite(size_buf, sizeof(unsigned char), sizeof(size_t), outfp);
+    if (fwrite(size_buf, sizeof(unsigned char), sizeof(size_t), outfp) != sizeof(size_t))
+        WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_encrypt", WBCRYPTO_ERR_FILE_IO);
     // copy cipher
     memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     while (
             (block_size = fread(buf, sizeof(unsigned char), WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN, tmpfp)) &&
             block_size != 0
             ) {
-        fwrite(buf, sizeof(unsigned char), block_size, outfp);
+        if (fwrite(buf, sizeof(unsigned char), block_size, outfp) != block_size)
+            WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_encrypt", WBCRYPTO_ERR_FILE_IO);
         memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     }
+    if (ferror(tmpfp) || fflush(outfp) != 0)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_encrypt", WBCRYPTO_ERR_FILE_IO);
 
     ret = 1;
 cleanup:
-    fclose(tmpfp);
-    fclose(outfp);
+    if (infp != NULL) fclose(infp);
+    if (tmpfp != NULL) fclose(tmpfp);
+    if (outfp != NULL) fclose(outfp);
     remove(tmp_file_path);
     free(tmp_file_path);
     return ret;
@@ -112,23 +121,22 @@ int WBCRYPTO_gcmfile_decrypt(WBCRYPTO_gcmfile_context *ctx, char *infpath, char
     int ret = 0;
     int file_size = 0, read_size = 0, block_size;
     unsigned char size_buf[sizeof(size_t)];
-    FILE *infp, *outfp;
+    FILE *infp = NULL, *outfp = NULL;
 
     if ((infp = fopen(infpath, "rb")) == NULL) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_decrypt", WBCRYPTO_ERR_NULL_PARAM);
     }
 
-    char flag[WBCRYPTO_GCM_FILE_TAG_LEN + 1];
-    memset(flag, 0, sizeof(flag));
+    unsigned char calc_tag[WBCRYPTO_GCM_FILE_TAG_LEN];
 
     //read tag
-    if (fread(ctx->tag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, infp) == 0) {
+    if (fread(ctx->tag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, infp) != WBCRYPTO_GCM_FILE_TAG_LEN) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_decrypt", WBCRYPTO_ERR_ENCFILE_MODEIFIED);
     }
 
     memset(size_buf, 0, sizeof(size_t));
     // read real length
-    if (fread(size_buf, sizeof(unsigned char), sizeof(size_t), infp) == 0) {
+    if (fread(size_buf, sizeof(unsigned char), sizeof(size_t), infp) != sizeof(size_t)) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_decrypt", WBCRYPTO_ERR_FILE_SIZE_WRONG);
     }
     file_size = (int) ((((size_buf[3] & 0xff) << 24)
@@ -144,7 +152,6 @@ int WBCRYPTO_gcmfile_decrypt(WBCRYPTO_gcmfile_context *ctx, char *infpath, char
     unsigned char out[WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN];
     memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     memset(out, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
-    WBCRYPTO_gcm_finish(ctx->gcm, ctx->tag, WBCRYPTO_GCM_FILE_TAG_LEN);
 
     while (
             (block_size = fread(buf, sizeof(unsigned char), WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN, infp)) &&
@@ -152,22 +159,30 @@ int WBCRYPTO_gcmfile_decrypt(WBCRYPTO_gcmfile_context *ctx, char *infpath, char
             ) {
         WBCRYPTO_gcm_decrypt(ctx->gcm, buf, block_size, out, block_size);
         read_size += block_size;
-        fwrite(out, sizeof(unsigned char), block_size, outfp);
+        if (fwrite(out, sizeof(unsigned char), block_size, outfp) != block_size)
+            WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_decrypt", WBCRYPTO_ERR_FILE_IO);
 
         memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
         memset(out, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     }
 
-    fflush(outfp);
+    if (ferror(infp) || fflush(outfp) != 0)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_decrypt", WBCRYPTO_ERR_FILE_IO);
     // Invalid file
     if (read_size != file_size) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_decrypt", WBCRYPTO_ERR_FILE_SIZE_WRONG);
     }
 
+    // Invalid tag
+    WBCRYPTO_gcm_finish(ctx->gcm, calc_tag, WBCRYPTO_GCM_FILE_TAG_LEN);
+    if (memcmp(calc_tag, ctx->tag, WBCRYPTO_GCM_FILE_TAG_LEN) != 0) {
+        WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_decrypt", WBCRYPTO_ERR_ENCFILE_MODEIFIED);
+    }
+
     ret = 1;
 cleanup:
-    fclose(infp);
-    fclose(outfp);
+    if (infp != NULL) fclose(infp);
+    if (outfp != NULL) fclose(outfp);
     return ret;
 }
 
diff --git a/src/wbaes/wbaes_wbgcm_ee_file.c b/src/wbaes/wbaes_wbgcm_ee_file.c
index d432370..92f4422 100644
--- a/src/wbaes/wbaes_wbgcm_ee_file.c
+++ b/src/wbaes/wbaes_wbgcm_ee_file.c
@@ -4,7 +4,7 @@ int WBCRYPTO_wbaes_wbgcmfile_ee_encrypt(WBCRYPTO_wbgcm_ee_context *ctx, char *in
     int ret = 0;
     int len_outfpath, file_size, block_size;
     unsigned char tag[WBCRYPTO_GCM_FILE_TAG_LEN];
-    FILE *infp, *tmpfp, *outfp;
+    FILE *infp = NULL, *tmpfp = NULL, *outfp = NULL;
 
     // #0 Open file
     len_outfpath = strlen(outfpath);
@@ -30,7 +30,7 @@ int WBCRYPTO_wbaes_wbgcmfile_ee_encrypt(WBCRYPTO_wbgcm_ee_context *ctx, char *in
     fseek(infp, 0, SEEK_END);
     file_size = ftell(infp);
     memset(size_buf, 0, sizeof(size_t));
-    memcpy(size_buf, &file_size, sizeof(size_t));
+    memcpy(size_buf, &file_size, sizeof(file_size));
     fseek(infp, 0, SEEK_SET);
 
     // GCM Block encrypt
@@ -39,39 +39,48 @@ int WBCRYPTO_wbaes_wbgcmfile_ee_encrypt(WBCRYPTO_wbgcm_ee_context *ctx, char *in
             block_size != 0
             ) {
         WBCRYPTO_wbaes_wbgcm_ee_encrypt(ctx, buf, block_size, out, block_size);
-        fwrite(out, sizeof(unsigned char), block_size, tmpfp);
+        if (fwrite(out, sizeof(unsigned char), block_size, tmpfp) != block_size)
+            WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_encrypt", WBCRYPTO_ERR_FILE_IO);
 
         memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
         memset(out, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     }
 
+    if (ferror(infp))
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_encrypt", WBCRYPTO_ERR_FILE_IO);
+
     // Get Tag of GCM encrypt
     WBCRYPTO_wbaes_wbgcm_ee_finish(ctx, tag, WBCRYPTO_GCM_FILE_TAG_LEN);
 
     // Finish encrypt
-    fflush(tmpfp);
-    fseek(tmpfp, 0, SEEK_SET);
-    fclose(infp);
+    if (fflush(tmpfp) != 0 || fseek(tmpfp, 0, SEEK_SET) != 0)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_encrypt", WBCRYPTO_ERR_FILE_IO);
 
     // #2 Write cipher file
     // add tag
-    fwrite(&tag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, outfp);
+    if (fwrite(&tag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, outfp) != WBCRYPTO_GCM_FILE_TAG_LEN)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_encrypt", WBCRYPTO_ERR_FILE_IO);
     // add file len
-    fwrite(size_buf, sizeof(unsigned char), sizeof(size_t), outfp);
+    if (fwrite(size_buf, sizeof(unsigned char), sizeof(size_t), outfp) != sizeof(size_t))
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_encrypt", WBCRYPTO_ERR_FILE_IO);
     // copy cipher
     memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     while (
             (block_size = fread(buf, sizeof(unsigned char), WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN, tmpfp)) &&
             block_size != 0
             ) {
-        fwrite(buf, sizeof(unsigned char), block_size, outfp);
+        if (fwrite(buf, sizeof(unsigned char), block_size, outfp) != block_size)
+            WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_encrypt", WBCRYPTO_ERR_FILE_IO);
         memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     }
+    if (ferror(tmpfp) || fflush(outfp) != 0)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_encrypt", WBCRYPTO_ERR_FILE_IO);
 
     ret = 1;
 cleanup:
-    fclose(tmpfp);
-    fclose(outfp);
+    if (infp != NULL) fclose(infp);
+    if (tmpfp != NULL) fclose(tmpfp);
+    if (outfp != NULL) fclose(outfp);
     remove(tmp_file_path);
     free(tmp_file_path);
     return ret;
@@ -82,23 +91,22 @@ int WBCRYPTO_wbaes_wbgcmfile_ee_decrypt(WBCRYPTO_wbgcm_ee_context *ctx, char *in
     int file_size = 0, read_size = 0, block_size;
     unsigned char size_buf[sizeof(size_t)];
     unsigned char tag[WBCRYPTO_GCM_FILE_TAG_LEN];
-    FILE *infp, *outfp;
+    FILE *infp = NULL, *outfp = NULL;
 
     if ((infp = fopen(infpath, "rb")) == NULL) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_decrypt", WBCRYPTO_ERR_NULL_PARAM);
     }
 
-    char flag[WBCRYPTO_GCM_FILE_TAG_LEN + 1];
-    memset(flag, 0, sizeof(flag));
+    unsigned char calc_tag[WBCRYPTO_GCM_FILE_TAG_LEN];
 
     //read tag
-    if (fread(tag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, infp) == 0) {
+    if (fread(tag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, infp) != WBCRYPTO_GCM_FILE_TAG_LEN) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_decrypt", WBCRYPTO_ERR_ENCFILE_MODEIFIED);
     }
 
     memset(size_buf, 0, sizeof(size_t));
     // read real length
-    if (fread(size_buf, sizeof(unsigned char), sizeof(size_t), infp) == 0) {
+    if (fread(size_buf, sizeof(unsigned char), sizeof(size_t), infp) != sizeof(size_t)) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_decrypt", WBCRYPTO_ERR_FILE_SIZE_WRONG);
     }
     file_size = (int) ((((size_buf[3] & 0xff) << 24)
@@ -114,7 +122,6 @@ int WBCRYPTO_wbaes_wbgcmfile_ee_decrypt(WBCRYPTO_wbgcm_ee_context *ctx, char *in
     unsigned char out[WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN];
     memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     memset(out, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
-    WBCRYPTO_wbaes_wbgcm_ee_finish(ctx, tag, WBCRYPTO_GCM_FILE_TAG_LEN);
 
     while (
             (block_size = fread(buf, sizeof(unsigned char), WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN, infp)) &&
@@ -122,21 +129,29 @@ int WBCRYPTO_wbaes_wbgcmfile_ee_decrypt(WBCRYPTO_wbgcm_ee_context *ctx, char *in
             ) {
         WBCRYPTO_wbaes_wbgcm_ee_decrypt(ctx, buf, block_size, out, block_size);
         read_size += block_size;
-        fwrite(out, sizeof(unsigned char), block_size, outfp);
+        if (fwrite(out, sizeof(unsigned char), block_size, outfp) != block_size)
+            WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_decrypt", WBCRYPTO_ERR_FILE_IO);
 
         memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
         memset(out, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     }
 
-    fflush(outfp);
+    if (ferror(infp) || fflush(outfp) != 0)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_decrypt", WBCRYPTO_ERR_FILE_IO);
     // Invalid file
     if (read_size != file_size) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_decrypt", WBCRYPTO_ERR_FILE_SIZE_WRONG);
     }
 
+    // Invalid tag
+    WBCRYPTO_wbaes_wbgcm_ee_finish(ctx, calc_tag, WBCRYPTO_GCM_FILE_TAG_LEN);
+    if (memcmp(calc_tag, tag, WBCRYPTO_GCM_FILE_TAG_LEN) != 0) {
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_decrypt", WBCRYPTO_ERR_ENCFILE_MODEIFIED);
+    }
+
     ret = 1;
 cleanup:
-    fclose(infp);
-    fclose(outfp);
+    if (infp != NULL) fclose(infp);
+    if (outfp != NULL) fclose(outfp);
     return ret;
 }
\ No newline at end of file
diff --git a/src/wbaes/wbaes_wbgcm_mask_file.c b/src/wbaes/wbaes_wbgcm_mask_file.c
index 94cc621..4196fb5 100644
--- a/src/wbaes/wbaes_wbgcm_mask_file.c
+++ b/src/wbaes/wbaes_wbgcm_mask_file.c
@@ -4,7 +4,7 @@ int WBCRYPTO_wbaes_wbgcmfile_mask_encrypt(WBCRYPTO_wbgcm_mask_context *ctx, char
     int ret = 0;
     int len_outfpath, file_size, block_size;
     unsigned char tag[WBCRYPTO_GCM_FILE_TAG_LEN];
-    FILE *infp, *tmpfp, *outfp;
+    FILE *infp = NULL, *tmpfp = NULL, *outfp = NULL;
 
     // #0 Open file
     len_outfpath = strlen(outfpath);
@@ -30,7 +30,7 @@ int WBCRYPTO_wbaes_wbgcmfile_mask_encrypt(WBCRYPTO_wbgcm_mask_context *ctx, char
     fseek(infp, 0, SEEK_END);
     file_size = ftell(infp);
     memset(size_buf, 0, sizeof(size_t));
-    memcpy(size_buf, &file_size, sizeof(size_t));
+    memcpy(size_buf, &file_size, sizeof(file_size));
     fseek(infp, 0, SEEK_SET);
 
     // GCM Block encrypt
@@ -39,39 +39,48 @@ int WBCRYPTO_wbaes_wbgcmfile_mask_encrypt(WBCRYPTO_wbgcm_mask_context *ctx, char
             block_size != 0
             ) {
         WBCRYPTO_wbaes_wbgcm_mask_encrypt(ctx, buf, block_size, out, block_size);
-        fwrite(out, sizeof(unsigned char), block_size, tmpfp);
+        if (fwrite(out, sizeof(unsigned char), block_size, tmpfp) != block_size)
+            WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_encrypt", WBCRYPTO_ERR_FILE_IO);
 
         memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
         memset(out, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     }
 
+    if (ferror(infp))
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_encrypt", WBCRYPTO_ERR_FILE_IO);
+
     // Get Tag of GCM encrypt
     WBCRYPTO_wbaes_wbgcm_mask_finish(ctx, tag, WBCRYPTO_GCM_FILE_TAG_LEN);
 
     // Finish encrypt
-    fflush(tmpfp);
-    fseek(tmpfp, 0, SEEK_SET);
-    fclose(infp);
+    if (fflush(tmpfp) != 0 || fseek(tmpfp, 0, SEEK_SET) != 0)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_encrypt", WBCRYPTO_ERR_FILE_IO);
 
     // #2 Write cipher file
     // add tag
-    fwrite(&tag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, outfp);
+    if (fwrite(&tag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, outfp) != WBCRYPTO_GCM_FILE_TAG_LEN)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_encrypt", WBCRYPTO_ERR_FILE_IO);
     // add file len
-    fwrite(size_buf, sizeof(unsigned char), sizeof(size_t), outfp);
+    if (fwrite(size_buf, sizeof(unsigned char), sizeof(size_t), outfp) != sizeof(size_t))
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_encrypt", WBCRYPTO_ERR_FILE_IO);
     // copy cipher
     memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     while (
             (block_size = fread(buf, sizeof(unsigned char), WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN, tmpfp)) &&
             block_size != 0
             ) {
-        fwrite(buf, sizeof(unsigned char), block_size, outfp);
+        if (fwrite(buf, sizeof(unsigned char), block_size, outfp) != block_size)
+            WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_encrypt", WBCRYPTO_ERR_FILE_IO);
         memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     }
+    if (ferror(tmpfp) || fflush(outfp) != 0)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_encrypt", WBCRYPTO_ERR_FILE_IO);
 
     ret = 1;
 cleanup:
-    fclose(tmpfp);
-    fclose(outfp);
+    if (infp != NULL) fclose(infp);
+    if (tmpfp != NULL) fclose(tmpfp);
+    if (outfp != NULL) fclose(outfp);
     remove(tmp_file_path);
     free(tmp_file_path);
     return ret;
@@ -82,23 +91,22 @@ int WBCRYPTO_wbaes_wbgcmfile_mask_decrypt(WBCRYPTO_wbgcm_mask_context *ctx, char
     int file_size = 0, read_size = 0, block_size;
     unsigned char size_buf[sizeof(size_t)];
     unsigned char tag[WBCRYPTO_GCM_FILE_TAG_LEN];
-    FILE *infp, *outfp;
+    FILE *infp = NULL, *outfp = NULL;
 
     if ((infp = fopen(infpath, "rb")) == NULL) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_decrypt", WBCRYPTO_ERR_NULL_PARAM);
     }
 
-    char flag[WBCRYPTO_GCM_FILE_TAG_LEN + 1];
-    memset(flag, 0, sizeof(flag));
+    unsigned char calc_tag[WBCRYPTO_GCM_FILE_TAG_LEN];
 
     //read tag
-    if (fread(tag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, infp) == 0) {
+    if (fread(tag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, infp) != WBCRYPTO_GCM_FILE_TAG_LEN) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_decrypt", WBCRYPTO_ERR_ENCFILE_MODEIFIED);
     }
 
     memset(size_buf, 0, sizeof(size_t));
     // read real length
-    if (fread(size_buf, sizeof(unsigned char), sizeof(size_t), infp) == 0) {
+    if (fread(size_buf, sizeof(unsigned char), sizeof(size_t), infp) != sizeof(size_t)) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_decrypt", WBCRYPTO_ERR_FILE_SIZE_WRONG);
     }
     file_size = (int) ((((size_buf[3] & 0xff) << 24)
@@ -114,7 +122,6 @@ int WBCRYPTO_wbaes_wbgcmfile_mask_decrypt(WBCRYPTO_wbgcm_mask_context *ctx, char
     unsigned char out[WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN];
     memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     memset(out, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
-    WBCRYPTO_wbaes_wbgcm_mask_finish(ctx, tag, WBCRYPTO_GCM_FILE_TAG_LEN);
 
     while (
             (block_size = fread(buf, sizeof(unsigned char), WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN, infp)) &&
@@ -122,21 +129,29 @@ int WBCRYPTO_wbaes_wbgcmfile_mask_decrypt(WBCRYPTO_wbgcm_mask_context *ctx, char
             ) {
         WBCRYPTO_wbaes_wbgcm_mask_decrypt(ctx, buf, block_size, out, block_size);
         read_size += block_size;
-        fwrite(out, sizeof(unsigned char), block_size, outfp);
+        if (fwrite(out, sizeof(unsigned char), block_size, outfp) != block_size)
+            WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_decrypt", WBCRYPTO_ERR_FILE_IO);
 
         memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
         memset(out, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     }
 
-    fflush(outfp);
+    if (ferror(infp) || fflush(outfp) != 0)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_decrypt", WBCRYPTO_ERR_FILE_IO);
     // Invalid file
     if (read_size != file_size) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_decrypt", WBCRYPTO_ERR_FILE_SIZE_WRONG);
     }
 
+    // Invalid tag
+    WBCRYPTO_wbaes_wbgcm_mask_finish(ctx, calc_tag, WBCRYPTO_GCM_FILE_TAG_LEN);
+    if (memcmp(calc_tag, tag, WBCRYPTO_GCM_FILE_TAG_LEN) != 0) {
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_decrypt", WBCRYPTO_ERR_ENCFILE_MODEIFIED);
+    }
+
     ret = 1;
 cleanup:
-    fclose(infp);
-    fclose(outfp);
+    if (infp != NULL) fclose(infp);
+    if (outfp != NULL) fclose(outfp);
     return ret;
 }
\ No newline at end of file
-- 
2.43.0


From eafa7b8fdf5ab70bd83c56dd87aae3a3fc14b07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:52 +0000
Subject: [PATCH 09/17] fix: FPE keeps a tweak buffer as long as FF3 and
 FF3-GMAC read

---
 src/fpe/init.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/fpe/init.c b/src/fpe/init.c
index 7e21f6e..28df5d4 100644
--- a/src/fpe/init.c
+++ b/src/fpe/init.c
@@ -16,10 +16,17 @@ WBCRYPTO_fpe_context *WBCRYPTO_fpe_init(const uint8_t *tweak, size_t twklen, uns
     ctx->block = block;
     ctx->radix = radix;
     ctx->tweaklen = twklen;
-    ctx->tweak = (unsigned char *) malloc(twklen);
-    memcpy(ctx->tweak, tweak, twklen);
+    // FF3 reads 8 and FF3-GMAC 16 bytes of tweak: shorter ones are extended with zeros
+    ctx->tweak = (unsigned char *) calloc(twklen > 16 ? twklen : 16, 1);
+    if (!ctx->tweak) {
+        goto cleanup;
+    }
+    if (twklen > 0) {
+        memcpy(ctx->tweak, tweak, twklen);
+    }
     return ctx;
 cleanup:
+    free(ctx);
     return NULL;
 }
 
@@ -44,6 +51,7 @@ WBCRYPTO_fpe_mac_context *WBCRYPTO_fpe_mac_init(const uint8_t *tweak, size_t twk
     ctx->fpe_ctx = WBCRYPTO_fpe_init(tweak, twklen, radix, cipher_ctx, block);
     return ctx;
 cleanup:
+    free(ctx);
     return NULL;
 }
 
-- 
2.43.0


From 83cd53838ee25d4ca1bf060e750c17e6d67f6808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:52 +0000
Subject: [PATCH 10/17] fix: FF1-CMAC chains from the first block when there is
 a single data block

---
 src/fpe/ff1_cmac.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fpe/ff1_cmac.c b/src/fpe/ff1_cmac.c
index 2785a3d..a72e707 100644
--- a/src/fpe/ff1_cmac.c
+++ b/src/fpe/ff1_cmac.c
@@ -120,6 +120,7 @@ int WBCRYPTO_ff1_cmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
         unsigned char Ri[16];
         unsigned char *Qi = Q;
         uint8_t cn_1[16];
+        memcpy(cn_1, R, 16);
         for (int cc = 0; cc < count; ++cc) {
             for (int j = 0; j < 16; ++j) Ri[j] = Qi[j] ^ R[j];
             // AES_encrypt(Ri, R, &aes_enc_ctx);
@@ -291,6 +292,7 @@ int WBCRYPTO_ff1_cmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
         unsigned char Ri[16];
         unsigned char *Qi = Q;
         uint8_t cn_1[16];
+        memcpy(cn_1, R, 16);
         for (int cc = 0; cc < count; ++cc) {
             for (int j = 0; j < 16; ++j) Ri[j] = Qi[j] ^ R[j];
             // AES_encrypt(Ri, R, &aes_enc_ctx);
-- 
2.43.0


From 0da7aaf6ff62aafd1fd99250e0c5c99dd0de11de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:52 +0000
Subject: [PATCH 11/17] fix: FPE rejects inputs shorter than two characters
 instead of aborting

---
 src/fpe/ff1.c      | 4 ++++
 src/fpe/ff1_cmac.c | 4 ++++
 src/fpe/ff3.c      | 4 ++++
 src/fpe/ff3_gmac.c | 4 ++++
 4 files changed, 16 insertions(+)

diff --git a/src/fpe/ff1.c b/src/fpe/ff1.c
index c736995..e44a241 100644
--- a/src/fpe/ff1.c
+++ b/src/fpe/ff1.c
@@ -2,6 +2,8 @@
 #include "fpe_locl.h"
 
 int WBCRYPTO_ff1_encrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *output) {
+    // the Feistel network needs two non-empty halves
+    if (strlen(input) < 2) return 0;
     int ret = 0;
     BIGNUM *bnum = BN_new(),
             *y = BN_new(),
@@ -154,6 +156,8 @@ cleanup:
 }
 
 int WBCRYPTO_ff1_decrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *output) {
+    // the Feistel network needs two non-empty halves
+    if (strlen(input) < 2) return 0;
     int ret = 0;
     BIGNUM *bnum = BN_new(),
             *y = BN_new(),
diff --git a/src/fpe/ff1_cmac.c b/src/fpe/ff1_cmac.c
index a72e707..f18ca20 100644
--- a/src/fpe/ff1_cmac.c
+++ b/src/fpe/ff1_cmac.c
@@ -28,6 +28,8 @@ void generate_cmac_sub_keys(WBCRYPTO_fpe_mac_context *ctx, uint8_t *K1, uint8_t
 }
 
 int WBCRYPTO_ff1_cmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input, char *output) {
+    // the Feistel network needs two non-empty halves
+    if (strlen(input) < 2) return 0;
     int ret = 0;
     BIGNUM *bnum = BN_new(),
             *y = BN_new(),
@@ -201,6 +203,8 @@ cleanup:
 }
 
 int WBCRYPTO_ff1_cmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input, char *output) {
+    // the Feistel network needs two non-empty halves
+    if (strlen(input) < 2) return 0;
     int ret = 0;
     BIGNUM *bnum = BN_new(),
             *y = BN_new(),
diff --git a/src/fpe/ff3.c b/src/fpe/ff3.c
index 3e851d6..c147805 100644
--- a/src/fpe/ff3.c
+++ b/src/fpe/ff3.c
@@ -2,6 +2,8 @@
 #include "fpe_locl.h"
 
 int WBCRYPTO_ff3_encrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *output) {
+    // the Feistel network needs two non-empty halves
+    if (strlen(input) < 2) return 0;
     int ret = 0;
     BIGNUM *bnum = BN_new(),
             *y = BN_new(),
@@ -83,6 +85,8 @@ cleanup:
 }
 
 int WBCRYPTO_ff3_decrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *output) {
+    // the Feistel network needs two non-empty halves
+    if (strlen(input) < 2) return 0;
     int ret = 0;
     BIGNUM *bnum = BN_new(),
             *y = BN_new(),
diff --git a/src/fpe/ff3_gmac.c b/src/fpe/ff3_gmac.c
index aba96af..6cbf418 100644
--- a/src/fpe/ff3_gmac.c
+++ b/src/fpe/ff3_gmac.c
@@ -80,6 +80,8 @@ int gmac_gen_H(WBCRYPTO_fpe_mac_context *ctx, uint64_t *HH, uint64_t *HL) {
 }
 
 int WBCRYPTO_ff3_gmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input, char *output) {
+    // the Feistel network needs two non-empty halves
+    if (strlen(input) < 2) return 0;
     int ret = 0;
     BIGNUM *bnum = BN_new(),
             *y = BN_new(),
@@ -177,6 +179,8 @@ cleanup:
 }
 
 int WBCRYPTO_ff3_gmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input, char *output) {
+    // the Feistel network needs two non-empty halves
+    if (strlen(input) < 2) return 0;
     int ret = 0;
     BIGNUM *bnum = BN_new(),
             *y = BN_new(),
-- 
2.43.0


From eae6ffc848658cdab4b317c9648189cc139076bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:39 +0000
Subject: [PATCH 12/17] fix: FPE applications pad short keys instead of using
 uninitialised key bytes

---
 src/fpe_app/init.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/fpe_app/init.c b/src/fpe_app/init.c
index 95db799..bf40ce6 100644
--- a/src/fpe_app/init.c
+++ b/src/fpe_app/init.c
@@ -5,9 +5,8 @@ int WBCRYPTO_fpe_app_init(WBCRYPTO_fpe_app_context *ctx, const uint8_t *key, siz
     int ret = 0;
     ctx->cipher = cipher;
     ctx->ffx = ffx;
-    keylen = keylen >= 16 ? 16 : keylen;
     uint8_t input_key[16];
-    memcpy(input_key, key, keylen);
+    WBCRYPTO_key_padding_pkcs7(key, keylen, input_key);
     if (strcmp(ctx->cipher, WBCYRPTO_FPE_CIPHER_SM4) == 0) {
         WBCRYPTO_sm4_context *sm4_ctx = WBCRYPTO_sm4_context_init();
         WBCRYPTO_sm4_init_key(sm4_ctx, input_key, sizeof(input_key));
-- 
2.43.0


From cb696d409fc42c96d2e38ac24b61653fec0116e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:07 +0000
Subject: [PATCH 13/17] fix: FPE applications size and terminate their strings
 and report failed encryption

---
 src/fpe_app/cn_utf8.c   | 53 ++++++++++++++++++++++++++++-------------
 src/fpe_app/idcard.c    | 13 ++++++----
 src/fpe_app/phone.c     | 10 +++++---
 src/fpe_app/utf8_util.c |  2 +-
 4 files changed, 53 insertions(+), 25 deletions(-)

diff --git a/src/fpe_app/cn_utf8.c b/src/fpe_app/cn_utf8.c
index 875d71a..fe4dac5 100644
--- a/src/fpe_app/cn_utf8.c
+++ b/src/fpe_app/cn_utf8.c
@@ -6,22 +6,34 @@
 #include <ctype.h>
 #include "utf8_util.h"
 
+// steps over the sample entry of one character: a '*' or a three-byte character; characters after the end of the sample are kept
+static int sample_encrypts(const char *sample, int *pos) {
+    int k;
+    if (sample[*pos] == '*') {
+        ++*pos;
+        return 1;
+    }
+    for (k = 0; k < 3 && sample[*pos] != '\0'; k++) {
+        ++*pos;
+    }
+    return 0;
+}
+
 int aux_fpe_cn(WBCRYPTO_fpe_app_context *ctx, char *cn, char *sample, char *after_cn, fpe_block128_f block) {
     int ret = 0;
     int len = strlen(cn) / 3;
-    int i, tweak_len = 0;
+    int i, pos = 0, tweak_len = 0;
 
-    for (i = 0; i < strlen(sample); i++) {
-        if (sample[i] == '*') {
-            ++tweak_len;
-        }
-    }
     if (strcmp(sample, "") != 0) {
-        tweak_len = len - tweak_len;
+        for (i = 0; i < len; i++) {
+            if (!sample_encrypts(sample, &pos)) {
+                ++tweak_len;
+            }
+        }
     }
     char input[(len - tweak_len) * 4 + 1];
     char tweak[tweak_len * 4 + 1];
-    char ans[(len - tweak_len) * 4];
+    char ans[(len - tweak_len) * 4 + 1];
     char *input_p = input;
     char *tweak_p = tweak;
     char *ch = cn;
@@ -29,21 +41,25 @@ int aux_fpe_cn(WBCRYPTO_fpe_app_context *ctx, char *cn, char *sample, char *afte
         for (i = 0; i < len; i++, ch += 3) {
             uint32_t uc = utf8CharToUint32(ch);
             int uc_int = utf8Uint32ToInt(uc);
+            if (uc_int < 0 || uc_int > 20735) { // no four-digit duodecimal form
+                return 0;
+            }
             utf8IntToCharDuodecimal(uc_int, input_p);
             input_p += 4;
         }
     } else {
-        for (i = 0; i < strlen(sample); ch += 3) {
+        for (i = 0, pos = 0; i < len; i++, ch += 3) {
             uint32_t uc = utf8CharToUint32(ch);
             int uc_int = utf8Uint32ToInt(uc);
-            if (sample[i] == '*') {
+            if (uc_int < 0 || uc_int > 20735) { // no four-digit duodecimal form
+                return 0;
+            }
+            if (sample_encrypts(sample, &pos)) {
                 utf8IntToCharDuodecimal(uc_int, input_p);
                 input_p += 4;
-                ++i;
             } else {
                 utf8IntToCharDuodecimal(uc_int, tweak_p);
                 tweak_p += 4;
-                i += 3;
             }
         }
     }
@@ -62,7 +78,10 @@ int aux_fpe_cn(WBCRYPTO_fpe_app_context *ctx, char *cn, char *sample, char *afte
     } else { // default: aes
         fpe_ctx = WBCRYPTO_aes_fpe_init(ctx->cipher_ctx, tweak, sizeof(tweak), 12);
     }
-    (*block)(fpe_ctx, input, ans);
+    if (fpe_ctx == NULL) {
+        goto cleanup;
+    }
+    WBCRYPTO_MPI_CHK((*block)(fpe_ctx, input, ans));
 
     char *ori_add = cn;
     char *ans_p = ans;
@@ -75,20 +94,20 @@ int aux_fpe_cn(WBCRYPTO_fpe_app_context *ctx, char *cn, char *sample, char *afte
             ans_p += 4;
         }
     } else {
-        for (i = 0; i < strlen(sample); af_p += 3, ori_add += 3) {
-            if (sample[i] == '*') {
+        for (i = 0, pos = 0; i < len; i++, af_p += 3, ori_add += 3) {
+            if (sample_encrypts(sample, &pos)) {
                 int uc_int = utf8CharDuodecimalToInt(ans_p);
                 uint32_t uc = utf8IntToUint32(uc_int);
                 utf8Uint32ToChar(uc, af_p);
                 ans_p += 4;
-                ++i;
             } else {
                 memcpy(af_p, ori_add, 3);
-                i += 3;
             }
         }
     }
 
+    *af_p = '\0';
+
     ret = 1;
 cleanup:
     WBCRYPTO_fpe_free(fpe_ctx);
diff --git a/src/fpe_app/idcard.c b/src/fpe_app/idcard.c
index ee685ca..a610e22 100644
--- a/src/fpe_app/idcard.c
+++ b/src/fpe_app/idcard.c
@@ -10,7 +10,7 @@ aux_fpe_idcard(WBCRYPTO_fpe_app_context *ctx, char *idcard, char *sample, char *
     int ret = 0;
     int len = strlen(idcard);
     int i, j, k, tweak_len = 0;
-    if (idcard[len - 1] == 'X') {
+    if (len > 0 && idcard[len - 1] == 'X') {
         len--;
     }
     if (strcmp(sample, "") != 0) {
@@ -22,7 +22,7 @@ aux_fpe_idcard(WBCRYPTO_fpe_app_context *ctx, char *idcard, char *sample, char *
     }
     char input[len - tweak_len + 1];
     char tweak[tweak_len + 1];
-    char ans[len - tweak_len];
+    char ans[len - tweak_len + 1];
     for (i = 0, j = 0, k = 0; i < len; i++) {
         if (strcmp(sample, "") != 0 && sample[i] != '*') {
             tweak[k++] = idcard[i];
@@ -33,7 +33,7 @@ aux_fpe_idcard(WBCRYPTO_fpe_app_context *ctx, char *idcard, char *sample, char *
     input[len - tweak_len] = '\0';
     tweak[tweak_len] = '\0';
 
-    WBCRYPTO_fpe_context *fpe_ctx;
+    WBCRYPTO_fpe_context *fpe_ctx = NULL;
     if (strcmp(ctx->cipher, WBCYRPTO_FPE_CIPHER_SM4) == 0) {
         fpe_ctx = WBCRYPTO_sm4_fpe_init(ctx->cipher_ctx, tweak, sizeof(tweak), 10);
     } else if (strcmp(ctx->cipher, WBCYRPTO_FPE_CIPHER_WBSM4) == 0) {
@@ -45,7 +45,10 @@ aux_fpe_idcard(WBCRYPTO_fpe_app_context *ctx, char *idcard, char *sample, char *
     } else { // default: aes
         fpe_ctx = WBCRYPTO_aes_fpe_init(ctx->cipher_ctx, tweak, sizeof(tweak), 10);
     }
-    (*block)(fpe_ctx, input, ans);
+    if (fpe_ctx == NULL) {
+        goto cleanup;
+    }
+    WBCRYPTO_MPI_CHK((*block)(fpe_ctx, input, ans));
 
     for (i = 0, j = 0; i < len; i++) {
         if (strcmp(sample, "") != 0 && sample[i] != '*') {
@@ -56,7 +59,9 @@ aux_fpe_idcard(WBCRYPTO_fpe_app_context *ctx, char *idcard, char *sample, char *
     }
     if (idcard[len] == 'X') {
         after_idcard[len] = 'X';
+        len++;
     }
+    after_idcard[len] = '\0';
 
     ret = 1;
 cleanup:
diff --git a/src/fpe_app/phone.c b/src/fpe_app/phone.c
index 6d2a452..f55843a 100644
--- a/src/fpe_app/phone.c
+++ b/src/fpe_app/phone.c
@@ -18,7 +18,7 @@ int aux_fpe_phone(WBCRYPTO_fpe_app_context *ctx, char *phone, char *sample, char
     input[len - tweak_len] = '\0';
     char tweak[tweak_len + 1];
     tweak[tweak_len] = '\0';
-    char ans[len - tweak_len];
+    char ans[len - tweak_len + 1];
     for (i = 0, j = 0, k = 0; i < len; i++) {
         if (strcmp(sample, "") != 0 && sample[i] != '*') {
             tweak[k++] = phone[i];
@@ -27,7 +27,7 @@ int aux_fpe_phone(WBCRYPTO_fpe_app_context *ctx, char *phone, char *sample, char
         }
     }
 
-    WBCRYPTO_fpe_context *fpe_ctx;
+    WBCRYPTO_fpe_context *fpe_ctx = NULL;
     if (strcmp(ctx->cipher, WBCYRPTO_FPE_CIPHER_SM4) == 0) {
         fpe_ctx = WBCRYPTO_sm4_fpe_init(ctx->cipher_ctx, tweak, sizeof(tweak), 10);
     } else if (strcmp(ctx->cipher, WBCYRPTO_FPE_CIPHER_WBSM4) == 0) {
@@ -39,7 +39,10 @@ int aux_fpe_phone(WBCRYPTO_fpe_app_context *ctx, char *phone, char *sample, char
     } else { //default:aes
         fpe_ctx = WBCRYPTO_aes_fpe_init(ctx->cipher_ctx, tweak, sizeof(tweak), 10);
     }
-    (*block)(fpe_ctx, input, ans);
+    if (fpe_ctx == NULL) {
+        goto cleanup;
+    }
+    WBCRYPTO_MPI_CHK((*block)(fpe_ctx, input, ans));
 
     for (i = 0, j = 0; i < len; i++) {
         if (strcmp(sample, "") != 0 && sample[i] != '*') {
@@ -48,6 +51,7 @@ int aux_fpe_phone(WBCRYPTO_fpe_app_context *ctx, char *phone, char *sample, char
             after_phone[i] = ans[j++];
         }
     }
+    after_phone[len] = '\0';
 
     ret = 1;
 cleanup:
diff --git a/src/fpe_app/utf8_util.c b/src/fpe_app/utf8_util.c
index eb404ac..a639e98 100644
--- a/src/fpe_app/utf8_util.c
+++ b/src/fpe_app/utf8_util.c
@@ -70,7 +70,7 @@ void utf8IntToCharDuodecimal(int dec, char result[]) {
         num /= 12;
         i++;
     }
-    while (i <= 4) {
+    while (i < 4) {
         result[i++] = '0';
     }
 }
-- 
2.43.0


From 8081ff473cefa898a6febc681e977ac6d50f5d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:27 +0000
Subject: [PATCH 14/17] fix: WBSM4 dummy rounds use defined tables and real
 rounds keep their keys when dummy rounds are adjacent

---
 src/wbsm4/wbsm4_gen.c | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/wbsm4/wbsm4_gen.c b/src/wbsm4/wbsm4_gen.c
index c67b97b..249461e 100644
--- a/src/wbsm4/wbsm4_gen.c
+++ b/src/wbsm4/wbsm4_gen.c
@@ -164,14 +164,10 @@ int WBCRYPTO_wbsm4_gen_table(WBCRYPTO_wbsm4_context *wbsm4_ctx,
         D[i].Vec.V ^= P[i + 4].Vec.V ^ temp_u32;
     }
 
-    int flag = 0;
-    int point;
-    for (i = 0, point=0; i < wbsm4_ctx->rounds; i++, point++)
+    int point; // index of the real round that table i implements
+    for (i = 0, point=0; i < wbsm4_ctx->rounds; i++)
     {
         if(dummy_array[i]==0) {
-            point = flag ? point - 4 : point;
-            flag = 0;
-
             //1
             for (j = 0; j < 3; j++) {
                 Q_constant[j] = cus_random();
@@ -230,12 +226,15 @@ int WBCRYPTO_wbsm4_gen_table(WBCRYPTO_wbsm4_context *wbsm4_ctx,
                 }
                 wbsm4_ctx->Table[i][3][x] ^= Q[point].Vec.V ^ Q_constant[0] ^ Q_constant[1] ^ Q_constant[2];
             }
+            point++;
         }else{
-            flag=1;
             for(j=0;j<4;j++){
                 for(x=0;x<256;x++){
                     wbsm4_ctx->Table[i][j][x]=0;
-//                    wbsm4_ctx->DD[i][j][x]=0;
+                    wbsm4_ctx->DD[i][j][x]=0;
+                    wbsm4_ctx->MM[i][0][j][x]=0;
+                    wbsm4_ctx->MM[i][1][j][x]=0;
+                    wbsm4_ctx->MM[i][2][j][x]=0;
                 }
             }
 //            identityAff32(&wbsm4_ctx->CC[i]);
-- 
2.43.0


From 940ea5052d2ee5dd44db120bf0e16ceef4e32889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:27 +0000
Subject: [PATCH 15/17] fix: key files report missing, short and unwritable
 files, and WBSM4 key files cannot overrun the context

---
 src/utils/keystore.c    | 20 ++++++++++++++------
 src/wbsm4/wbsm4_exkey.c | 27 ++++++++++++++++++++-------
 2 files changed, 34 insertions(+), 13 deletions(-)

diff --git a/src/utils/keystore.c b/src/utils/keystore.c
index f84ecfa..c46204a 100644
--- a/src/utils/keystore.c
+++ b/src/utils/keystore.c
@@ -2,28 +2,36 @@
 
 int WBCRYPTO_keystore_file_to_key(void *ctx, size_t ctx_len, char *fpath){
     int ret=0;
-    FILE *rkey;
+    FILE *rkey = NULL;
 
     if((rkey = fopen(fpath,"rb"))==NULL){
         WBCRYPTO_THROW_REASON("WBCRYPTO_keystore_file_to_key",WBCRYPTO_ERR_FILE_IO);
     }
-    fread(ctx , ctx_len, 1, rkey);
+    if(ctx_len>0 && fread(ctx , ctx_len, 1, rkey)!=1){
+        WBCRYPTO_THROW_REASON("WBCRYPTO_keystore_file_to_key",WBCRYPTO_ERR_READ_BAD_FILE);
+    }
     ret=1;
 cleanup:
-    fclose(rkey);
+    if(rkey!=NULL){
+        fclose(rkey);
+    }
     return ret;
 }
 
 int WBCRYPTO_keystore_key_to_file(const void *ctx, size_t ctx_len, char *fpath){
     int ret=0;
-    FILE *wkey;
+    FILE *wkey = NULL;
 
     if((wkey = fopen(fpath,"wb+"))==NULL){
         WBCRYPTO_THROW_REASON("WBCRYPTO_keystore_key_to_file",WBCRYPTO_ERR_FILE_IO);
     }
-    fwrite( ctx, ctx_len, 1, wkey);
+    if(ctx_len>0 && fwrite( ctx, ctx_len, 1, wkey)!=1){
+        WBCRYPTO_THROW_REASON("WBCRYPTO_keystore_key_to_file",WBCRYPTO_ERR_FILE_IO);
+    }
     ret=1;
 cleanup:
-    fclose(wkey);
+    if(wkey!=NULL && fclose(wkey)!=0){
+        ret=0;
+    }
     return ret;
 }
\ No newline at end of file
diff --git a/src/wbsm4/wbsm4_exkey.c b/src/wbsm4/wbsm4_exkey.c
index 006338a..4099511 100644
--- a/src/wbsm4/wbsm4_exkey.c
+++ b/src/wbsm4/wbsm4_exkey.c
@@ -2,13 +2,15 @@
 
 int WBCRYPTO_wbsm4_key2file(const WBCRYPTO_wbsm4_context *ctx, char *fpath){
     int ret=0;
-    FILE *wkey;
+    FILE *wkey = NULL;
     int i,j,k,l;
 
     if((wkey = fopen(fpath,"wb+"))==NULL){
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbsm4_key2file",WBCRYPTO_ERR_FILE_IO);
     }
-    fputs("DummyRound-WBSM4", wkey);
+    if(fputs("DummyRound-WBSM4", wkey)<0){
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbsm4_key2file",WBCRYPTO_ERR_READ_BAD_FILE);
+    }
     if(!fwrite(&ctx->rounds, sizeof(int), 1, wkey)
         ||!fwrite(&ctx->encmode, sizeof(int), 1, wkey)){
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbsm4_key2file",WBCRYPTO_ERR_READ_BAD_FILE);
@@ -43,14 +45,17 @@ int WBCRYPTO_wbsm4_key2file(const WBCRYPTO_wbsm4_context *ctx, char *fpath){
     }
     ret=1;
 cleanup:
-    fclose(wkey);
+    if(wkey!=NULL && fclose(wkey)!=0){
+        ret=0;
+    }
     return ret;
 }
 
 int WBCRYPTO_wbsm4_file2key(WBCRYPTO_wbsm4_context *ctx, char *fpath){
     int ret=0;
-    FILE *rkey;
+    FILE *rkey = NULL;
     int i,j,k,l;
+    int rounds, encmode;
 
     if((rkey = fopen(fpath,"rb"))==NULL){
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbsm4_file2key",WBCRYPTO_ERR_FILE_IO);
@@ -61,10 +66,16 @@ int WBCRYPTO_wbsm4_file2key(WBCRYPTO_wbsm4_context *ctx, char *fpath){
     if(strcmp(algname, "DummyRound-WBSM4")!=0){
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbsm4_file2key",WBCRYPTO_ERR_READ_BAD_FILE);
     }
-    if(!fread(&ctx->rounds, sizeof(int), 1, rkey)
-       ||!fread(&ctx->encmode, sizeof(int), 1, rkey)){
+    if(!fread(&rounds, sizeof(int), 1, rkey)
+       ||!fread(&encmode, sizeof(int), 1, rkey)){
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbsm4_file2key",WBCRYPTO_ERR_READ_BAD_FILE);
     }
+    // the tables of the context hold ctx->rounds rounds
+    if(rounds<32 || rounds>ctx->rounds){
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbsm4_file2key",WBCRYPTO_ERR_READ_BAD_FILE);
+    }
+    ctx->rounds = rounds;
+    ctx->encmode = encmode;
     for (i = 0;  i< ctx->rounds; i++) {
         for (j = 0;  j<3 ; j++) {
             for (k = 0;  k<4 ; k++) {
@@ -95,7 +106,9 @@ int WBCRYPTO_wbsm4_file2key(WBCRYPTO_wbsm4_context *ctx, char *fpath){
     }
     ret=1;
 cleanup:
-    fclose(rkey);
+    if(rkey!=NULL){
+        fclose(rkey);
+    }
     return ret;
 }
 
-- 
2.43.0


From 14f45354e0afea94bf5e148701fe8456869adbc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:27 +0000
Subject: [PATCH 16/17] fix: exported WBSM4 keys carry their tables instead of
 pointers into the exporting process

---
 src/wbsm4/wbsm4_exkey.c | 45 +++++++++++++++++++++++++++++++++++------
 1 file changed, 39 insertions(+), 6 deletions(-)

diff --git a/src/wbsm4/wbsm4_exkey.c b/src/wbsm4/wbsm4_exkey.c
index 4099511..321f5e6 100644
--- a/src/wbsm4/wbsm4_exkey.c
+++ b/src/wbsm4/wbsm4_exkey.c
@@ -112,16 +112,40 @@ cleanup:
     return ret;
 }
 
+// copies the round tables between the context and a flat buffer
+static void tables_copy(const WBCRYPTO_wbsm4_context *ctx, uint8_t *buf, int to_buf){
+    int i,j,k;
+    size_t n = 256*sizeof(uint32_t);
+    for (i = 0;  i< ctx->rounds; i++) {
+        for (j = 0;  j<4 ; j++) {
+            uint32_t *t[6] = {ctx->MM[i][0][j], ctx->MM[i][1][j], ctx->MM[i][2][j], ctx->CC[i][j], ctx->DD[i][j], ctx->Table[i][j]};
+            for (k = 0;  k<6 ; k++) {
+                if(to_buf){
+                    memcpy(buf, t[k], n);
+                }else{
+                    memcpy(t[k], buf, n);
+                }
+                buf += n;
+            }
+        }
+    }
+}
+
 int WBCRYPTO_wbsm4_key2bytes(const WBCRYPTO_wbsm4_context *ctx, char **kstream){
     int ret=0;
-    int ks_len = 0;
+    uint32_t ks_len = 0;
 
     ks_len = sizeof(struct wbsm4_context);
     ks_len += sizeof(uint32_t);
+    ks_len += ctx->rounds*4*6*256*sizeof(uint32_t);
     *kstream = malloc(ks_len);
+    if(*kstream==NULL){
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbsm4_key2bytes",WBCRYPTO_ERR_ALLOC_FAILED);
+    }
     *((uint32_t *)*kstream) = ks_len;
-    uint8_t* ds  = *kstream + sizeof(uint32_t);
+    uint8_t* ds  = (uint8_t *)*kstream + sizeof(uint32_t);
     memcpy(ds, ctx, sizeof(struct wbsm4_context));
+    tables_copy(ctx, ds + sizeof(struct wbsm4_context), 1);
 
     ret=1;
 cleanup:
@@ -130,14 +154,23 @@ cleanup:
 
 int WBCRYPTO_wbsm4_bytes2key(WBCRYPTO_wbsm4_context *ctx, const char *kstream){
     int ret=0;
+    struct wbsm4_context head, *own = NULL;
 
-    const uint8_t  *ptr = kstream;
+    const uint8_t  *ptr = (const uint8_t *)kstream;
     ptr += sizeof(uint32_t);
-    memcpy(ctx, ptr, sizeof(struct wbsm4_context));
+    memcpy(&head, ptr, sizeof(struct wbsm4_context));
+    // the pointers in the stream are the exporter's: the tables get memory of their own
+    own = WBCRYPTO_wbsm4_context_init(head.encmode, (head.rounds-32)/4);
+    if(own==NULL){
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbsm4_bytes2key",WBCRYPTO_ERR_ALLOC_FAILED);
+    }
+    memcpy(own->SE, head.SE, sizeof(head.SE));
+    memcpy(own->FE, head.FE, sizeof(head.FE));
+    tables_copy(own, (uint8_t *)ptr + sizeof(struct wbsm4_context), 0);
+    *ctx = *own;
+    free(own);
 
     ret=1;
 cleanup:
     return ret;
 }
-
-
-- 
2.43.0


From 72ff0ecad2dac80418086aadb3436b5ed9a486b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:32 +0000
Subject: [PATCH 17/17] fix: white-box AES table generation read 16 key bytes
 whatever the key length

---
 src/wbaes/wbaes.c                 | 4 +++-
 src/wbaes/wbaes_wbgcm_ee_init.c   | 4 +++-
 src/wbaes/wbaes_wbgcm_mask_init.c | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/wbaes/wbaes.c b/src/wbaes/wbaes.c
index 6f048ce..7fcf152 100644
--- a/src/wbaes/wbaes.c
+++ b/src/wbaes/wbaes.c
@@ -20,7 +20,9 @@ void WBCRYPTO_wbaes_context_free(WBCRYPTO_wbaes_context *ctx){
 int WBCRYPTO_wbaes_gen_table(WBCRYPTO_wbaes_context *ctx, const uint8_t *key, size_t keylen) {
     int i, j, x, y, k;
     uint8_t expandedKey[176];
-    expandKey(key, expandedKey);
+    uint8_t input_key[16];
+    WBCRYPTO_key_padding_pkcs7(key, keylen, input_key);   //Operation after key-padding
+    expandKey(input_key, expandedKey);
 
     M8 L[9][16];
     M8 L_inv[9][16];
diff --git a/src/wbaes/wbaes_wbgcm_ee_init.c b/src/wbaes/wbaes_wbgcm_ee_init.c
index af91483..08b93ec 100644
--- a/src/wbaes/wbaes_wbgcm_ee_init.c
+++ b/src/wbaes/wbaes_wbgcm_ee_init.c
@@ -5,7 +5,9 @@ void WBCRYPTO_wbaes_wbgcm_ee_gen_table(WBCRYPTO_wbaes_wbgcm_ee_context *ctx, con
 {
     int i, j, x, y, k;
     uint8_t expandedKey[176];
-    expandKey(key, expandedKey);
+    uint8_t input_key[16];
+    WBCRYPTO_key_padding_pkcs7(key, keylen, input_key);   //Operation after key-padding
+    expandKey(input_key, expandedKey);
 
     M8 L[9][16];
     M8 L_inv[9][16];
diff --git a/src/wbaes/wbaes_wbgcm_mask_init.c b/src/wbaes/wbaes_wbgcm_mask_init.c
index f69a232..6476689 100644
--- a/src/wbaes/wbaes_wbgcm_mask_init.c
+++ b/src/wbaes/wbaes_wbgcm_mask_init.c
@@ -31,7 +31,9 @@ void WBCRYPTO_wbaes_wbgcm_mask_gen_aes_table(WBCRYPTO_wbaes_wbgcm_mask_context *
 {
     int i, j, x, y, k;
     uint8_t expandedKey[176];
-    expandKey(key, expandedKey);
+    uint8_t input_key[16];
+    WBCRYPTO_key_padding_pkcs7(key, keylen, input_key);   //Operation after key-padding
+    expandKey(input_key, expandedKey);
 
     M8 L[9][16];
     M8 L_inv[9][16];
-- 
2.43.0

