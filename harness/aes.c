/* AES wrapper: AES-128 under the padded key for every key, key length and block. */
#include "verif.h"
#include "ref.h"
#include <wbcrypto/aes.h>
void h_cipher(void) {
  unsigned char kb[24], in[16], out[16], e[16], pk[16], back[16], w[176]; size_t n = sym_range(sym_param("lo", 0), sym_param("hi", 24), "keylen"), i; int r = 1; sym_bytes(kb, 24, "key"); sym_bytes(in, 16, "in");
  unsigned char *k = malloc(n ? n : 1); memcpy(k, kb, n); for (i = 0; i < 16; i++) pk[i] = i < n ? kb[i] : (unsigned char)(16 - n);
  WBCRYPTO_aes_context *ctx = WBCRYPTO_aes_context_init(); r &= WBCRYPTO_aes_init_key(ctx, k, n); r &= WBCRYPTO_aes_encrypt(in, out, ctx);
  ref_aes_expand(pk, 4, w); ref_aes_enc_rk(w, 10, in, e); sym_equal(out, e, 16, "AES encryption equals AES-128 under the padded key");
  r &= WBCRYPTO_aes_decrypt(in, back, ctx); ref_aes_dec_rk(w, 10, in, e); sym_equal(back, e, 16, "AES decryption equals AES-128 under the padded key");
  r &= WBCRYPTO_aes_encrypt(in, out, ctx); ref_aes_enc_rk(w, 10, in, e); sym_equal(out, e, 16, "AES encryption after decryption");
  memcpy(back, in, 16); r &= WBCRYPTO_aes_encrypt(back, back, ctx); sym_equal(back, out, 16, "AES in-place encryption"); memcpy(back, in, 16); r &= WBCRYPTO_aes_decrypt(back, back, ctx); ref_aes_dec_rk(w, 10, in, e); sym_equal(back, e, 16, "AES in-place decryption");
  sym_assert(r == 1, "AES calls report success"); sym_reach("end");
}
void h_rekey(void) {
  unsigned char k1[16], k2[16], in[16], o1[16], o2[16], e[16]; int r = 1; sym_bytes(k1, 16, "key1"); sym_bytes(k2, 16, "key2"); sym_bytes(in, 16, "in");
  WBCRYPTO_aes_context *a = WBCRYPTO_aes_context_init(), *b = WBCRYPTO_aes_context_init(); r &= WBCRYPTO_aes_init_key(a, k1, 16); r &= WBCRYPTO_aes_init_key(b, k1, 16); r &= WBCRYPTO_aes_init_key(b, k2, 16);
  r &= WBCRYPTO_aes_encrypt(in, o1, a); ref_aes128(k1, in, e); sym_equal(o1, e, 16, "AES contexts are independent"); r &= WBCRYPTO_aes_encrypt(in, o2, b); ref_aes128(k2, in, e); sym_equal(o2, e, 16, "AES under a replaced key"); unsigned char w[176]; r &= WBCRYPTO_aes_decrypt(in, o2, b); ref_aes_expand(k2, 4, w); ref_aes_dec_rk(w, 10, in, e); sym_equal(o2, e, 16, "AES decryption under a replaced key");
  sym_assert(r == 1, "AES calls report success"); sym_reach("end");
}
