/* SM4: every block under every key equals the standard; decryption inverts encryption; short and long keys follow the padding rule. */
#include "verif.h"
#include "ref.h"
#include <wbcrypto/sm4.h>
void h_cipher(void) {
  unsigned char key[16], in[16], out[16], back[16], e[16], o[16]; int r = 1; WBCRYPTO_sm4_context *ctx, *c2;
  sym_bytes(key, 16, "key"); sym_bytes(in, 16, "in"); ctx = WBCRYPTO_sm4_context_init(); r &= WBCRYPTO_sm4_init_key(ctx, key, 16);
  r &= WBCRYPTO_sm4_encrypt(in, out, ctx); r &= WBCRYPTO_sm4_decrypt(out, back, ctx);
  ref_sm4(key, in, e); sym_equal(out, e, 16, "SM4 encryption equals the standard"); sym_equal(in, back, 16, "SM4 decryption inverts encryption");
  r &= WBCRYPTO_sm4_decrypt(in, o, ctx); ref_sm4_crypt(key, in, e, 1); sym_equal(o, e, 16, "SM4 decryption equals the standard"); r &= WBCRYPTO_sm4_encrypt(o, back, ctx); sym_equal(in, back, 16, "SM4 encryption inverts decryption");
  memcpy(back, in, 16); r &= WBCRYPTO_sm4_encrypt(back, back, ctx); sym_equal(back, out, 16, "SM4 in-place encryption"); r &= WBCRYPTO_sm4_decrypt(back, back, ctx); sym_equal(back, in, 16, "SM4 in-place decryption");
  /* re-keying replaces the key; another context is unaffected */
  c2 = WBCRYPTO_sm4_context_init(); unsigned char k2[16]; sym_bytes(k2, 16, "key2"); r &= WBCRYPTO_sm4_init_key(c2, key, 16); r &= WBCRYPTO_sm4_init_key(c2, k2, 16); r &= WBCRYPTO_sm4_encrypt(in, o, c2); ref_sm4(k2, in, e); sym_equal(o, e, 16, "SM4 under a replaced key"); r &= WBCRYPTO_sm4_encrypt(in, o, ctx); sym_equal(o, out, 16, "SM4 contexts are independent");
  sym_assert(r == 1, "SM4 calls report success"); sym_reach("end");
}
void h_keylen(void) {
  unsigned char kb[24], in[16], out[16], e[16], pk[16], back[16]; size_t n = sym_range(sym_param("lo", 0), sym_param("hi", 24), "keylen"), i; int r = 1; sym_bytes(kb, 24, "key"); sym_bytes(in, 16, "in");
  unsigned char *k = malloc(n ? n : 1); memcpy(k, kb, n); for (i = 0; i < 16; i++) pk[i] = i < n ? kb[i] : (unsigned char)(16 - n);
  WBCRYPTO_sm4_context *ctx = WBCRYPTO_sm4_context_init(); r &= WBCRYPTO_sm4_init_key(ctx, k, n); r &= WBCRYPTO_sm4_encrypt(in, out, ctx); r &= WBCRYPTO_sm4_decrypt(out, back, ctx);
  ref_sm4(pk, in, e); sym_equal(out, e, 16, "SM4 under a key of any length uses the padded key"); sym_equal(back, in, 16, "SM4 decryption inverts encryption for any key length"); sym_assert(r == 1, "SM4 calls report success"); sym_reach("end");
}
