/* White-box SM4 and self-equivalence white-box SM4: with the tables generated for a key, every block is encrypted (or decrypted) as under SM4. */
#include "verif.h"
#include "ref.h"
#include <wbcrypto/wbsm4.h>
#include <wbcrypto/se_wbsm4.h>
static const unsigned char KEYS[4][16] = {{0x01,0x23,0x45,0x67,0x89,0xab,0xcd,0xef,0xfe,0xdc,0xba,0x98,0x76,0x54,0x32,0x10}, {0}, {0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff}, {0x80,0x01,0x02,0x03,0x84,0x05,0x06,0x07,0x88,0x09,0x0a,0x0b,0x8c,0x0d,0x0e,0x0f}};
static void thekey(unsigned char *key, unsigned char *full, size_t *kl) { int k = (int)sym_param("key", 0); size_t n = sym_param("klen", 16), i; if (k < 0) sym_bytes(key, n, "key"); else for (i = 0; i < n; i++) key[i] = KEYS[k][i % 16]; for (i = 0; i < 16; i++) full[i] = i < n ? key[i] : (unsigned char)(16 - n); *kl = n; }
void h_encrypt(void) {
  unsigned char key[20], full[16], in[16], out[16], e[16], in0[16]; size_t kl; int r, j, dec = (int)sym_param("dec", 0), dummy = (int)sym_param("dummy", 0), ip = (int)sym_param("inplace", 0); WBCRYPTO_wbsm4_context *c = WBCRYPTO_wbsm4_context_init(dec ? WBCRYPTO_DECRYPT_MODE : WBCRYPTO_ENCRYPT_MODE, dummy); sym_assert(c != 0, "white-box SM4 context is created");
  thekey(key, full, &kl); r = WBCRYPTO_wbsm4_gen_table(c, key, kl); sym_assert(r == 1, "white-box SM4 table generation succeeds");
  for (j = 0; j < 2; j++) { sym_bytes(in, 16, "block"); memcpy(in0, in, 16); r = (dec ? WBCRYPTO_wbsm4_decrypt : WBCRYPTO_wbsm4_encrypt)(in, ip ? in : out, c); sym_assert(r == 1, "white-box SM4 call succeeds"); ref_sm4_crypt(full, in0, e, dec); sym_equal(ip ? in : out, e, 16, dec ? "white-box SM4 decryption equals SM4" : "white-box SM4 encryption equals SM4"); if (!ip) sym_equal(in, in0, 16, "white-box SM4 leaves its input alone"); } sym_reach("end");
}
void h_se(void) {
  unsigned char key[20], full[16], in[16], out[16], e[16], in0[16]; size_t kl; int r, j, dec = (int)sym_param("dec", 0), ip = (int)sym_param("inplace", 0); WBCRYPTO_se_wbsm4_context *c = WBCRYPTO_se_wbsm4_context_init(dec ? WBCRYPTO_DECRYPT_MODE : WBCRYPTO_ENCRYPT_MODE); sym_assert(c != 0, "self-equivalence SM4 context is created");
  thekey(key, full, &kl); r = WBCRYPTO_se_wbsm4_gen_table(c, key, kl); sym_assert(r == 1, "self-equivalence SM4 table generation succeeds");
  for (j = 0; j < 2; j++) { sym_bytes(in, 16, "block"); memcpy(in0, in, 16); r = (dec ? WBCRYPTO_se_wbsm4_decrypt : WBCRYPTO_se_wbsm4_encrypt)(in, ip ? in : out, c); sym_assert(r == 1, "self-equivalence SM4 call succeeds"); ref_sm4_crypt(full, in0, e, dec); sym_equal(ip ? in : out, e, 16, dec ? "self-equivalence SM4 decryption equals SM4" : "self-equivalence SM4 encryption equals SM4"); if (!ip) sym_equal(in, in0, 16, "self-equivalence SM4 leaves its input alone"); } sym_reach("end");
}
