/* White-box AES (Chow): for the tables of a key and a random seed, every block encrypts as under AES. */
#include "verif.h"
#include "ref.h"
#include <wbcrypto/wbaes.h>
static const unsigned char KEYS[4][16] = {{0x2b,0x7e,0x15,0x16,0x28,0xae,0xd2,0xa6,0xab,0xf7,0x15,0x88,0x09,0xcf,0x4f,0x3c}, {0}, {0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff}, {0x00,0x01,0x02,0x03,0x04,0x05,0x06,0x07,0x08,0x09,0x0a,0x0b,0x0c,0x0d,0x0e,0x0f}};
static void one(WBCRYPTO_wbaes_context *c, const unsigned char *key, unsigned char *in, int ip) {
  unsigned char out[16], e[16], in0[16]; int r; memcpy(in0, in, 16); r = WBCRYPTO_wbaes_encrypt(in, ip ? in : out, c); sym_assert(r == 1, "white-box AES encryption succeeds"); ref_aes128(key, in0, e); sym_equal(ip ? in : out, e, 16, "white-box AES equals AES"); if (!ip) sym_equal(in, in0, 16, "white-box AES leaves its input alone");
}
static WBCRYPTO_wbaes_context *tables(unsigned char *key) { int r; size_t kl = (size_t)sym_param("klen", 16), i; unsigned char *kb = malloc(kl ? kl : 1); for (i = 0; i < kl; i++) kb[i] = i < 16 ? key[i] : (unsigned char)i; for (i = kl; i < 16; i++) key[i] = (unsigned char)(16 - kl); WBCRYPTO_wbaes_context *c = WBCRYPTO_wbaes_context_init(); sym_assert(c != 0, "white-box AES context is created"); r = WBCRYPTO_wbaes_gen_table(c, kb, kl); sym_assert(r == 1, "white-box AES table generation succeeds"); return c; }
/* every value of one byte (and of some bits of another), the others fixed */
void h_byte(void) {
  unsigned char key[16], in[16], b; int lo = (int)sym_param("lo", 0), hi = (int)sym_param("hi", 15), base = (int)sym_param("base", 0), n = (int)sym_param("bases", 1), p, i, k; WBCRYPTO_wbaes_context *c; sym_canon(2); memcpy(key, KEYS[sym_param("key", 0)], 16); c = tables(key);
  for (k = 0; k < n; k++) for (p = lo; p <= hi; p++) { for (i = 0; i < 16; i++) in[i] = (unsigned char)((base + k) * (i * 37 + 11) + i * 3 * base); sym_bytes(in + p, 1, "byte"); one(c, key, in, (p + k) & 1); } sym_reach("end");
}
void h_block(void) { unsigned char key[16], in[16]; WBCRYPTO_wbaes_context *c; sym_canon(1); memcpy(key, KEYS[sym_param("key", 0)], 16); c = tables(key); sym_bytes(in, 16, "block"); one(c, key, in, (int)sym_param("inplace", 0)); sym_reach("end"); }
