/* Self-equivalence SM4 with a random source whose values visit every residue, so that every entry of the self-equivalence lists is drawn in one of the jobs. */
#include "verif.h"
#include "ref.h"
#include <wbcrypto/se_wbsm4.h>
static unsigned long rs; static unsigned n; /* first residues, chosen so that together the draws reach all 2039 entries */
static const unsigned short START[34] = {0, 149, 306, 470, 637, 801, 966, 1152, 1295, 1472, 1637, 1794, 1886, 828, 329, 1162, 1657, 492, 164, 1311, 642, 2027, 994, 1475, 1825, 1866, 854, 346, 1654, 167, 497, 661, 1153, 1494};
unsigned int __wrap_cus_random(void) { unsigned v; rs = rs * 6364136223846793005ul + 1442695040888963407ul; v = (unsigned)(rs >> 33); v -= v % 2039; return v + n++ % 2039; }
void h_walk(void) {
  static const unsigned char key[16] = {0x01,0x23,0x45,0x67,0x89,0xab,0xcd,0xef,0xfe,0xdc,0xba,0x98,0x76,0x54,0x32,0x10}; unsigned char in[16], out[16], e[16]; int w, lo = (int)sym_param("lo", 0), hi = (int)sym_param("hi", 0);
  for (w = lo; w <= hi; w++) {
    WBCRYPTO_se_wbsm4_context *c = WBCRYPTO_se_wbsm4_context_init(WBCRYPTO_ENCRYPT_MODE); sym_assert(c != 0, "self-equivalence SM4 context is created");
    rs = 12345; n = START[w]; sym_assert(WBCRYPTO_se_wbsm4_gen_table(c, key, 16) == 1, "self-equivalence SM4 table generation succeeds");
    sym_bytes(in, 16, "block"); sym_assert(WBCRYPTO_se_wbsm4_encrypt(in, out, c) == 1, "self-equivalence SM4 call succeeds"); ref_sm4_crypt(key, in, e, 0); sym_equal(out, e, 16, "self-equivalence SM4 encryption equals SM4 for every self-equivalence");
  } sym_reach("end");
}
