/* FF1 and FF3: output equals SP 800-38G for any block cipher; short and foreign strings; MAC variants. */
#include "verif.h"
#include "ref.h"
#include <wbcrypto/fpe.h>
static int kid = 7; static const unsigned char RADIX[8] = {10, 2, 36, 12, 16, 26, 3, 8};
typedef int (*fpef)(WBCRYPTO_fpe_context *, const char *, char *);
static char digit(unsigned d, unsigned radix) { return (char)(radix <= 10 || d < 10 ? '0' + d : 'a' + d - 10); }
/* in: n digits, all values; str: the same as text */
static void digits(unsigned char *in, char *str, int n, unsigned radix) { int i; for (i = 0; i < n; i++) { in[i] = (unsigned char)sym_var(0, radix - 1, "digit"); str[i] = digit(in[i], radix); } str[n] = 0; }
void h_ff(void) {
  int ff3 = (int)sym_param("ff3", 0), n = (int)sym_range(sym_param("lo", 2), sym_param("hi", 6), "len"), dec = (int)sym_range(0, sym_param("dec", 1), "dec"), tn = ff3 ? 8 : (int)sym_range(sym_param("tlo", 8), sym_param("thi", 8), "tweak"), ip = (int)sym_range(0, sym_param("ip", 0), "inplace"), i, r; unsigned radix = (unsigned)sym_param("radix", 10); unsigned char tw[80], in[80], e[80]; char *s = malloc(n + 1), *o, es[80], save[80];
  sym_bytes(tw, tn, "tweak"); digits(in, s, n, radix); memcpy(save, s, n + 1); o = ip ? s : malloc(n + 1);
  WBCRYPTO_fpe_context *c = WBCRYPTO_fpe_init(tw, tn, radix, &kid, UFENC); sym_assert(c != 0, "FPE context"); int live = sym_heap_live();
  r = (ff3 ? dec ? WBCRYPTO_ff3_decrypt : WBCRYPTO_ff3_encrypt : dec ? WBCRYPTO_ff1_decrypt : WBCRYPTO_ff1_encrypt)(c, s, o); sym_assert(r == 1, "FPE call succeeds");
  if (ff3) ref_ff3(UFENC, &kid, radix, tw, in, n, e, dec); else ref_ff1(UFENC, &kid, radix, tw, tn, in, n, e, dec); for (i = 0; i < n; i++) es[i] = digit(e[i], radix); es[n] = 0;
  sym_equal(o, es, n + 1, "FPE output equals SP 800-38G"); if (!ip) sym_equal(s, save, n + 1, "FPE leaves its input alone"); sym_assert(sym_heap_live() == live, "FPE releases its memory"); WBCRYPTO_fpe_free(c); sym_reach("end");
}
/* decryption undoes encryption */
void h_round(void) {
  int ff3 = (int)sym_param("ff3", 0), n = (int)sym_range(sym_param("lo", 2), sym_param("hi", 6), "len"), tn = ff3 ? 8 : (int)sym_range(sym_param("tlo", 8), sym_param("thi", 8), "tweak"), r; unsigned radix = (unsigned)sym_param("radix", 10); unsigned char tw[80], in[80]; char s[80], o[80], p[80];
  sym_bytes(tw, tn, "tweak"); digits(in, s, n, radix); WBCRYPTO_fpe_context *c = WBCRYPTO_fpe_init(tw, tn, radix, &kid, UFENC);
  r = (ff3 ? WBCRYPTO_ff3_encrypt : WBCRYPTO_ff1_encrypt)(c, s, o); sym_assert(r == 1, "FPE call succeeds"); r = (ff3 ? WBCRYPTO_ff3_decrypt : WBCRYPTO_ff1_decrypt)(c, o, p); sym_assert(r == 1, "FPE call succeeds"); sym_equal(p, s, n + 1, "FPE decryption undoes encryption"); sym_reach("end");
}
/* FF1-CMAC and FF3-GMAC: the same ciphertext as without a tag; decryption restores the text and arrives at the tag of encryption */
static unsigned char LOG[80][16]; static int nlog;
static int LOGENC(const unsigned char *in, unsigned char *out, const void *key) { unsigned char t[16]; memcpy(t, in, 16); UFENC(t, out, key); if (nlog < 80) memcpy(LOG[nlog++], out, 16); return 1; }
static const unsigned char HK[2][16] = {{0x66,0xe9,0x4b,0xd4,0xef,0x8a,0x2c,0x3b,0x88,0x4c,0xfa,0x59,0xca,0x34,0x2b,0x2e}, {0xb8,0x3b,0x53,0x37,0x08,0xbf,0x53,0x5d,0x0a,0xa6,0xe5,0x29,0x80,0xd5,0x3b,0x78}};
/* GMAC tag over the zero-extended tweak and the (reversed) outputs of the eight rounds */
static void gtag(const unsigned char h[16], const unsigned char tw[16], int from, unsigned char t[16]) { unsigned char s[16]; int i, j; memcpy(s, tw, 16); for (i = from; i < nlog; i++) for (j = 0; j < 16; j++) s[j] ^= LOG[i][15 - j]; ref_gfmul(s, h, t); }
void h_mac(void) {
  int ff3 = (int)sym_param("ff3", 0), n = (int)sym_range(sym_param("lo", 2), sym_param("hi", 6), "len"), tn = (int)sym_range(sym_param("tlo", ff3 ? 16 : 8), sym_param("thi", ff3 ? 16 : 8), "tweak"), i, r; unsigned radix = (unsigned)sym_param("radix", 10); unsigned char tw[80] = {0}, in[80], e[80], z[16] = {0}, h[16], gt[16], tg[2][17]; char *s = malloc(n + 1), *o = malloc(n + 1), *p = malloc(n + 1), es[80], save[80]; size_t tl;
  if (ff3) sym_perm_def(kid, z, HK[sym_range(0, 1, "hash key")]); sym_bytes(tw, tn, "tweak"); digits(in, s, n, radix); memcpy(save, s, n + 1); memset(tg, 0x5a, sizeof tg); UFENC(z, h, &kid);
  nlog = 0; if (ff3) ref_ff3(LOGENC, &kid, radix, tw, in, n, e, 0); else ref_ff1(UFENC, &kid, radix, tw, tn, in, n, e, 0); for (i = 0; i < n; i++) es[i] = digit(e[i], radix); es[n] = 0;
  WBCRYPTO_fpe_mac_context *c = WBCRYPTO_fpe_mac_init(tw, tn, radix, &kid, UFENC), *c2 = sym_range(0, 1, "second context") ? WBCRYPTO_fpe_mac_init(tw, tn, radix, &kid, UFENC) : c; sym_assert(c != 0 && c2 != 0, "FPE context"); int live = sym_heap_live();
  r = (ff3 ? WBCRYPTO_ff3_gmac_encrypt : WBCRYPTO_ff1_cmac_encrypt)(c, s, o); sym_assert(r == 1, "FPE call succeeds"); sym_equal(o, es, n + 1, "ciphertext equals that of SP 800-38G"); sym_equal(s, save, n + 1, "FPE leaves its input alone");
  tl = 99; r = (ff3 ? WBCRYPTO_ff3_gmac_finish : WBCRYPTO_ff1_cmac_finish)(c, (char *)tg[0], &tl); sym_assert(r == 1 && tl == 16 && tg[0][16] == 0x5a, "the tag has 16 bytes");
  if (ff3) { gtag(h, tw, 0, gt); sym_equal(tg[0], gt, 16, "GMAC tag covers the tweak and every round"); }
  r = (ff3 ? WBCRYPTO_ff3_gmac_decrypt : WBCRYPTO_ff1_cmac_decrypt)(c2, o, p); sym_assert(r == 1, "FPE call succeeds"); sym_equal(p, s, n + 1, "decryption restores the text");
  tl = 99; r = (ff3 ? WBCRYPTO_ff3_gmac_finish : WBCRYPTO_ff1_cmac_finish)(c2, (char *)tg[1], &tl); sym_assert(r == 1 && tl == 16 && tg[1][16] == 0x5a, "the tag has 16 bytes"); sym_equal(tg[1], tg[0], 16, "decryption arrives at the tag of encryption"); sym_assert(sym_heap_live() == live, "FPE releases its memory");
  if (c2 != c) WBCRYPTO_fpe_mac_free(c2); WBCRYPTO_fpe_mac_free(c); sym_reach("end");
}
/* strings too short for two halves, and alphabets outside 2..36, are refused without output */
void h_refuse(void) {
  int which = (int)sym_range(sym_param("wlo", 0), sym_param("whi", 7), "function"), n = (int)sym_range(0, 1, "len"), r; unsigned char tw[16], d[2]; char s[2], o[4] = "xyz"; unsigned radix = (unsigned)sym_range(0, 60, "radix"); sym_bytes(tw, 8, "tweak");
  WBCRYPTO_fpe_context *c = WBCRYPTO_fpe_init(tw, 8, radix, &kid, UFENC); WBCRYPTO_fpe_mac_context *m = WBCRYPTO_fpe_mac_init(tw, 8, radix, &kid, UFENC); sym_assert((c != 0) == (radix >= 2 && radix <= 36) && (m != 0) == (c != 0), "alphabets of 2 to 36 characters");
  if (c) { digits(d, s, n, radix); int live = sym_heap_live(); switch (which) { case 0: r = WBCRYPTO_ff1_encrypt(c, s, o); break; case 1: r = WBCRYPTO_ff1_decrypt(c, s, o); break; case 2: r = WBCRYPTO_ff3_encrypt(c, s, o); break; case 3: r = WBCRYPTO_ff3_decrypt(c, s, o); break; case 4: r = WBCRYPTO_ff1_cmac_encrypt(m, s, o); break; case 5: r = WBCRYPTO_ff1_cmac_decrypt(m, s, o); break; case 6: r = WBCRYPTO_ff3_gmac_encrypt(m, s, o); break; default: r = WBCRYPTO_ff3_gmac_decrypt(m, s, o); }
    sym_assert(r == 0, "FPE refuses strings of fewer than two characters"); sym_assert(!memcmp(o, "xyz", 4), "a refused FPE call writes nothing"); sym_assert(sym_heap_live() == live, "FPE releases its memory"); } sym_reach("end");
}
