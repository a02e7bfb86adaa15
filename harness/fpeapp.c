/* Format-preserving encryption of phone numbers, identity cards and Chinese text: the chosen characters go through FF1/FF3 of the configured cipher, keyed with the padded key and tweaked with the kept characters. */
#include "verif.h"
#include "ref.h"
#include <wbcrypto/fpe_app.h>
/* stand-ins for the four ciphers: an uninterpreted function of cipher, key and block */
static struct { const void *c; int id; unsigned char k[16]; } REG[8]; static int nreg; static int badcall;
static void pad16(const unsigned char *k, size_t n, unsigned char o[16]) { size_t i; for (i = 0; i < 16; i++) o[i] = i < n ? k[i] : (unsigned char)(16 - n); }
static int setk(const void *c, int id, const unsigned char *k, size_t n) { int i; for (i = 0; i < nreg; i++) if (REG[i].c == c) break; if (i == nreg && nreg < 8) nreg++; REG[i].c = c; REG[i].id = id; pad16(k, n, REG[i].k); return 1; }
static int uenc(int id, const unsigned char key[16], const unsigned char *in, unsigned char *out) { unsigned char b[32]; memcpy(b, key, 16); memcpy(b + 16, in, 16); sym_uf(id, b, 32, out, 16); return 1; }
static int usek(const void *c, int id, const unsigned char *in, unsigned char *out) { int i; for (i = 0; i < nreg; i++) if (REG[i].c == c && REG[i].id == id) return uenc(id, REG[i].k, in, out); badcall = 1; memset(out, 0, 16); return 1; }
int __wrap_WBCRYPTO_sm4_init_key(WBCRYPTO_sm4_context *c, const uint8_t *k, size_t n) { return setk(c, 1, k, n); }
int __wrap_WBCRYPTO_aes_init_key(WBCRYPTO_aes_context *c, const uint8_t *k, size_t n) { return setk(c, 2, k, n); }
int __wrap_WBCRYPTO_wbsm4_gen_table(WBCRYPTO_wbsm4_context *c, const uint8_t *k, size_t n) { return setk(c, 3, k, n); }
int __wrap_WBCRYPTO_wbaes_gen_table(WBCRYPTO_wbaes_context *c, const uint8_t *k, size_t n) { return setk(c, 4, k, n); }
int __wrap_WBCRYPTO_sm4_encrypt(const unsigned char *i, unsigned char *o, WBCRYPTO_sm4_context *c) { return usek(c, 1, i, o); }
int __wrap_WBCRYPTO_aes_encrypt(const unsigned char *i, unsigned char *o, WBCRYPTO_aes_context *c) { return usek(c, 2, i, o); }
int __wrap_WBCRYPTO_wbsm4_encrypt(const unsigned char *i, unsigned char *o, WBCRYPTO_wbsm4_context *c) { return usek(c, 3, i, o); }
int __wrap_WBCRYPTO_wbaes_encrypt(const uint8_t *i, uint8_t *o, WBCRYPTO_wbaes_context *c) { return usek(c, 4, i, o); }
static int cid; static unsigned char ckey[16];
static int REFE(const unsigned char *in, unsigned char *out, const void *key) { return uenc(cid, ckey, in, out); }
static char *NAMES[5] = {"sm4", "aes", "wbsm4", "wbaes", "des"}; static int IDS[5] = {1, 2, 3, 4, 2};
static void setup(WBCRYPTO_fpe_app_context *a, int ff3) {
  int ci = (int)sym_range(sym_param("clo", 0), sym_param("chi", 0), "cipher"), fi = ff3 ? (int)sym_range(0, sym_param("other", 0), "default ffx") : 0, r; size_t kn = sym_range(sym_param("klo", 16), sym_param("khi", 16), "keylen"); unsigned char key[40]; sym_bytes(key, kn, "key"); pad16(key, kn, ckey); cid = IDS[ci];
  r = WBCRYPTO_fpe_app_init(a, key, kn, NAMES[ci], ff3 ? fi ? "ff9" : "ff3" : "ff1"); sym_assert(r == 1, "FPE application context");
}
static void refff(int ff3, unsigned radix, const unsigned char *tw, int tn, const unsigned char *in, int n, unsigned char *out, int dec) { unsigned char t8[80] = {0}; memcpy(t8, tw, tn); if (ff3) ref_ff3(REFE, 0, radix, t8, in, n, out, dec); else ref_ff1(REFE, 0, radix, tw, tn, in, n, out, dec); }
/* any sample character that is not a star */
static char keptc(void) { unsigned y = (unsigned)sym_var(0, 255, "sample character"); return (char)(y == 0 || y == '*' ? '-' : y); }
/* phone numbers and identity cards; the mask says which positions are encrypted (all, without a sample) */
void h_digits(void) {
  WBCRYPTO_fpe_app_context a; int card = (int)sym_param("card", 0), ff3 = (int)sym_range(sym_param("flo", 0), sym_param("fhi", 1), "ff3"), dec = (int)sym_range(0, 1, "dec"), n = (int)sym_range(sym_param("lo", 11), sym_param("hi", 11), "len"), x = card ? (int)sym_range(0, 1, "X") : 0, sm = (int)sym_range(sym_param("slo", 0), sym_param("sample", 1), "sample"), ip = (int)sym_range(0, sym_param("ip", 0), "inplace"), m = n - x, i, k = 0, t = 0, r; unsigned char d[32], e[32], tw[32], in[32], star[32];
  setup(&a, ff3); char *s = malloc(n + 1), *o = ip ? s : malloc(n + 1), sample[32] = "", save[32], es[32];
  if (sm) { int from = 0, to = m, all = (int)sym_param("all", 0); if (!all) { from = (int)sym_range(sym_param("alo", 0), sym_param("ahi", m) < m ? sym_param("ahi", m) : m, "from"); to = (int)sym_range(0, m, "to"); if (to < from) { sym_end(); return; } } for (i = 0; i < m; i++) { star[i] = all ? (unsigned char)sym_range(0, 1, "star") : i >= from && i < to; sample[i] = star[i] ? '*' : keptc(); } if (x) sample[m] = 'X'; sample[n] = 0; } else memset(star, 1, sizeof star);
  for (i = 0; i < m; i++) { d[i] = (unsigned char)sym_var(0, 9, "digit"); s[i] = (char)('0' + d[i]); if (star[i]) in[k++] = d[i]; else tw[t++] = (unsigned char)s[i]; } if (x) s[m] = 'X'; s[n] = 0; tw[t++] = 0; memcpy(save, s, n + 1); int live = sym_heap_live();
  r = card ? sm ? (dec ? WBCRYPTO_fpe_decrypt_idcard_with_sample : WBCRYPTO_fpe_encrypt_idcard_with_sample)(&a, s, o, sample) : (dec ? WBCRYPTO_fpe_decrypt_idcard : WBCRYPTO_fpe_encrypt_idcard)(&a, s, o) : sm ? (dec ? WBCRYPTO_fpe_decrypt_phone_with_sample : WBCRYPTO_fpe_encrypt_phone_with_sample)(&a, s, o, sample) : (dec ? WBCRYPTO_fpe_decrypt_phone : WBCRYPTO_fpe_encrypt_phone)(&a, s, o);
  sym_assert(r == (k >= 2), "succeeds exactly when at least two digits are encrypted"); sym_assert(!badcall, "the configured cipher is used with its own context"); sym_assert(sym_heap_live() == live, "FPE releases its memory");
  if (k >= 2) { refff(ff3, 10, tw, t, in, k, e, dec); for (i = 0, k = 0; i < m; i++) es[i] = star[i] ? (char)('0' + e[k++]) : save[i]; if (x) es[m] = 'X'; es[n] = 0; sym_equal(o, es, n + 1, "encrypted digits are FF1/FF3 of the chosen digits; the others are kept"); if (!ip) sym_equal(s, save, n + 1, "FPE leaves its input alone"); }
  sym_reach("end");
}
/* decryption with the same sample restores the number */
void h_back(void) {
  WBCRYPTO_fpe_app_context a; int card = (int)sym_param("card", 0), ff3 = (int)sym_range(0, 1, "ff3"), n = (int)sym_range(sym_param("lo", 11), sym_param("hi", 11), "len"), x = card ? (int)sym_range(0, 1, "X") : 0, m = n - x, i, r, from = (int)sym_range(sym_param("alo", 0), sym_param("ahi", m - 2) < m - 2 ? sym_param("ahi", m - 2) : m - 2, "from"), to = (int)sym_range(2, m, "to"); char s[32], o[32], p[32], sample[32]; if (to < from + 2) { sym_end(); return; }
  setup(&a, ff3); for (i = 0; i < m; i++) { s[i] = (char)('0' + sym_var(0, 9, "digit")); sample[i] = i >= from && i < to ? '*' : keptc(); } if (x) s[m] = sample[m] = 'X'; s[n] = sample[n] = 0;
  r = (card ? WBCRYPTO_fpe_encrypt_idcard_with_sample : WBCRYPTO_fpe_encrypt_phone_with_sample)(&a, s, o, sample); sym_assert(r == 1, "encryption succeeds"); for (i = 0; i < m; i++) sym_assert((unsigned char)(o[i] - '0') < 10, "a digit stays a digit"); r = (card ? WBCRYPTO_fpe_decrypt_idcard_with_sample : WBCRYPTO_fpe_decrypt_phone_with_sample)(&a, o, p, sample); sym_assert(r == 1, "decryption succeeds"); sym_equal(p, s, n + 1, "decryption restores the number"); sym_reach("end");
}
