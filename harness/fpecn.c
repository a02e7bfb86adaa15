/* Chinese text: every character chosen by the sample becomes four duodecimal digits (least significant first) of its place after U+4E00, the digits go through FF1/FF3 with the kept characters' digits as tweak, and the result comes back as characters. FF1/FF3 themselves are stand-ins here (any digits may come back): C16 and C17 decide them. */
#include "verif.h"
#include <wbcrypto/fpe_app.h>
static char XIN[64]; static unsigned char XTW[64]; static int xk, xt, calls, which, bad; static unsigned char OUTD[64];
static char dg(unsigned d) { return (char)(d < 10 ? '0' + d : 'a' + d - 10); }
static int stand(WBCRYPTO_fpe_context *c, const char *in, char *out, int id) {
  int i; calls++; which = id; if (c->radix != 12 || (int)c->tweaklen != xt || (int)strlen(in) != xk) { bad = 1; return 0; }
  sym_equal(c->tweak, XTW, xt, "the tweak holds the digits of the kept characters"); sym_equal(in, XIN, xk, "the digits of the chosen characters are encrypted"); if (xk < 2) return 0;
  for (i = 0; i < xk; i++) { unsigned y = (unsigned)sym_var(0, 15, "result digit"); OUTD[i] = (unsigned char)(y & 8 ? 8 + (y & 3) : y); /* every digit 0..11, no value left over */ out[i] = dg(OUTD[i]); } out[xk] = 0; return 1;
}
int __wrap_WBCRYPTO_ff1_encrypt(WBCRYPTO_fpe_context *c, const char *i, char *o) { return stand(c, i, o, 0); }
int __wrap_WBCRYPTO_ff1_decrypt(WBCRYPTO_fpe_context *c, const char *i, char *o) { return stand(c, i, o, 1); }
int __wrap_WBCRYPTO_ff3_encrypt(WBCRYPTO_fpe_context *c, const char *i, char *o) { return stand(c, i, o, 2); }
int __wrap_WBCRYPTO_ff3_decrypt(WBCRYPTO_fpe_context *c, const char *i, char *o) { return stand(c, i, o, 3); }
static void put(char *s, unsigned c) { s[0] = (char)(0xe0 | c >> 12); s[1] = (char)(0x80 | (c >> 6 & 63)); s[2] = (char)(0x80 | (c & 63)); }
static int call(WBCRYPTO_fpe_app_context *a, int dec, int sm, char *s, char *o, char *sample) { return sm ? (dec ? WBCRYPTO_fpe_decrypt_cn_utf8_with_sample : WBCRYPTO_fpe_encrypt_cn_utf8_with_sample)(a, s, o, sample) : (dec ? WBCRYPTO_fpe_decrypt_cn_utf8 : WBCRYPTO_fpe_encrypt_cn_utf8)(a, s, o); }
static void ctx(WBCRYPTO_fpe_app_context *a, int ff3) { static unsigned char key[16] = "0123456789abcdef"; int r = WBCRYPTO_fpe_app_init(a, key, 16, "sm4", ff3 ? "ff3" : "ff1"); sym_assert(r == 1, "FPE application context"); }
void h_cn(void) {
  WBCRYPTO_fpe_app_context a; int n = (int)sym_range(sym_param("lo", 1), sym_param("hi", 2), "len"), ff3 = (int)sym_range(0, sym_param("modes", 1), "ff3"), dec = (int)sym_range(0, sym_param("modes", 1), "dec"), sm = (int)sym_range(sym_param("slo", 0), sym_param("shi", 1), "sample"), ip = (int)sym_range(0, sym_param("ip", 0), "inplace"), p = (int)sym_range(0, n - 1, "place of the free character"), i, j, r, star[8]; unsigned v[8]; char *s = malloc(3 * n + 1), *o = ip ? s : malloc(3 * n + 1), save[32], es[32], sample[32] = "", *q = sample;
  unsigned h = (unsigned)sym_range(sym_param("hlo", 0), sym_param("hhi", 80), "high byte"); ctx(&a, ff3);
  for (i = 0; i < n; i++) { v[i] = (i == p ? h : (unsigned)(37 * i + 11) % 81) << 8 | (unsigned)sym_var(0, 255, "character"); put(s + 3 * i, 0x4e00 + v[i]); } s[3 * n] = 0; memcpy(save, s, 3 * n + 1);
  if (sm) { int cut = (int)sym_range(0, 1, "short sample"); for (i = 0; i < n; i++) star[i] = (int)sym_range(0, 1, "star"); if (cut) { if (star[n - 1]) { sym_end(); return; } } for (i = 0; i < n - cut; i++) if (star[i]) *q++ = '*'; else { memcpy(q, "\xe6\x9d\x8e", 3); q += 3; } *q = 0; if (q == sample) { sym_end(); return; } } else for (i = 0; i < n; i++) star[i] = 1;
  xk = xt = 0; for (i = 0; i < n; i++) { unsigned d[4]; d[0] = v[i] % 12; d[1] = v[i] / 12 % 12; d[2] = v[i] / 144 % 12; d[3] = v[i] / 1728; for (j = 0; j < 4; j++) if (star[i]) XIN[xk++] = dg(d[j]); else XTW[xt++] = (unsigned char)dg(d[j]); } XTW[xt++] = 0; XIN[xk] = 0; int live = sym_heap_live();
  r = call(&a, dec, sm, s, o, sample); sym_assert(!bad && calls == 1, "alphabet of twelve, digits of the chosen characters only"); sym_assert(which == 2 * ff3 + dec, "the configured mode and direction"); sym_assert(r == (xk > 0), "succeeds when a character is encrypted"); sym_assert(sym_heap_live() == live, "FPE releases its memory");
  if (r) { int k = 0; for (i = 0; i < n; i++) if (star[i]) { put(es + 3 * i, 0x4e00 + OUTD[k] + 12 * OUTD[k + 1] + 144 * OUTD[k + 2] + 1728 * OUTD[k + 3]); k += 4; } else memcpy(es + 3 * i, save + 3 * i, 3); es[3 * n] = 0; sym_equal(o, es, 3 * n + 1, "result digits become characters, the others are kept"); if (!ip) sym_equal(s, save, 3 * n + 1, "FPE leaves its input alone"); }
  sym_reach("end");
}
/* characters before U+4E00 or after U+9EFF have no four-digit form: refused, nothing written */
void h_foreign(void) {
  WBCRYPTO_fpe_app_context a; int n = (int)sym_range(1, sym_param("hi", 3), "len"), p = (int)sym_range(0, n - 1, "place"), ff3 = (int)sym_range(0, 1, "ff3"), dec = (int)sym_range(0, 1, "dec"), sm = (int)sym_range(0, 1, "sample"), i, r; unsigned h = (unsigned)sym_range(sym_param("hlo", 8), sym_param("hhi", 255), "high byte"); char s[16], o[16], z[16], sample[16]; if (h >= 0x4e && h <= 0x9e) { sym_end(); return; }
  ctx(&a, ff3); memset(o, 'q', sizeof o); memset(z, 'q', sizeof z); for (i = 0; i < n; i++) { put(s + 3 * i, (i == p ? h : 0x4eu + 7 * i) << 8 | (unsigned)sym_var(0, 255, "character")); sample[i] = '*'; } s[3 * n] = 0; sample[n] = 0; int live = sym_heap_live();
  r = call(&a, dec, sm, s, o, sample); sym_assert(r == 0, "characters outside the alphabet are refused"); sym_assert(!calls && !memcmp(o, z, sizeof o), "a refused call writes nothing"); sym_assert(sym_heap_live() == live, "FPE releases its memory"); sym_reach("end");
}
