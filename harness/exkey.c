/* Export and import of white-box SM4 tables (files and byte strings) and the key store. */
#include "verif.h"
#include <wbcrypto/wbsm4.h>
#include <wbcrypto/utils.h>
typedef WBCRYPTO_wbsm4_context C;
static uint32_t mix(uint32_t x) { x *= 2654435761u; x ^= x >> 15; x *= 2246822519u; return x ^ x >> 13; }
/* the p-th table of a context: 24 per round, then SE and FE */
static uint32_t *tab(C *c, int p) { int i = p / 24, j = p % 4, w = p % 24 / 4; if (i < c->rounds) return w < 3 ? c->MM[i][w][j] : w == 3 ? c->CC[i][j] : w == 4 ? c->DD[i][j] : c->Table[i][j]; p -= c->rounds * 24; return p < 16 ? c->SE[p / 4][p % 4] : c->FE[(p - 16) / 4][p % 4]; }
static C *make(int mode, int dummy) { C *c = WBCRYPTO_wbsm4_context_init(mode, dummy); sym_assert(c != 0, "white-box SM4 context is created"); return c; }
/* arbitrary words at a stride, distinct concrete words elsewhere; the same words go to save */
static uint32_t *fill(C *c, int stride) {
  int n = c->rounds * 24 + 32, p, x; uint32_t *save = malloc((size_t)n * 1024);
  for (p = 0; p < n; p++) { uint32_t *t = tab(c, p); for (x = 0; x < 256; x++) t[x] = mix(p * 256 + x + 1); if (stride) { for (x = (p * 5) % stride; x < 256; x += stride) sym_bytes(&t[x], 4, "entry"); } memcpy(save + p * 256, t, 1024); } return save;
}
static void scribble(C *c) { int n = c->rounds * 24 + 32, p; for (p = 0; p < n; p++) memset(tab(c, p), 0x5a, 1024); }
static void same(C *c, const uint32_t *save, int rounds, int mode, const char *what) { int n = rounds * 24 + 32, p; sym_assert(c->rounds == rounds, "imported WBSM4 key has the exported number of rounds"); sym_assert(c->encmode == mode, "imported WBSM4 key has the exported mode"); if (c->rounds != rounds) return; for (p = 0; p < n; p++) sym_equal(tab(c, p), save + p * 256, 1024, what); }
void h_file(void) {
  int d = (int)sym_param("dummy", 0), e = (int)sym_param("room", 0), m = (int)sym_range(0, 1, "mode"), rounds = 32 + 4 * d, r; C *c = make(m, d), *i = make(!m, d + e); uint32_t *s = fill(c, (int)sym_param("stride", 61)); scribble(i);
  if (sym_param("old", 0)) { unsigned char *b = calloc(1500000, 1); vfs_put("key", b, 1500000); free(b); }
  r = WBCRYPTO_wbsm4_key2file(c, "key"); sym_assert(r == 1, "exporting a WBSM4 key to a file succeeds"); same(c, s, rounds, m, "exporting a WBSM4 key leaves it alone"); scribble(c);
  r = WBCRYPTO_wbsm4_file2key(i, "key"); sym_assert(r == 1, "importing an exported WBSM4 key file succeeds"); same(i, s, rounds, m, "WBSM4 key file restores every table"); sym_reach("end");
}
void h_bytes(void) {
  int d = (int)sym_param("dummy", 0), e = (int)sym_param("other", 0), m = (int)sym_range(0, 1, "mode"), rounds = 32 + 4 * d, r; char *k = 0; uint32_t n; C *c = make(m, d), *i = make(!m, e); uint32_t *s = fill(c, (int)sym_param("stride", 61)); scribble(i);
  r = WBCRYPTO_wbsm4_key2bytes(c, &k); sym_assert(r == 1 && k != 0, "exporting a WBSM4 key to bytes succeeds"); same(c, s, rounds, m, "exporting a WBSM4 key leaves it alone"); memcpy(&n, k, 4);
  { char *t = malloc(n); memcpy(t, k, n); memset(k, 0x33, n); free(k); k = t; } scribble(c);   /* the stated length is all there is, and the exporter is gone */
  r = WBCRYPTO_wbsm4_bytes2key(i, k); sym_assert(r == 1, "importing exported WBSM4 key bytes succeeds"); memset(k, 0x44, n); free(k); same(i, s, rounds, m, "WBSM4 key bytes restore every table"); scribble(c); same(i, s, rounds, m, "an imported WBSM4 key does not depend on its exporter"); sym_reach("end");
}
static unsigned char *img; static long imgn;
static void exported(int d) { C *c = make(1, d); free(fill(c, 0)); sym_assert(WBCRYPTO_wbsm4_key2file(c, "key") == 1, "exporting a WBSM4 key to a file succeeds"); imgn = vfs_size("key"); img = malloc(imgn); vfs_get("key", img, imgn); }
/* a changed header, a number of rounds the context cannot hold, a file that ends early and a missing file are refused */
void h_bad(void) {
  int what = (int)sym_range(sym_param("wlo", 0), sym_param("whi", 3), "what"), r; unsigned char b[8]; long n, cut; C *i; exported((int)sym_param("dummy", 0)); n = imgn; i = make(1, (int)sym_param("have", 0));
  if (what == 0) { size_t p = sym_range(0, 15, "pos"); sym_bytes(b, 1, "delta"); sym_assume(b[0] != 0); img[p] ^= b[0]; }
  else if (what == 1) { int v; sym_bytes(b, 4, "rounds"); memcpy(&v, b, 4); sym_assume(v < 32 || v > i->rounds); memcpy(img + 16, b, 4); }
  else if (what == 2) { static const long at[12] = {0, 1, 15, 16, 19, 20, 23, 24, 27, -1, -4, -1000}; cut = at[sym_range(0, 11, "cut")]; n = cut < 0 ? n + cut : cut; }
  if (what < 3) vfs_put("key", img, n); r = WBCRYPTO_wbsm4_file2key(i, what < 3 ? "key" : "none"); sym_assert(r == 0, "a WBSM4 key file that is changed, too large, cut off or missing is refused"); sym_reach("end");
}
/* a failing file operation is reported: 1 is returned only if the key is there */
void h_io(void) {
  static const int AT[8] = {0, 1, 2, 3, 4, 5000, 98400, 215000}; int kind = (int)sym_range(sym_param("klo", 1), sym_param("khi", 7), "kind"), at, imp = (int)sym_param("import", 0), r; C *c, *i; uint32_t *s; if (kind == 5) { sym_end(); return; } at = AT[kind == 3 || kind == 4 ? sym_range(0, 7, "at") : 0]; c = make(1, 0); i = make(1, 0); s = fill(c, 0);
  if (imp) { r = WBCRYPTO_wbsm4_key2file(c, "key"); sym_assert(r == 1, "exporting a WBSM4 key to a file succeeds"); } vfs_fault(kind, at); r = imp ? WBCRYPTO_wbsm4_file2key(i, "key") : WBCRYPTO_wbsm4_key2file(c, "key"); vfs_fault(kind, -1); sym_assert(r == 0 || r == 1, "WBSM4 key file calls return 0 or 1");
  if (r == 1 && !imp) { r = WBCRYPTO_wbsm4_file2key(i, "key"); sym_assert(r == 1, "WBSM4 key export that hit an I/O error and returned 1 wrote a whole file"); } else if (r == 0) { sym_reach("end"); return; } same(i, s, 32, 1, "WBSM4 key file call that hit an I/O error and returned 1 carried every table"); sym_reach("end");
}
void h_store(void) {
  size_t n = sym_range(sym_param("lo", 0), sym_param("hi", 40), "len"); int what = (int)sym_range(0, 6, "what"), r, kind = 0; unsigned char k[600], k0[600], b[600], old[700]; sym_bytes(k, n, "key"); memcpy(k0, k, n); memset(old, 0x77, 700); if (what == 1) vfs_put("st", old, 700); if (what == 2) kind = 2; if (what == 3) kind = 4; if (what == 4) kind = 6;
  if (kind) vfs_fault(kind, 0); r = WBCRYPTO_keystore_key_to_file(k, n, "st"); if (kind) vfs_fault(kind, -1); sym_equal(k, k0, n, "storing a key leaves it alone"); if (!kind) sym_assert(r == 1, "storing a key succeeds"); else { sym_assert(r == 0 || r == 1, "key store calls return 0 or 1"); if (r == 0) { sym_reach("end"); return; } }
  sym_assert(vfs_size("st") == (long)n, "a stored key file holds the key and nothing else"); vfs_get("st", b, n); sym_equal(b, k, n, "a stored key file holds the key");
  memset(b, 0, n); if (what == 5) { if (!n) { sym_end(); return; } vfs_put("st", k, sym_range(0, n - 1, "cut")); } if (what == 6) vfs_fault(n ? 3 : 1, 0); r = WBCRYPTO_keystore_file_to_key(b, n, what == 5 && n == 40 ? "none" : "st"); if (what == 6) vfs_fault(n ? 3 : 1, -1);
  if (what == 5 || what == 6) sym_assert(r == 0, "loading a key from a short, missing or unreadable file is refused"); else { sym_assert(r == 1, "loading a stored key succeeds"); sym_equal(b, k0, n, "the key store restores the key"); } sym_reach("end");
}
