/* White-box AES-GCM with encoded combination (EE) and with masks: AES-GCM of SP 800-38D, seen through the encoding that mask mode puts on each ciphertext byte. */
#include "verif.h"
#include "ref.h"
#include <wbcrypto/wbaes_wbgcm_ee.h>
#include <wbcrypto/wbaes_wbgcm_mask.h>
static const unsigned char KEYS[4][24] = {{0x2b,0x7e,0x15,0x16,0x28,0xae,0xd2,0xa6,0xab,0xf7,0x15,0x88,0x09,0xcf,0x4f,0x3c,1,2,3,4,5,6,7,8}, {0}, {0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,9}, {0x00,0x01,0x02,0x03,0x04,0x05,0x06,0x07,0x08,0x09,0x0a,0x0b,0x0c,0x0d,0x0e,0x0f,0}};
static int refaes(const unsigned char *i, unsigned char *o, const void *k) { ref_aes128(k, i, o); return 1; }
static unsigned char K[16]; static int mask;
static WBCRYPTO_wbaes_wbgcm_ee_context *te; static WBCRYPTO_wbaes_wbgcm_mask_context *tm[2];
static void tables(void) {
  size_t kl = (size_t)sym_param("klen", 16), i; const unsigned char *key = KEYS[sym_param("key", 0)]; unsigned char *kb = malloc(kl ? kl : 1); memcpy(kb, key, kl); for (i = 0; i < 16; i++) K[i] = i < kl ? key[i] : (unsigned char)(16 - kl); mask = (int)sym_param("mask", 0);
  if (mask) { tm[0] = WBCRYPTO_wbaes_wbgcm_mask_init_table(); tm[1] = WBCRYPTO_wbaes_wbgcm_mask_init_table(); sym_assert(tm[0] && tm[1], "mask-mode tables are created"); WBCRYPTO_wbaes_wbgcm_mask_gen_table(tm[0], tm[1], kb, kl); }
  else { te = malloc(sizeof *te); WBCRYPTO_wbaes_wbgcm_ee_gen_table(te, kb, kl); }
}
static void *ctx_new(int dec) { void *c = mask ? (void *)WBCRYPTO_wbaes_wbgcm_mask_init(tm[dec]) : (void *)WBCRYPTO_wbaes_wbgcm_ee_init(te); sym_assert(c != 0, "white-box GCM context is created"); return c; }
static int setiv(void *c, const unsigned char *iv, size_t n) { return mask ? WBCRYPTO_wbaes_wbgcm_mask_setiv(c, iv, n) : WBCRYPTO_wbaes_wbgcm_ee_setiv(c, iv, n); }
static int addaad(void *c, const unsigned char *a, size_t n) { return mask ? WBCRYPTO_wbaes_wbgcm_mask_aad(c, a, n) : WBCRYPTO_wbaes_wbgcm_ee_aad(c, a, n); }
static int crypt(void *c, int dec, const unsigned char *in, size_t n, unsigned char *out, size_t room) { return mask ? (dec ? WBCRYPTO_wbaes_wbgcm_mask_decrypt : WBCRYPTO_wbaes_wbgcm_mask_encrypt)(c, in, n, out, room) : (dec ? WBCRYPTO_wbaes_wbgcm_ee_decrypt : WBCRYPTO_wbaes_wbgcm_ee_encrypt)(c, in, n, out, room); }
static int finish(void *c, unsigned char *t, size_t n) { return mask ? WBCRYPTO_wbaes_wbgcm_mask_finish(c, t, n) : WBCRYPTO_wbaes_wbgcm_ee_finish(c, t, n); }
/* tag of a ciphertext as SP 800-38D defines it */
static void reftag(const unsigned char *iv, size_t ivn, const unsigned char *aad, size_t an, const unsigned char *c, size_t n, unsigned char *t) { unsigned char z[16] = {0}, h[16], j0[16], e[16]; int i; ref_aes128(K, z, h); ref_gcm_j0(h, iv, ivn, j0); ref_aes128(K, j0, e); memset(t, 0, 16); ref_ghash_upd(t, h, aad, an); ref_ghash_upd(t, h, c, n); ref_ghash_len(t, h, an, n); for (i = 0; i < 16; i++) t[i] ^= e[i]; }
static unsigned char *box(const unsigned char *p, size_t n) { unsigned char *r = malloc(n ? n : 1); memcpy(r, p, n); return r; }
/* one message through contexts c and d: what encryption gives, and back */
static void message(void *c, void *d, const unsigned char *iv, size_t ivn, const unsigned char *aad, size_t an, const unsigned char *in, size_t n, int ip, size_t tn, size_t cut) {
  int r; unsigned char e[300], et[16]; unsigned char *ib = box(in, n), *ob = ip ? ib : malloc(n ? n : 1), *pb = ip ? ib : malloc(n ? n : 1), *vb = box(iv, ivn), *ab = box(aad, an), *tb = malloc(tn ? tn : 1), *ub = malloc(tn ? tn : 1);
  r = setiv(c, vb, ivn); sym_assert(r == 1, "white-box GCM takes the IV"); if (an) { r = addaad(c, ab, an); sym_assert(r == 1, "white-box GCM takes the AAD"); }
  if (cut) { r = crypt(c, 0, ib, cut, ob, cut); sym_assert(r == 1, "white-box GCM encryption succeeds"); } r = crypt(c, 0, ib + cut, n - cut, ob + cut, n - cut); sym_assert(r == 1, "white-box GCM encryption succeeds");
  if (!mask) { ref_gcm(refaes, K, iv, ivn, aad, an, in, n, e, et, 0); sym_equal(ob, e, n, "white-box GCM ciphertext equals AES-GCM"); }
  if (!ip) sym_equal(ib, in, n, "white-box GCM leaves its input alone"); r = finish(c, tb, tn); sym_assert(r == 1, "white-box GCM gives a tag"); reftag(iv, ivn, aad, an, ob, n, et); sym_equal(tb, et, tn, "white-box GCM tag is the SP 800-38D tag of the ciphertext");
  r = setiv(d, vb, ivn); sym_assert(r == 1, "white-box GCM takes the IV"); if (an) addaad(d, ab, an); if (cut) crypt(d, 1, ob, cut, pb, cut); r = crypt(d, 1, ob + cut, n - cut, pb + cut, n - cut); sym_assert(r == 1, "white-box GCM decryption succeeds"); sym_equal(pb, in, n, "white-box GCM decryption restores the message");
  r = finish(d, ub, tn); sym_assert(r == 1, "white-box GCM gives a tag"); sym_equal(ub, et, tn, "white-box GCM decryption arrives at the same tag"); sym_equal(vb, iv, ivn, "white-box GCM leaves the IV alone"); sym_equal(ab, aad, an, "white-box GCM leaves the AAD alone");
}
static void fixiv(unsigned char *iv, size_t n, int s) { size_t i; for (i = 0; i < n; i++) iv[i] = (unsigned char)(s * 101 + i * (29 + 2 * s) + 7); }
/* all messages and AAD; the IV fixed */
void h_msg(void) {
  static const int IVN[] = {12, 16, 5, 33, 0}; size_t n, an, ivn, tn = 16, cut, i; int ip; unsigned char iv[40], aad[64], in[300]; void *c, *d; sym_canon(1); tables(); c = ctx_new(0); d = ctx_new(1);
  n = sym_range(sym_param("lo", 0), sym_param("hi", 33), "len"); an = sym_range(sym_param("alo", 0), sym_param("ahi", 1), "aad"); ivn = IVN[sym_range(sym_param("vlo", 0), sym_param("vhi", 0), "iv length")]; ip = (int)sym_range(0, sym_param("ip", 1), "inplace"); cut = sym_range(0, sym_param("cuts", 0), "cut") * 16; if (cut > n) { sym_end(); return; } if (sym_param("tags", 0)) tn = sym_range(0, 16, "taglen");
  for (i = 0; i <= (size_t)sym_param("again", 0); i++) { fixiv(iv, ivn, (int)i + (int)sym_param("time", 0)); sym_bytes(in, n, "msg"); sym_bytes(aad, an, "aad"); message(c, d, iv, ivn, aad, an, in, n, ip, tn, cut); if (i == 0) an = 0; } sym_reach("end");
}
/* all values of one byte of the IV; message fixed */
void h_iv(void) {
  size_t n = (size_t)sym_param("n", 20), ivn = (size_t)sym_param("ivn", 12), i; int p; unsigned char iv[40], in[64]; void *c, *d; sym_canon(2); tables(); c = ctx_new(0); d = ctx_new(1); for (p = (int)sym_param("plo", 0); p <= (int)sym_param("phi", 0); p++) { fixiv(iv, ivn, p); for (i = 0; i < 64; i++) in[i] = (unsigned char)(i * 73 + p); sym_bytes(iv + p, 1, "byte"); message(c, d, iv, ivn, in, 3, in, n, 0, 16, 0); } sym_reach("end");
}
/* IVs solved for a counter that carries */
void h_carry(void) {
  static const uint32_t C[] = {0xffffffff, 0xfffffffe, 0xfffffefe, 0x00fffffe, 0x0000ffff, 0x7fffffff, 0x000000ff, 0xfeffffff}; unsigned char z[16] = {0}, h[16], hi[16], s[16], y[16], iv[16], in[40]; int i; size_t n = 35; void *c, *d; sym_canon(1); tables(); c = ctx_new(0); d = ctx_new(1); ref_aes128(K, z, h); memcpy(s, h, 16); memset(hi, 0, 16); hi[0] = 0x80; for (i = 1; i < 128; i++) { ref_gfmul(s, s, s); ref_gfmul(hi, s, hi); }
  for (i = 0; i < 12; i++) y[i] = (unsigned char)(17 * i + 3); ref_pbe32(y + 12, C[sym_range(0, 7, "ctr")]); ref_gfmul(y, hi, y); y[15] ^= 128; ref_gfmul(y, hi, iv); sym_bytes(in, n, "msg"); message(c, d, iv, 16, in, 0, in, n, 0, 16, 0); sym_reach("end");
}
/* an output that is too small is refused and nothing is written */
void h_small(void) {
  sym_canon(1); tables(); size_t n = sym_range(1, sym_param("hi", 18), "len"), room = sym_range(0, sym_param("hi", 18) - 1, "room"); int dec = (int)sym_range(0, 1, "dec"), r; unsigned char iv[12], in[40], old[40]; void *c; if (room >= n) { sym_end(); return; } c = ctx_new(dec); fixiv(iv, 12, 1); sym_bytes(in, n, "msg"); memset(old, 0x5a, 40); unsigned char *ob = box(old, room); setiv(c, iv, 12); r = crypt(c, dec, in, n, ob, room); sym_assert(r != 1, "white-box GCM refuses an output shorter than the input"); sym_equal(ob, old, room, "a refused white-box GCM call writes nothing"); sym_reach("end");
}
/* files */
static int fcrypt(void *c, int dec, char *a, char *b) { return mask ? (dec ? WBCRYPTO_wbaes_wbgcmfile_mask_decrypt : WBCRYPTO_wbaes_wbgcmfile_mask_encrypt)(c, a, b) : (dec ? WBCRYPTO_wbaes_wbgcmfile_ee_decrypt : WBCRYPTO_wbaes_wbgcmfile_ee_encrypt)(c, a, b); }
static void *fctx(int dec, const unsigned char *aad, size_t an) { unsigned char iv[12]; void *c = ctx_new(dec); fixiv(iv, 12, 1); setiv(c, iv, 12); if (an) addaad(c, aad, an); return c; }
static size_t image(const unsigned char *aad, size_t an, const unsigned char *m, size_t n, unsigned char *f) { int i; void *c = fctx(0, aad, an); crypt(c, 0, m, n, f + 24, n); finish(c, f, 16); for (i = 0; i < 8; i++) f[16 + i] = (unsigned char)((uint64_t)n >> 8 * i); return n + 24; }
void h_file(void) {
  size_t n, an, fn; int r, exists; unsigned char aad[8], m[700], f[724], g[724], p[724]; sym_canon(1); tables(); n = sym_range(sym_param("lo", 0), sym_param("hi", 3), "len"); an = sym_range(0, 1, "aad") * 5; exists = (int)sym_range(0, 1, "exists"); sym_bytes(aad, an, "aad"); sym_bytes(m, n, "msg"); fn = image(aad, an, m, n, f); vfs_put("in", m, n); if (exists) { memset(g, 0xee, 724); vfs_put("out", g, n + 24); vfs_put("back", g, n + 24); }
  r = fcrypt(fctx(0, aad, an), 0, "in", "out"); sym_assert(r == 1, "white-box GCM file encryption succeeds"); sym_assert(vfs_size("out") == (long)fn, "white-box GCM file has tag, length and ciphertext"); vfs_get("out", g, fn); sym_equal(g, f, fn, "white-box GCM file holds tag, length and ciphertext of the message"); sym_assert(vfs_size("in") == (long)n && vfs_size("out.tmp") < 0, "white-box GCM file encryption leaves the input and no temporary file"); vfs_get("in", p, n); sym_equal(p, m, n, "white-box GCM file encryption leaves the input alone");
  r = fcrypt(fctx(1, aad, an), 1, "out", "back"); sym_assert(r == 1, "white-box GCM file decryption accepts the file"); sym_assert(vfs_size("back") == (long)n, "white-box GCM file decryption restores the length"); vfs_get("back", p, n); sym_equal(p, m, n, "white-box GCM file decryption restores the message"); sym_reach("end");
}
void h_tamper(void) {
  size_t n, an = (size_t)sym_param("aad", 2), pos, fn; int what, r; unsigned char aad[8], m[300], f[400], d, x[40]; sym_canon(1); tables(); n = sym_range(sym_param("lo", 1), sym_param("hi", 20), "len"); what = (int)sym_range(0, 4, "change"); sym_bytes(aad, 8, "aad"); sym_bytes(m, n, "msg"); fn = image(aad, an, m, n, f); sym_bytes(&d, 1, "delta"); sym_bytes(x, 40, "more"); sym_assume(d != 0);
  if (what == 0) { pos = sym_range(0, 19, "pos"); f[pos] ^= d; } else if (what == 1) { pos = sym_range(0, n ? n - 1 : 0, "pos"); if (!n) { sym_end(); return; } f[24 + pos] ^= d; } else if (what == 2) fn = sym_range(0, fn - 1, "cut"); else if (what == 3) { size_t k = sym_range(1, 20, "more"); memcpy(f + fn, x, k); fn += k; } else { if (!an) { sym_end(); return; } aad[sym_range(0, an - 1, "pos")] ^= d; }
  vfs_put("enc", f, fn); r = fcrypt(fctx(1, aad, an), 1, "enc", "back"); sym_assert(r != 1, "white-box GCM file decryption rejects a changed file"); sym_reach("end");
}
void h_io(void) {
  size_t n, fn; int kind, at, dec, r; unsigned char m[200], f[300], g[300]; sym_canon(1); tables(); n = sym_range(0, 1, "len") ? 150 : 20; kind = (int)sym_range(sym_param("klo", 1), sym_param("khi", 8), "kind"); at = (int)sym_range(0, sym_param("at", 6), "at"); dec = (int)sym_range(0, 1, "dec"); if (kind == 5) { sym_end(); return; }
  sym_bytes(m, n, "msg"); fn = image(m, 0, m, n, f); if (kind < 8) { if (dec) vfs_put("in", f, fn); else vfs_put("in", m, n); vfs_fault(kind, at); } r = fcrypt(fctx(dec, m, 0), dec, "in", "out"); if (kind < 8) vfs_fault(kind, -1); sym_assert(r == 0 || r == 1, "white-box GCM file calls return 0 or 1"); if (kind == 8) sym_assert(r == 0, "white-box GCM file call on a missing input is an error");
  if (r == 1) { size_t k = dec ? n : fn; sym_assert(vfs_size("out") == (long)k, "white-box GCM file call that hit an I/O error and returned 1 wrote the whole output"); vfs_get("out", g, k); sym_equal(g, dec ? m : f, k, "white-box GCM file call that hit an I/O error and returned 1 wrote the right output"); } sym_reach("end");
}
