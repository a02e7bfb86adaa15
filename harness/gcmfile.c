/* GCM files: tag ‖ length ‖ ciphertext of the whole file, round trip, rejection of changed files and of wrong IV or AAD, I/O failures. */
#include "verif.h"
#include "ref.h"
#include <wbcrypto/modes.h>
#include <wbcrypto/sm4.h>
#include <wbcrypto/aes.h>
static int kid = 7;
static const unsigned char HK[2][16] = {{0x66,0xe9,0x4b,0xd4,0xef,0x8a,0x2c,0x3b,0x88,0x4c,0xfa,0x59,0xca,0x34,0x2b,0x2e}, {0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff}};
static void fixh(int i) { unsigned char z[16] = {0}; sym_perm_def(kid, z, HK[i]); }
static WBCRYPTO_gcmfile_context *open_ctx(const unsigned char *iv, size_t ivn, const unsigned char *aad, size_t an) { WBCRYPTO_gcmfile_context *c = WBCRYPTO_gcmfile_init(&kid, UFENC); int r; sym_assert(c != 0, "GCM file init succeeds"); r = WBCRYPTO_gcmfile_setiv(c, iv, ivn); sym_assert(r == 1, "setting the IV succeeds"); if (an) { r = WBCRYPTO_gcmfile_aad(c, aad, an); sym_assert(r == 1, "adding AAD succeeds"); } return c; }
/* the file the mode defines for a message */
static size_t image(const unsigned char *iv, size_t ivn, const unsigned char *aad, size_t an, const unsigned char *m, size_t n, unsigned char *f) { int i; ref_gcm(UFENC, &kid, iv, ivn, aad, an, m, n, f + 24, f, 0); for (i = 0; i < 8; i++) f[16 + i] = (unsigned char)((uint64_t)n >> 8 * i); return n + 24; }
void h_roundtrip(void) {
  size_t n = sym_range(sym_param("lo", 0), sym_param("hi", 3), "len"), an = sym_range(0, 1, "aad") * 5, ivn = 12; int exists = (int)sym_range(0, 1, "exists"), r, ctx2 = (int)sym_range(0, 1, "newctx"); unsigned char iv[12], aad[8], m[700], f[724], g[724], p[724];
  fixh((int)sym_param("fix", 0)); sym_bytes(iv, ivn, "iv"); sym_bytes(aad, an, "aad"); sym_bytes(m, n, "msg"); size_t fn = image(iv, ivn, aad, an, m, n, f); vfs_put("in", m, n); if (exists) { memset(g, 0xee, 724); vfs_put("out", g, n + 60); vfs_put("back", g, n + 60); }
  WBCRYPTO_gcmfile_context *c = open_ctx(iv, ivn, aad, an); r = WBCRYPTO_gcmfile_encrypt(c, "in", "out"); sym_assert(r == 1, "GCM file encryption succeeds"); sym_assert(vfs_size("out") == (long)fn, "GCM file has tag, length and ciphertext"); vfs_get("out", g, fn); sym_equal(g, f, fn, "GCM file holds the tag, length and ciphertext of the message");
  sym_assert(vfs_size("in") == (long)n, "GCM file encryption leaves the input alone"); vfs_get("in", p, n); sym_equal(p, m, n, "GCM file encryption leaves the input alone"); sym_assert(vfs_size("out.tmp") < 0, "GCM file encryption leaves no temporary file");
  if (ctx2) c = open_ctx(iv, ivn, aad, an); else { r = WBCRYPTO_gcmfile_setiv(c, iv, ivn); sym_assert(r == 1, "setting the IV succeeds"); if (an) WBCRYPTO_gcmfile_aad(c, aad, an); }
  r = WBCRYPTO_gcmfile_decrypt(c, "out", "back"); sym_assert(r == 1, "GCM file decryption accepts the file"); sym_assert(vfs_size("back") == (long)n, "GCM file decryption restores the length"); vfs_get("back", p, n); sym_equal(p, m, n, "GCM file decryption restores the message"); vfs_get("out", g, fn); sym_equal(g, f, fn, "GCM file decryption leaves the file alone"); sym_reach("end");
}
/* any change to one byte of the tag, the length or the ciphertext, and any change of length, is rejected */
void h_tamper(void) {
  size_t n = sym_range(sym_param("lo", 1), sym_param("hi", 20), "len"), an = sym_param("aad", 0), pos, fn; int what = (int)sym_range(0, 3, "change"), r; unsigned char iv[12], aad[8], m[300], f[400], d, x[40];
  fixh((int)sym_param("fix", 0)); sym_bytes(iv, 12, "iv"); sym_bytes(aad, an, "aad"); sym_bytes(m, n, "msg"); fn = image(iv, 12, aad, an, m, n, f); sym_bytes(&d, 1, "delta"); sym_bytes(x, 40, "more"); sym_assume(d != 0);
  if (what == 0) { pos = sym_range(0, 19, "pos"); f[pos] ^= d; } else if (what == 1) { pos = sym_range(0, n ? n - 1 : 0, "pos"); if (!n) { sym_end(); return; } f[24 + pos] ^= d; } else if (what == 2) fn = sym_range(0, fn - 1, "cut"); else { size_t k = sym_range(1, sym_param("grow", 20), "more"); memcpy(f + fn, x, k); fn += k; }
  vfs_put("enc", f, fn); WBCRYPTO_gcmfile_context *c = open_ctx(iv, 12, aad, an); r = WBCRYPTO_gcmfile_decrypt(c, "enc", "back"); sym_assert(r == 0, "GCM file decryption rejects a changed file"); sym_reach("end");
}
/* a wrong IV or wrong AAD (one byte differs, anywhere, in any way) is rejected */
void h_wrong(void) {
  size_t n = sym_range(sym_param("lo", 0), sym_param("hi", 17), "len"), fn, pos; int what = (int)sym_range(sym_param("wlo", 0), sym_param("whi", 1), "wrong"), r; unsigned char iv[12], aad[8], m[200], f[300], d;
  fixh(0); sym_bytes(iv, 12, "iv"); sym_bytes(aad, 8, "aad"); sym_bytes(m, n, "msg"); fn = image(iv, 12, aad, 8, m, n, f); vfs_put("enc", f, fn);
  pos = sym_range(0, what ? 7 : 11, "pos"); sym_bytes(&d, 1, "delta"); sym_assume(d != 0); if (what) aad[pos] ^= d; else iv[pos] ^= d;
  WBCRYPTO_gcmfile_context *c = open_ctx(iv, 12, aad, 8); r = WBCRYPTO_gcmfile_decrypt(c, "enc", "back"); sym_assert(r == 0, "GCM file decryption rejects a wrong IV or AAD"); sym_reach("end");
}
/* a failing open, read, write or flush is reported: success is only returned with a complete output */
void h_io(void) {
  size_t n = sym_range(0, 1, "len") ? 150 : 20, fn; int kind = (int)sym_range(1, 7, "kind"), at = (int)sym_range(0, sym_param("at", 6), "at"), dec = (int)sym_range(0, 1, "dec"), r; unsigned char iv[12], m[200], f[300], g[300]; if (kind == 5) { sym_end(); return; }
  fixh(0); sym_bytes(iv, 12, "iv"); sym_bytes(m, n, "msg"); fn = image(iv, 12, m, 0, m, n, f); if (dec) vfs_put("in", f, fn); else vfs_put("in", m, n); WBCRYPTO_gcmfile_context *c = open_ctx(iv, 12, m, 0); vfs_fault(kind, at);
  r = (dec ? WBCRYPTO_gcmfile_decrypt : WBCRYPTO_gcmfile_encrypt)(c, "in", "out"); vfs_fault(kind, -1); sym_assert(r == 0 || r == 1, "GCM file calls return 0 or 1");
  if (r == 1) { size_t k = dec ? n : fn; sym_assert(vfs_size("out") == (long)k, "GCM file call that hit an I/O error and returned 1 wrote the whole output"); vfs_get("out", g, k); sym_equal(g, dec ? m : f, k, "GCM file call that hit an I/O error and returned 1 wrote the right output"); } sym_reach("end");
}
void h_missing(void) { unsigned char iv[12]; int r; fixh(0); sym_bytes(iv, 12, "iv"); WBCRYPTO_gcmfile_context *c = open_ctx(iv, 12, iv, 0); r = sym_range(0, 1, "dec") ? WBCRYPTO_gcmfile_decrypt(c, "absent", "out") : WBCRYPTO_gcmfile_encrypt(c, "absent", "out"); sym_assert(r == 0, "GCM file call on a missing input is an error"); sym_reach("end"); }
/* the SM4 and AES interfaces use their cipher */
static int refsm4(const unsigned char *i, unsigned char *o, const void *k) { ref_sm4(k, i, o); return 1; }
static int refaes(const unsigned char *i, unsigned char *o, const void *k) { ref_aes128(k, i, o); return 1; }
void h_cipher(void) {
  static const unsigned char KEY[16] = {0x01,0x23,0x45,0x67,0x89,0xab,0xcd,0xef,0xfe,0xdc,0xba,0x98,0x76,0x54,0x32,0x10}; int mode = (int)sym_range(1, 2, "cipher"), r; size_t n = 20; unsigned char iv[12], m[40], e[64], et[16], g[64]; sym_bytes(iv, 12, "iv"); sym_bytes(m, n, "msg"); vfs_put("in", m, n); WBCRYPTO_gcmfile_context *c;
  if (mode == 1) { WBCRYPTO_sm4_context *s = WBCRYPTO_sm4_context_init(); WBCRYPTO_sm4_init_key(s, KEY, 16); c = WBCRYPTO_sm4_gcmfile_init(s); } else { WBCRYPTO_aes_context *s = WBCRYPTO_aes_context_init(); WBCRYPTO_aes_init_key(s, KEY, 16); c = WBCRYPTO_aes_gcmfile_init(s); }
  WBCRYPTO_gcmfile_setiv(c, iv, 12); r = WBCRYPTO_gcmfile_encrypt(c, "in", "out"); sym_assert(r == 1 && vfs_size("out") == 44, "cipher's GCM file encryption succeeds"); vfs_get("out", g, 44); ref_gcm(mode == 1 ? refsm4 : refaes, KEY, iv, 12, m, 0, m, n, e, et, 0); sym_equal(g, et, 16, "cipher's GCM file tag"); sym_equal(g + 24, e, n, "cipher's GCM file ciphertext"); sym_reach("end");
}
