/* GCM: ciphertext and tag equal SP 800-38D over any block cipher, for every IV, AAD and message; streaming; context reuse; failures. */
#include "verif.h"
#include "ref.h"
#include <wbcrypto/modes.h>
#include <wbcrypto/sm4.h>
#include <wbcrypto/aes.h>
static int kid = 7;
static unsigned char *box(const unsigned char *p, size_t n) { unsigned char *r = malloc(n ? n : 1); memcpy(r, p, n); return r; }
static void hint(void) { unsigned char z[16] = {0}, h[16]; UFENC(z, h, &kid); sym_expand(h, 16); }
/* the hash key, when it is fixed: four values and their inverses */
static const unsigned char HK[4][16] = {{0x66,0xe9,0x4b,0xd4,0xef,0x8a,0x2c,0x3b,0x88,0x4c,0xfa,0x59,0xca,0x34,0x2b,0x2e}, {0xb8,0x3b,0x53,0x37,0x08,0xbf,0x53,0x5d,0x0a,0xa6,0xe5,0x29,0x80,0xd5,0x3b,0x78}, {0x80}, {0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff}};
static void fixh(int i) { unsigned char z[16] = {0}; sym_perm_def(kid, z, HK[i]); }
static void gfinv(const unsigned char h[16], unsigned char r[16]) { unsigned char s[16]; int i; memcpy(s, h, 16); memset(r, 0, 16); r[0] = 0x80; for (i = 1; i < 128; i++) { ref_gfmul(s, s, s); ref_gfmul(r, s, r); } }
static void seth(void) { int f = (int)sym_param("fix", -1); if (f >= 0) fixh(f); else hint(); }
/* one message through one context */
void h_gcm(void) {
  size_t ivn = sym_range(sym_param("ivlo", 12), sym_param("ivhi", 12), "ivlen"), an = sym_range(sym_param("alo", 0), sym_param("ahi", 0), "aadlen"), n = sym_range(sym_param("lo", 0), sym_param("hi", 33), "len"), tn = 16;
  int dec = (int)sym_range(sym_param("dlo", 0), sym_param("dhi", 1), "dec"), inplace = (int)sym_range(0, sym_param("ip", 1), "inplace"), r; unsigned char iv[80], aad[80], in[200], e[200], et[16];
  seth();
  sym_bytes(iv, ivn, "iv"); sym_bytes(aad, an, "aad"); sym_bytes(in, n, "in"); if (sym_param("tags", 0)) tn = sym_range(0, 16, "taglen");
  unsigned char *ib = box(in, n), *ob = inplace ? ib : malloc(n ? n : 1), *vb = box(iv, ivn), *ab = box(aad, an), *tb = malloc(tn ? tn : 1);
  ref_gcm(UFENC, &kid, iv, ivn, aad, an, in, n, e, et, dec);
  WBCRYPTO_gcm_context *g = WBCRYPTO_gcm_init(&kid, UFENC); sym_assert(g != 0, "GCM init succeeds");
  r = WBCRYPTO_gcm_setiv(g, vb, ivn); sym_assert(r == 1, "setting the IV succeeds"); if (an || sym_range(0, 1, "emptyaad")) { r = WBCRYPTO_gcm_aad(g, ab, an); sym_assert(r == 1, "adding AAD succeeds"); }
  r = (dec ? WBCRYPTO_gcm_decrypt : WBCRYPTO_gcm_encrypt)(g, ib, n, ob, n); sym_assert(r == 1, "GCM accepts an output as long as the input"); sym_equal(ob, e, n, "GCM output equals SP 800-38D"); if (!inplace) sym_equal(ib, in, n, "GCM leaves its input alone");
  r = WBCRYPTO_gcm_finish(g, tb, tn); sym_assert(r == 1, "GCM finish succeeds"); sym_equal(tb, et, tn, "GCM tag equals SP 800-38D"); sym_equal(vb, iv, ivn, "GCM leaves the IV alone"); sym_reach("end");
}
/* IVs of 16 bytes and more: the first block is solved for, so that the pre-counter block has any first 12 bytes and a chosen counter; the rest of the IV is arbitrary */
void h_carry(void) {
  static const uint32_t C[] = {0xffffffff, 0xfffffffe, 0xfffffefe, 0x00fffffe, 0x0000ffff, 0x7fffffff, 0x000000ff, 0xfeffffff, 0x01234567}; int f = (int)sym_param("fix", 0), dec = (int)sym_range(0, 1, "dec"), r; size_t n = 35, ivn = sym_range(sym_param("ivlo", 16), sym_param("ivhi", 16), "ivlen"), i, nb = (ivn + 15) / 16, b; unsigned char y[16], iv[80], hi[16], one[16], in[40], e[40], et[16], o[40], t[16];
  fixh(f); gfinv(HK[f], hi); ref_gfmul(hi, HK[f], one); sym_assert(one[0] == 0x80 && one[15] == 0, "inverse of the hash key"); sym_bytes(y, 12, "j0"); ref_pbe32(y + 12, C[sym_range(0, sym_param("ctrs", 8), "ctr")]); sym_bytes(in, n, "in"); sym_bytes(iv, ivn, "iv");
  ref_gfmul(y, hi, y); y[15] ^= (unsigned char)(8 * ivn); y[14] ^= (unsigned char)(8 * ivn >> 8); for (b = nb; b > 1; b--) { ref_gfmul(y, hi, y); for (i = 0; i < 16 && (b - 1) * 16 + i < ivn; i++) y[i] ^= iv[(b - 1) * 16 + i]; } ref_gfmul(y, hi, iv);
  ref_gcm(UFENC, &kid, iv, ivn, in, 0, in, n, e, et, dec); WBCRYPTO_gcm_context *g = WBCRYPTO_gcm_init(&kid, UFENC); WBCRYPTO_gcm_setiv(g, iv, ivn); r = (dec ? WBCRYPTO_gcm_decrypt : WBCRYPTO_gcm_encrypt)(g, in, n, o, n); sym_assert(r == 1, "GCM accepts an output as long as the input");
  sym_equal(o, e, n, "GCM output equals SP 800-38D for long IVs and counter carries"); WBCRYPTO_gcm_finish(g, t, 16); sym_equal(t, et, 16, "GCM tag equals SP 800-38D"); sym_reach("end");
}
/* output too small: refused, nothing written, and the message can still be processed */
void h_small(void) {
  size_t n = sym_range(1, sym_param("hi", 33), "len"), room = sym_range(0, sym_param("hi", 33) - 1, "room"); int dec = (int)sym_range(0, 1, "dec"), r; unsigned char iv[12], in[80], e[80], et[16], old[80], o[80], t[16]; if (room >= n) { sym_end(); return; }
  sym_bytes(iv, 12, "iv"); sym_bytes(in, n, "in"); seth(); memset(old, 0x5a, 80); unsigned char *ob = box(old, room); ref_gcm(UFENC, &kid, iv, 12, in, 0, in, n, e, et, dec);
  WBCRYPTO_gcm_context *g = WBCRYPTO_gcm_init(&kid, UFENC); WBCRYPTO_gcm_setiv(g, iv, 12); r = (dec ? WBCRYPTO_gcm_decrypt : WBCRYPTO_gcm_encrypt)(g, in, n, ob, room); sym_assert(r == 0, "GCM refuses an output shorter than the input"); sym_equal(ob, old, room, "refused GCM call writes nothing");
  r = (dec ? WBCRYPTO_gcm_decrypt : WBCRYPTO_gcm_encrypt)(g, in, n, o, n + 3); sym_assert(r == 1, "GCM works after a refused call"); sym_equal(o, e, n, "refused GCM call does not disturb the message"); WBCRYPTO_gcm_finish(g, t, 16); sym_equal(t, et, 16, "refused GCM call does not disturb the tag"); sym_reach("end");
}
/* a message in up to four pieces (whole blocks but for the last), each through any of the serial/parallel calls */
void h_stream(void) {
  size_t n = sym_range(sym_param("lo", 33), sym_param("hi", 50), "len"), nb = n / 16, a = sym_range(0, nb, "cut1"), b = sym_range(0, nb, "cut2"), c[4], i, at = 0, an = sym_param("aad", 5); int dec = (int)sym_range(0, 1, "dec"), r; unsigned char iv[12], aad[40], in[120], e[120], et[16], o[120], t[16]; if (b < a) { sym_end(); return; }
  sym_bytes(iv, 12, "iv"); sym_bytes(aad, an, "aad"); sym_bytes(in, n, "in"); seth(); ref_gcm(UFENC, &kid, iv, 12, aad, an, in, n, e, et, dec); WBCRYPTO_gcm_context *g = WBCRYPTO_gcm_init(&kid, UFENC); WBCRYPTO_gcm_setiv(g, iv, 12); WBCRYPTO_gcm_aad(g, aad, an);
  c[0] = a * 16; c[1] = (b - a) * 16; c[2] = n - b * 16; for (i = 0; i < 3; i++) { int par = sym_param("par", 0) ? (int)sym_range(0, 1, "parallel") : 0; if (par) sym_threads(2); r = (par ? dec ? WBCRYPTO_gcm_parallel_decrypt : WBCRYPTO_gcm_parallel_encrypt : dec ? WBCRYPTO_gcm_decrypt : WBCRYPTO_gcm_encrypt)(g, in + at, c[i], o + at, c[i]); sym_assert(r == 1, "GCM piece succeeds"); at += c[i]; }
  sym_equal(o, e, n, "pieces give the ciphertext of the whole message"); WBCRYPTO_gcm_finish(g, t, 16); sym_equal(t, et, 16, "pieces give the tag of the whole message"); sym_reach("end");
}
/* a context used again: the second message does not depend on the first, finished or abandoned at any stage */
void h_reuse(void) {
  static const int L1[4] = {0, 5, 16, 33}; size_t n1 = L1[sym_range(0, 3, "len1")], a1 = sym_range(0, 1, "aad1") * 5, n2 = sym_range(0, 1, "len2") * 17, a2 = sym_range(0, 1, "aad2") * 3, v1 = sym_range(0, 1, "iv1") ? 12 : 7; int stage = (int)sym_range(0, 3, "stage"), d1 = (int)sym_range(0, 1, "dec1"), d2 = (int)sym_range(0, 1, "dec2"), r; unsigned char iv[12], iv2[12], aad[8], in[64], in2[64], e[64], et[16], o[64], o2[64], t[16], t2[16];
  sym_bytes(iv, v1, "iv1"); sym_bytes(iv2, 12, "iv2"); sym_bytes(aad, 8, "aad"); sym_bytes(in, n1, "m1"); sym_bytes(in2, n2, "m2"); fixh(0); ref_gcm(UFENC, &kid, iv2, 12, aad, a2, in2, n2, e, et, d2);
  WBCRYPTO_gcm_context *g = WBCRYPTO_gcm_init(&kid, UFENC); WBCRYPTO_gcm_setiv(g, iv, v1); if (stage > 0) WBCRYPTO_gcm_aad(g, aad + 2, a1); if (stage > 1 && v1 == 12) (d1 ? WBCRYPTO_gcm_decrypt : WBCRYPTO_gcm_encrypt)(g, in, n1, o, n1); if (stage > 2) WBCRYPTO_gcm_finish(g, t, 16);
  r = WBCRYPTO_gcm_setiv(g, iv2, 12); sym_assert(r == 1, "setting the IV again succeeds"); if (a2) WBCRYPTO_gcm_aad(g, aad, a2); r = (d2 ? WBCRYPTO_gcm_decrypt : WBCRYPTO_gcm_encrypt)(g, in2, n2, o2, n2); sym_assert(r == 1, "second message succeeds"); sym_equal(o2, e, n2, "second message of a context equals SP 800-38D"); WBCRYPTO_gcm_finish(g, t2, 16); sym_equal(t2, et, 16, "second tag of a context equals SP 800-38D"); sym_reach("end");
}
/* two contexts used alternately do not influence each other */
void h_two(void) {
  static int kb = 9; size_t n = 33; unsigned char iv[12], ivb[12], in[40], inb[40], e[40], eb[40], et[16], etb[16], o[40], ob[40], t[16], tb[16]; int dec = (int)sym_range(0, 1, "dec"); sym_bytes(iv, 12, "iv"); sym_bytes(ivb, 12, "ivb"); sym_bytes(in, n, "in"); sym_bytes(inb, n, "inb"); hint(); { unsigned char z[16] = {0}, h[16]; UFENC(z, h, &kb); sym_expand(h, 16); }
  ref_gcm(UFENC, &kid, iv, 12, in, 3, in, n, e, et, 0); ref_gcm(UFENC, &kb, ivb, 12, in, 0, inb, n, eb, etb, dec); WBCRYPTO_gcm_context *g = WBCRYPTO_gcm_init(&kid, UFENC), *h = WBCRYPTO_gcm_init(&kb, UFENC); WBCRYPTO_gcm_setiv(g, iv, 12); WBCRYPTO_gcm_setiv(h, ivb, 12); WBCRYPTO_gcm_aad(g, in, 3);
  WBCRYPTO_gcm_encrypt(g, in, 16, o, 16); (dec ? WBCRYPTO_gcm_decrypt : WBCRYPTO_gcm_encrypt)(h, inb, 32, ob, 32); WBCRYPTO_gcm_encrypt(g, in + 16, 17, o + 16, 17); WBCRYPTO_gcm_finish(g, t, 16); (dec ? WBCRYPTO_gcm_decrypt : WBCRYPTO_gcm_encrypt)(h, inb + 32, 1, ob + 32, 1); WBCRYPTO_gcm_finish(h, tb, 16);
  sym_equal(o, e, n, "alternating contexts: first ciphertext"); sym_equal(t, et, 16, "alternating contexts: first tag"); sym_equal(ob, eb, n, "alternating contexts: second output"); sym_equal(tb, etb, 16, "alternating contexts: second tag"); sym_reach("end");
}
/* parallel encryption and decryption: same result as the mode for every number of threads and every schedule (no two threads touch the same byte unless both read) */
void h_par(void) {
  size_t n = sym_range(sym_param("lo", 0), sym_param("hi", 33), "len"), an = sym_range(0, 1, "aad") * 5, extra = sym_param("room", 0); int th = (int)sym_range(sym_param("tlo", 1), sym_param("thi", 8), "threads"), rev = (int)sym_range(0, sym_param("rev", 1), "order"), dec = (int)sym_range(0, 1, "dec"), ip = (int)sym_range(0, 1, "inplace"), r; unsigned char iv[12], aad[8], in[400], e[400], et[16], t[16];
  sym_bytes(iv, 12, "iv"); sym_bytes(aad, an, "aad"); sym_bytes(in, n, "in"); seth(); unsigned char *ib = box(in, n), *ob = ip ? ib : malloc(n + extra ? n + extra : 1); ref_gcm(UFENC, &kid, iv, 12, aad, an, in, n, e, et, dec);
  WBCRYPTO_gcm_context *g = WBCRYPTO_gcm_init(&kid, UFENC); WBCRYPTO_gcm_setiv(g, iv, 12); WBCRYPTO_gcm_aad(g, aad, an); int live = sym_heap_live(); sym_threads(th + 256 * rev);
  r = (dec ? WBCRYPTO_gcm_parallel_decrypt : WBCRYPTO_gcm_parallel_encrypt)(g, ib, n, ob, n + (ip ? 0 : extra)); sym_assert(r == 1, "parallel GCM succeeds"); sym_equal(ob, e, n, "parallel GCM output equals SP 800-38D"); if (!ip) sym_equal(ib, in, n, "parallel GCM leaves its input alone"); WBCRYPTO_gcm_finish(g, t, 16); sym_equal(t, et, 16, "parallel GCM tag equals SP 800-38D"); sym_assert(sym_heap_live() == live, "parallel GCM releases its memory"); sym_reach("end");
}
void h_parsmall(void) {
  size_t n = sym_range(1, 33, "len"), room = sym_range(0, 1, "short") ? n - 1 : n / 2; int dec = (int)sym_range(0, 1, "dec"), r; unsigned char iv[12], in[80], e[80], et[16], old[80], o[80], t[16];
  sym_bytes(iv, 12, "iv"); sym_bytes(in, n, "in"); seth(); memset(old, 0x5a, 80); unsigned char *ob = box(old, room); ref_gcm(UFENC, &kid, iv, 12, in, 0, in, n, e, et, dec);
  WBCRYPTO_gcm_context *g = WBCRYPTO_gcm_init(&kid, UFENC); WBCRYPTO_gcm_setiv(g, iv, 12); sym_threads(2); r = (dec ? WBCRYPTO_gcm_parallel_decrypt : WBCRYPTO_gcm_parallel_encrypt)(g, in, n, ob, room); sym_assert(r == 0, "parallel GCM refuses an output shorter than the input"); sym_equal(ob, old, room, "refused parallel GCM call writes nothing");
  r = (dec ? WBCRYPTO_gcm_parallel_decrypt : WBCRYPTO_gcm_parallel_encrypt)(g, in, n, o, n); sym_assert(r == 1, "parallel GCM works after a refused call"); sym_equal(o, e, n, "refused parallel GCM call does not disturb the message"); WBCRYPTO_gcm_finish(g, t, 16); sym_equal(t, et, 16, "refused parallel GCM call does not disturb the tag"); sym_reach("end");
}
/* the SM4 and AES interfaces run the mode with their cipher */
static int refsm4(const unsigned char *i, unsigned char *o, const void *k) { ref_sm4(k, i, o); return 1; }
static int refaes(const unsigned char *i, unsigned char *o, const void *k) { ref_aes128(k, i, o); return 1; }
void h_cipher(void) {
  static const unsigned char KEY[2][16] = {{0x01,0x23,0x45,0x67,0x89,0xab,0xcd,0xef,0xfe,0xdc,0xba,0x98,0x76,0x54,0x32,0x10}, {0xa5}}; int mode = (int)sym_range(1, 2, "cipher"), k = (int)sym_range(0, 1, "key"), dec = (int)sym_range(0, 1, "dec"); size_t n = 33; unsigned char iv[12], in[64], e[64], et[16], o[64], t[16]; sym_bytes(iv, 12, "iv"); sym_bytes(in, n, "in"); WBCRYPTO_gcm_context *g;
  if (mode == 1) { WBCRYPTO_sm4_context *s = WBCRYPTO_sm4_context_init(); WBCRYPTO_sm4_init_key(s, KEY[k], 16); g = WBCRYPTO_sm4_gcm_init(s); } else { WBCRYPTO_aes_context *s = WBCRYPTO_aes_context_init(); WBCRYPTO_aes_init_key(s, KEY[k], 16); g = WBCRYPTO_aes_gcm_init(s); }
  WBCRYPTO_gcm_setiv(g, iv, 12); (dec ? WBCRYPTO_gcm_decrypt : WBCRYPTO_gcm_encrypt)(g, in, n, o, n); WBCRYPTO_gcm_finish(g, t, 16); ref_gcm(mode == 1 ? refsm4 : refaes, KEY[k], iv, 12, in, 0, in, n, e, et, dec); sym_equal(o, e, n, "cipher's GCM output equals SP 800-38D"); sym_equal(t, et, 16, "cipher's GCM tag equals SP 800-38D"); sym_reach("end");
}
