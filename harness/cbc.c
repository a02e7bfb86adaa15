/* CBC: ciphertext equals CBC over the padded message; decryption restores it; bounds and chaining. */
#include "verif.h"
#include "ref.h"
#include <wbcrypto/modes.h>
#include <wbcrypto/sm4.h>
#include <wbcrypto/aes.h>
typedef int (*cbcf)(const unsigned char *, size_t, unsigned char *, size_t, size_t *, const void *, unsigned char *);
static int kid = 7;
static int refsm4(const unsigned char *i, unsigned char *o, const void *k) { ref_sm4(k, i, o); return 1; }
static int refaes(const unsigned char *i, unsigned char *o, const void *k) { ref_aes128(k, i, o); return 1; }
/* any block cipher, through the generic interface */
void h_roundtrip(void) {
  int inplace = (int)sym_range(0, 1, "inplace"), r; size_t n = sym_range(sym_param("lo", 0), sym_param("hi", 33), "len"), pl = (n + 15) / 16 * 16, i, ul = 12345, room = sym_range(0, 1, "room") * 16;
  unsigned char mb[200], iv[16], iv2[16], iv3[16], pad[220], e[220]; sym_bytes(mb, n, "msg"); sym_bytes(iv, 16, "iv"); memcpy(iv2, iv, 16); memcpy(iv3, iv, 16);
  unsigned char *m = malloc(inplace ? (pl ? pl : 1) : n ? n : 1), *c = inplace ? m : malloc(pl + room ? pl + room : 1), *p; memcpy(m, mb, n); if (inplace) room = 0;
  for (i = 0; i < pl; i++) pad[i] = i < n ? mb[i] : (unsigned char)(pl - n);
  r = WBCRYPTO_cbc128_encrypt(m, n, c, pl + room, &ul, &kid, iv, UFENC);
  sym_assert(r == 1, "CBC encryption succeeds when the output is large enough"); sym_assert(ul == pl, "CBC encryption reports the padded length");
  ref_cbc_enc(UFENC, &kid, iv2, pad, pl, e); sym_equal(c, e, pl, "CBC ciphertext equals the mode over the padded message"); if (!inplace) sym_equal(m, mb, n, "CBC encryption leaves the message alone");
  p = inplace ? c : malloc(pl + room ? pl + room : 1); r = WBCRYPTO_cbc128_decrypt(c, pl, p, pl + room, &ul, &kid, iv3, UFDEC);
  sym_assert(r == 1, "CBC decryption succeeds on whole blocks"); sym_equal(p, pad, pl, "CBC decryption restores the padded message"); if (!inplace) sym_equal(c, e, pl, "CBC decryption leaves the ciphertext alone"); sym_reach("end");
}
/* the SM4 and AES interfaces: encryption of any message */
void h_enc(void) {
  int mode = (int)sym_param("mode", 1), inplace = (int)sym_range(0, 1, "inplace"), r; size_t n = sym_range(sym_param("lo", 0), sym_param("hi", 33), "len"), pl = (n + 15) / 16 * 16, i, ul = 12345; unsigned char mb[200], iv[16], iv2[16], key[16], pad[220], e[220];
  sym_bytes(mb, n, "msg"); sym_bytes(iv, 16, "iv"); memcpy(iv2, iv, 16); sym_bytes(key, 16, "key"); unsigned char *m = malloc(inplace ? (pl ? pl : 1) : n ? n : 1), *c = inplace ? m : malloc(pl ? pl : 1); memcpy(m, mb, n); for (i = 0; i < pl; i++) pad[i] = i < n ? mb[i] : (unsigned char)(pl - n);
  WBCRYPTO_sm4_context *s = WBCRYPTO_sm4_context_init(); WBCRYPTO_aes_context *a = WBCRYPTO_aes_context_init(); if (mode == 1) WBCRYPTO_sm4_init_key(s, key, 16); else WBCRYPTO_aes_init_key(a, key, 16);
  r = mode == 1 ? WBCRYPTO_sm4_cbc_encrypt(m, n, c, pl, &ul, s, iv) : WBCRYPTO_aes_cbc_encrypt(m, n, c, pl, &ul, a, iv); sym_assert(r == 1, "CBC encryption succeeds when the output is large enough"); sym_assert(ul == pl, "CBC encryption reports the padded length");
  ref_cbc_enc(mode == 1 ? refsm4 : refaes, key, iv2, pad, pl, e); sym_equal(c, e, pl, "CBC ciphertext equals the mode over the padded message"); if (!inplace) sym_equal(m, mb, n, "CBC encryption leaves the message alone");
  if (pl) { iv[0] = 99; ul = 0; r = mode == 1 ? WBCRYPTO_sm4_cbc_encrypt(mb, n, c, pl - 1, &ul, s, iv) : WBCRYPTO_aes_cbc_encrypt(mb, n, c, pl - 1, &ul, a, iv); sym_assert(r == 0, "CBC encryption into too small an output is an error"); } sym_reach("end");
}
/* the SM4 and AES interfaces: decryption of any ciphertext.  Ciphertext and IV range over all values, parametrised by the last block and the plaintext it should give:
   k pad bytes after the message; k = 0: a message of whole blocks, which encryption stores without padding */
void h_wdec(void) {
  int mode = (int)sym_param("mode", 1), inplace = (int)sym_range(0, 1, "inplace"), r; size_t nb = sym_range(sym_param("blo", 0), sym_param("bhi", 2), "blocks"), i, ul = 12345, pl = 16 * nb, k = nb ? sym_range(0, 15, "pad") : 0; unsigned char cb[220], iv[16], key[16], e[220], b[16], w[176]; int j;
  sym_bytes(key, 16, "key"); ref_aes_expand(key, 4, w); memset(cb, 0, sizeof cb); if (nb) { sym_bytes(cb + 16 * nb, 16, "last"); sym_bytes(e, pl - k, "msg"); memset(e + pl - k, (int)k, k); }
  for (i = nb; i > 0; i--) { if (mode == 1) ref_sm4_crypt(key, cb + 16 * i, b, 1); else ref_aes_dec_rk(w, 10, cb + 16 * i, b); for (j = 0; j < 16; j++) cb[16 * (i - 1) + j] = b[j] ^ e[16 * (i - 1) + j]; } memcpy(iv, cb, 16);
  unsigned char *c = malloc(pl ? pl : 1), *p = inplace ? c : malloc(pl ? pl : 1); memcpy(c, cb + 16, pl);
  WBCRYPTO_sm4_context *s = WBCRYPTO_sm4_context_init(); WBCRYPTO_aes_context *a = WBCRYPTO_aes_context_init(); if (mode == 1) WBCRYPTO_sm4_init_key(s, key, 16); else WBCRYPTO_aes_init_key(a, key, 16);
  r = mode == 1 ? WBCRYPTO_sm4_cbc_decrypt(c, pl, p, pl, &ul, s, iv) : WBCRYPTO_aes_cbc_decrypt(c, pl, p, pl, &ul, a, iv); sym_assert(r == 1, "CBC decryption succeeds on whole blocks");
  sym_equal(p, e, pl, "CBC plaintext equals the mode over the ciphertext"); if (!inplace) sym_equal(c, cb + 16, pl, "CBC decryption leaves the ciphertext alone"); sym_reach("end");
  if (k) sym_assert(ul == pl - k, "CBC decryption reports the message length"); else if (!nb) sym_assert(ul == 0, "CBC decryption of nothing reports length 0"); else { unsigned l = e[pl - 1]; int amb = l >= 1 && l <= 16; sym_assert(amb || ul == pl, "CBC decryption reports the length of a message of whole blocks"); sym_assert(!amb || ul == pl || ul == pl - l, "CBC decryption reports the full or the unpadded length"); sym_assert(!amb || ul == pl, "CBC decryption reports the length of a message of whole blocks that ends in a byte 1..16"); }
}
/* output too small, partial ciphertext blocks: reported, nothing written */
void h_reject(void) {
  size_t n = sym_range(0, sym_param("hi", 33), "len"), pl = (n + 15) / 16 * 16, room = sym_range(0, sym_param("hi", 33) + 15, "room"), ul = 1; int dec = (int)sym_range(0, 1, "dec"), r; unsigned char mb[80], iv[16], old[80]; if (room > pl) { sym_end(); return; }
  sym_bytes(mb, n, "msg"); sym_bytes(iv, 16, "iv"); unsigned char *m = malloc(n ? n : 1), *o = malloc(room ? room : 1); memcpy(m, mb, n); memset(old, 0x3c, 80); memset(o, 0x3c, room ? room : 1);
  r = dec ? WBCRYPTO_cbc128_decrypt(m, n, o, room, &ul, &kid, iv, UFDEC) : WBCRYPTO_cbc128_encrypt(m, n, o, room, &ul, &kid, iv, UFENC);
  int ok = dec ? n % 16 == 0 && room >= n : room >= pl; sym_assert(r == ok, "CBC rejects an output that is too small and partial ciphertext blocks"); if (!ok) sym_equal(o, old, room, "rejected CBC call writes nothing"); sym_reach("end");
}
/* any ciphertext of whole blocks decrypts to what the mode defines, whatever the block cipher */
void h_dec(void) {
  size_t nb = sym_range(0, sym_param("blocks", 4), "blocks"), i, ul = 0; int ip = (int)sym_range(0, 1, "inplace"), r; unsigned char cb[200], iv[16], iv2[16], e[200], b[16], pv[16]; sym_bytes(cb, 16 * nb, "ct"); sym_bytes(iv, 16, "iv"); memcpy(iv2, iv, 16);
  unsigned char *c = malloc(nb ? 16 * nb : 1), *o = ip ? c : malloc(nb ? 16 * nb : 1); memcpy(c, cb, 16 * nb); r = WBCRYPTO_cbc128_decrypt(c, 16 * nb, o, 16 * nb, &ul, &kid, iv, UFDEC); sym_assert(r == 1, "CBC decryption succeeds on whole blocks");
  memcpy(pv, iv2, 16); for (i = 0; i < nb; i++) { int j; UFDEC(cb + 16 * i, b, &kid); for (j = 0; j < 16; j++) e[16 * i + j] = b[j] ^ pv[j]; memcpy(pv, cb + 16 * i, 16); } sym_equal(o, e, 16 * nb, "CBC plaintext equals the mode over the ciphertext"); if (!ip) sym_equal(c, cb, 16 * nb, "CBC decryption leaves the ciphertext alone"); sym_reach("end");
}
