/* Padding helpers: exact contents and lengths, no access outside the buffers, removal inverts addition. */
#include "verif.h"
#include <wbcrypto/utils.h>
void h_key(void) {
  unsigned char kb[40], d[48]; size_t n = sym_range(0, sym_param("hi", 40), "keylen"), i, r; int z = (int)sym_range(0, 1, "zeros"); sym_bytes(kb, 40, "key"); unsigned char *k = malloc(n ? n : 1), *o = malloc(16); memcpy(k, kb, n); sym_bytes(d, 16, "old"); memcpy(o, d, 16);
  r = z ? WBCRYPTO_key_padding_zeros(k, n, o) : WBCRYPTO_key_padding_pkcs7(k, n, o); sym_assert(r == 16, "padded key length is 16");
  for (i = 0; i < 16; i++) d[i] = i < n ? kb[i] : z ? 0 : (unsigned char)(16 - n); sym_equal(o, d, 16, "padded key: the first bytes of the key, then the padding"); sym_equal(k, kb, n, "key padding leaves the key alone"); sym_reach("end");
}
void h_msg(void) {
  unsigned char mb[300], e[320]; size_t n = sym_range(sym_param("lo", 0), sym_param("hi", 66), "len"), pl = (n + 15) / 16 * 16, i, r; sym_bytes(mb, n, "msg"); unsigned char *m = malloc(n ? n : 1), *o = malloc(pl ? pl : 1), *b = malloc(pl ? pl : 1); memcpy(m, mb, n);
  r = WBCRYPTO_padding_pkcs7_merge_length(m, n); sym_assert(r == pl, "padded length is the next multiple of 16"); r = WBCRYPTO_padding_pkcs7_merge(m, n, o); sym_assert(r == pl, "padding reports the padded length");
  for (i = 0; i < pl; i++) e[i] = i < n ? mb[i] : (unsigned char)(pl - n); sym_equal(o, e, pl, "padded message: the message, then the pad bytes"); sym_equal(m, mb, n, "padding leaves the message alone");
  /* removal: of a padded message gives the message; of anything else strips at most a block and nothing when the last byte is no pad length */
  size_t want = pl; if (pl) { unsigned char l = e[pl - 1]; want = l <= 16 && l <= pl ? pl - l : pl; } if (n % 16) sym_assert(want == n, "unpadding restores the length of a padded message");
  sym_assert(WBCRYPTO_padding_pkcs7_separate_length(o, pl) == want, "unpadded length"); memset(b, 0x77, pl ? pl : 1); r = WBCRYPTO_padding_pkcs7_separate(o, pl, b); sym_assert(r == want, "unpadding reports the unpadded length");
  if (n % 16) sym_equal(b, mb, n, "unpadding restores a padded message"); else for (i = 0; i < pl; i++) sym_assert(!(i < want) || b[i] == e[i], "unpadding copies the message"); sym_equal(o, e, pl, "unpadding leaves its input alone"); sym_reach("end");
}
/* removal from an arbitrary buffer of any length never reads or writes outside it and never grows it */
void h_strip(void) {
  unsigned char mb[80]; size_t n = sym_range(0, sym_param("hi", 50), "len"), r, r2; sym_bytes(mb, n, "buf"); unsigned char *m = malloc(n ? n : 1), *b = malloc(n ? n : 1); memcpy(m, mb, n);
  r = WBCRYPTO_padding_pkcs7_separate_length(m, n); r2 = WBCRYPTO_padding_pkcs7_separate(m, n, b); sym_assert(r == r2, "the two unpadding helpers agree"); sym_assert(r <= n && n - r <= 16, "unpadding removes at most one block");
  if (n) { unsigned char l = mb[n - 1]; sym_assert(!(l >= 1 && l <= 16 && l <= n) || r == n - l, "unpadding removes the pad length"); sym_assert((l <= 16 && l <= n) || r == n, "unpadding keeps a message that has no padding"); } sym_equal(m, mb, n, "unpadding leaves its input alone"); sym_reach("end");
}
