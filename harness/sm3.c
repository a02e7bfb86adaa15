/* SM3: digest equals the standard's for every message; independent of how the message is split across update calls. */
#include "verif.h"
#include "ref.h"
#include <wbcrypto/sm3.h>
/* one-shot digest of every message of length lo..hi */
void h_oneshot(void) {
  unsigned char m[300], d[32], e[32]; size_t n = sym_range(sym_param("lo", 0), sym_param("hi", 64), "len");
  unsigned char *msg = malloc(n ? n : 1); sym_bytes(m, n, "msg"); memcpy(msg, m, n); memset(d, 0x5a, 32);
  int r = WBCRYPTO_sm3(msg, n, d); ref_sm3(m, n, e);
  sym_equal(d, e, 32, "one-shot digest equals SM3"); sym_assert(r == 1, "one-shot digest reports success"); sym_reach("end");
}
/* every split of a message into up to three update calls */
void h_stream(void) {
  unsigned char m[300], d[32], e[32]; WBCRYPTO_sm3_context c; int r = 1; size_t n = sym_param("n", 129), a, b;
  sym_bytes(m, n, "msg"); memset(&c, 0xa5, sizeof c); a = sym_range(sym_param("alo", 0), sym_param("ahi", n), "cut1"); b = sym_range(a, n, "cut2");
  unsigned char *p1 = malloc(a ? a : 1), *p2 = malloc(b - a ? b - a : 1), *p3 = malloc(n - b ? n - b : 1); memcpy(p1, m, a); memcpy(p2, m + a, b - a); memcpy(p3, m + b, n - b);
  r &= WBCRYPTO_sm3_init(&c); r &= WBCRYPTO_sm3_update(&c, p1, a); r &= WBCRYPTO_sm3_update(&c, p2, b - a); r &= WBCRYPTO_sm3_update(&c, p3, n - b); r &= WBCRYPTO_sm3_final(&c, d);
  ref_sm3(m, n, e); sym_equal(d, e, 32, "streamed digest equals SM3"); sym_assert(r == 1, "streaming calls report success");
  /* the context can be reused after init */
  sym_reach("end");
}
/* a context used for a second message gives that message's digest */
void h_reuse(void) {
  unsigned char m[80], d[32], e[32]; WBCRYPTO_sm3_context c; size_t n = sym_range(sym_param("lo", 0), sym_param("hi", 70), "len1"), k = 9; sym_bytes(m, 80, "msg");
  WBCRYPTO_sm3_init(&c); WBCRYPTO_sm3_update(&c, m, n); if (sym_range(0, 1, "finished")) WBCRYPTO_sm3_final(&c, d); WBCRYPTO_sm3_init(&c); WBCRYPTO_sm3_update(&c, m + 70, k); WBCRYPTO_sm3_final(&c, d);
  ref_sm3(m + 70, k, e); sym_equal(d, e, 32, "digest after context reuse equals SM3"); sym_reach("end");
}
/* the length field: a context that has already absorbed any number of whole blocks (any chaining value) */
void h_length(void) {
  WBCRYPTO_sm3_context c; uint32_t V[8]; unsigned char t[80], d[32], e[32], b[128]; size_t k = sym_range(sym_param("lo", 0), sym_param("hi", 70), "tail"), i, tot; uint64_t blocks = sym_var(0, (1ull << 55) - 2, "blocks");
  sym_merge(0); WBCRYPTO_sm3_init(&c); sym_bytes(V, 32, "chain"); sym_bytes(t, 70, "tail");
  c.A = V[0]; c.B = V[1]; c.C = V[2]; c.D = V[3]; c.E = V[4]; c.F = V[5]; c.G = V[6]; c.H = V[7]; c.Nl = (uint32_t)(blocks << 9); c.Nh = (uint32_t)(blocks >> 23);
  WBCRYPTO_sm3_update(&c, t, k); WBCRYPTO_sm3_final(&c, d);
  memset(b, 0, sizeof b); memcpy(b, t, k); 
  size_t off = 0; if (k >= 64) { ref_sm3_block(V, b); off = 64; }
  memset(b, 0, sizeof b); for (i = off; i < k; i++) b[i - off] = t[i]; b[k - off] = 0x80; tot = k - off < 56 ? 64 : 128; uint32_t nl = (uint32_t)(blocks << 9), nh = (uint32_t)(blocks >> 23), l = nl + (uint32_t)(k << 3); if (l < nl) { nh++; sym_reach("carry"); } ref_pbe32(b + tot - 4, l); ref_pbe32(b + tot - 8, nh);
  ref_sm3_block(V, b); if (tot == 128) ref_sm3_block(V, b + 64); for (i = 0; i < 8; i++) ref_pbe32(e + 4 * i, V[i]);
  sym_equal(d, e, 32, "digest of a long message encodes its length"); sym_reach("end");
}
