/* Reference implementations written from the standards (FIPS-197, GB/T 32905/32907, SP 800-38A/B/D/G); independent of /repo. */
#ifndef VERIF_REF_H
#define VERIF_REF_H
#include <stdint.h>
#include <stddef.h>
#include <string.h>
/* ---------- AES ---------- */
static unsigned char ref_sb[256], ref_isb[256]; static int ref_aes_ready;
static unsigned char ref_gm(unsigned char a, unsigned char b) { unsigned char r = 0; int i; for (i = 0; i < 8; i++) { if (b & 1) r ^= a; a = (unsigned char)((a << 1) ^ ((a & 0x80) ? 0x1b : 0)); b >>= 1; } return r; }
static unsigned char ref_x2(unsigned char a) { return (unsigned char)((a << 1) ^ ((a >> 7) * 0x1b)); }
static void ref_aes_tables(void) {
  int i, j; if (ref_aes_ready) return;
  for (i = 0; i < 256; i++) { unsigned char inv = 0, s; if (i) { unsigned char p = (unsigned char)i, acc = 1; for (j = 0; j < 7; j++) { p = ref_gm(p, p); acc = ref_gm(acc, p); } inv = acc; }
    s = inv; s = (unsigned char)(inv ^ (unsigned char)((inv << 1) | (inv >> 7)) ^ (unsigned char)((inv << 2) | (inv >> 6)) ^ (unsigned char)((inv << 3) | (inv >> 5)) ^ (unsigned char)((inv << 4) | (inv >> 4)) ^ 0x63);
    ref_sb[i] = s; ref_isb[s] = (unsigned char)i; }
  ref_aes_ready = 1;
}
static void ref_aes_expand(const unsigned char *k, int nk, unsigned char *w) { /* w: 16*(nk+7) bytes */
  int i, j, tot = 4 * (nk + 7); unsigned char rc = 1; ref_aes_tables(); memcpy(w, k, 4 * nk);
  for (i = nk; i < tot; i++) { unsigned char t[4]; memcpy(t, w + 4 * (i - 1), 4);
    if (i % nk == 0) { unsigned char c = t[0]; t[0] = ref_sb[t[1]] ^ rc; t[1] = ref_sb[t[2]]; t[2] = ref_sb[t[3]]; t[3] = ref_sb[c]; rc = ref_x2(rc); }
    else if (nk > 6 && i % nk == 4) for (j = 0; j < 4; j++) t[j] = ref_sb[t[j]];
    for (j = 0; j < 4; j++) w[4 * i + j] = w[4 * (i - nk) + j] ^ t[j]; }
}
static void ref_aes_enc_rk(const unsigned char *w, int rounds, const unsigned char *in, unsigned char *out) {
  unsigned char s[16], t[16]; int r, i, c; ref_aes_tables();
  for (i = 0; i < 16; i++) s[i] = in[i] ^ w[i];
  for (r = 1; r <= rounds; r++) {
    for (c = 0; c < 4; c++) for (i = 0; i < 4; i++) t[4 * c + i] = ref_sb[s[4 * ((c + i) & 3) + i]];
    if (r < rounds) for (c = 0; c < 4; c++) { unsigned char *p = t + 4 * c, a = p[0], b = p[1], d = p[2], e = p[3], x = a ^ b ^ d ^ e; p[0] = a ^ x ^ ref_x2(a ^ b); p[1] = b ^ x ^ ref_x2(b ^ d); p[2] = d ^ x ^ ref_x2(d ^ e); p[3] = e ^ x ^ ref_x2(e ^ a); }
    for (i = 0; i < 16; i++) s[i] = t[i] ^ w[16 * r + i];
  }
  memcpy(out, s, 16);
}
static void ref_aes_dec_rk(const unsigned char *w, int rounds, const unsigned char *in, unsigned char *out) {
  unsigned char s[16], t[16]; int r, i, c; ref_aes_tables();
  for (i = 0; i < 16; i++) s[i] = in[i] ^ w[16 * rounds + i];
  for (r = rounds - 1; r >= 0; r--) {
    for (c = 0; c < 4; c++) for (i = 0; i < 4; i++) t[4 * ((c + i) & 3) + i] = ref_isb[s[4 * c + i]];
    for (i = 0; i < 16; i++) t[i] ^= w[16 * r + i];
    if (r) for (c = 0; c < 4; c++) { unsigned char *p = t + 4 * c, q[4]; int j; for (j = 0; j < 4; j++) { unsigned char v[4]; int k; for (k = 0; k < 4; k++) v[k] = p[(j + k) & 3]; unsigned char a2 = ref_x2(v[0]), a4 = ref_x2(a2), a8 = ref_x2(a4), b2 = ref_x2(v[1]), b8 = ref_x2(ref_x2(b2)), c4 = ref_x2(ref_x2(v[2])), c8 = ref_x2(c4), d8 = ref_x2(ref_x2(ref_x2(v[3]))); q[j] = a8 ^ a4 ^ a2 ^ b8 ^ b2 ^ v[1] ^ c8 ^ c4 ^ v[2] ^ d8 ^ v[3]; } memcpy(p, q, 4); }
    memcpy(s, t, 16);
  }
  memcpy(out, s, 16);
}
static void ref_aes128(const unsigned char key[16], const unsigned char in[16], unsigned char out[16]) { unsigned char w[176]; ref_aes_expand(key, 4, w); ref_aes_enc_rk(w, 10, in, out); }
/* ---------- SM4 ---------- */
static const unsigned char ref_sm4s[256] = {
0xd6,0x90,0xe9,0xfe,0xcc,0xe1,0x3d,0xb7,0x16,0xb6,0x14,0xc2,0x28,0xfb,0x2c,0x05,0x2b,0x67,0x9a,0x76,0x2a,0xbe,0x04,0xc3,0xaa,0x44,0x13,0x26,0x49,0x86,0x06,0x99,
0x9c,0x42,0x50,0xf4,0x91,0xef,0x98,0x7a,0x33,0x54,0x0b,0x43,0xed,0xcf,0xac,0x62,0xe4,0xb3,0x1c,0xa9,0xc9,0x08,0xe8,0x95,0x80,0xdf,0x94,0xfa,0x75,0x8f,0x3f,0xa6,
0x47,0x07,0xa7,0xfc,0xf3,0x73,0x17,0xba,0x83,0x59,0x3c,0x19,0xe6,0x85,0x4f,0xa8,0x68,0x6b,0x81,0xb2,0x71,0x64,0xda,0x8b,0xf8,0xeb,0x0f,0x4b,0x70,0x56,0x9d,0x35,
0x1e,0x24,0x0e,0x5e,0x63,0x58,0xd1,0xa2,0x25,0x22,0x7c,0x3b,0x01,0x21,0x78,0x87,0xd4,0x00,0x46,0x57,0x9f,0xd3,0x27,0x52,0x4c,0x36,0x02,0xe7,0xa0,0xc4,0xc8,0x9e,
0xea,0xbf,0x8a,0xd2,0x40,0xc7,0x38,0xb5,0xa3,0xf7,0xf2,0xce,0xf9,0x61,0x15,0xa1,0xe0,0xae,0x5d,0xa4,0x9b,0x34,0x1a,0x55,0xad,0x93,0x32,0x30,0xf5,0x8c,0xb1,0xe3,
0x1d,0xf6,0xe2,0x2e,0x82,0x66,0xca,0x60,0xc0,0x29,0x23,0xab,0x0d,0x53,0x4e,0x6f,0xd5,0xdb,0x37,0x45,0xde,0xfd,0x8e,0x2f,0x03,0xff,0x6a,0x72,0x6d,0x6c,0x5b,0x51,
0x8d,0x1b,0xaf,0x92,0xbb,0xdd,0xbc,0x7f,0x11,0xd9,0x5c,0x41,0x1f,0x10,0x5a,0xd8,0x0a,0xc1,0x31,0x88,0xa5,0xcd,0x7b,0xbd,0x2d,0x74,0xd0,0x12,0xb8,0xe5,0xb4,0xb0,
0x89,0x69,0x97,0x4a,0x0c,0x96,0x77,0x7e,0x65,0xb9,0xf1,0x09,0xc5,0x6e,0xc6,0x84,0x18,0xf0,0x7d,0xec,0x3a,0xdc,0x4d,0x20,0x79,0xee,0x5f,0x3e,0xd7,0xcb,0x39,0x48};
static uint32_t ref_rl(uint32_t x, int n) { n &= 31; return n ? (x << n) | (x >> (32 - n)) : x; }
static uint32_t ref_be32(const unsigned char *p) { return (uint32_t)p[0] << 24 | (uint32_t)p[1] << 16 | (uint32_t)p[2] << 8 | p[3]; }
static void ref_pbe32(unsigned char *p, uint32_t v) { p[0] = v >> 24; p[1] = v >> 16; p[2] = v >> 8; p[3] = v; }
static uint32_t ref_sm4tau(uint32_t x) { return (uint32_t)ref_sm4s[x >> 24] << 24 | (uint32_t)ref_sm4s[x >> 16 & 255] << 16 | (uint32_t)ref_sm4s[x >> 8 & 255] << 8 | ref_sm4s[x & 255]; }
static void ref_sm4_rk(const unsigned char key[16], uint32_t rk[32]) { static const uint32_t FK[4] = {0xa3b1bac6, 0x56aa3350, 0x677d9197, 0xb27022dc}; uint32_t k[36]; int i, j; for (i = 0; i < 4; i++) k[i] = ref_be32(key + 4 * i) ^ FK[i]; for (i = 0; i < 32; i++) { uint32_t ck = 0, t; for (j = 0; j < 4; j++) ck = ck << 8 | (uint32_t)((4 * i + j) * 7 & 255); t = ref_sm4tau(k[i + 1] ^ k[i + 2] ^ k[i + 3] ^ ck); k[i + 4] = k[i] ^ t ^ ref_rl(t, 13) ^ ref_rl(t, 23); rk[i] = k[i + 4]; } }
static void ref_sm4_crypt(const unsigned char key[16], const unsigned char in[16], unsigned char out[16], int dec) { uint32_t rk[32], x[36]; int i; ref_sm4_rk(key, rk); for (i = 0; i < 4; i++) x[i] = ref_be32(in + 4 * i); for (i = 0; i < 32; i++) { uint32_t t = ref_sm4tau(x[i + 1] ^ x[i + 2] ^ x[i + 3] ^ rk[dec ? 31 - i : i]); x[i + 4] = x[i] ^ t ^ ref_rl(t, 2) ^ ref_rl(t, 10) ^ ref_rl(t, 18) ^ ref_rl(t, 24); } for (i = 0; i < 4; i++) ref_pbe32(out + 4 * i, x[35 - i]); }
static void ref_sm4(const unsigned char key[16], const unsigned char in[16], unsigned char out[16]) { ref_sm4_crypt(key, in, out, 0); }
/* ---------- SM3 ---------- */
static void ref_sm3_block(uint32_t V[8], const unsigned char *p) {
  uint32_t w[68], a = V[0], b = V[1], c = V[2], d = V[3], e = V[4], f = V[5], g = V[6], h = V[7]; int j;
  for (j = 0; j < 16; j++) w[j] = ref_be32(p + 4 * j);
  for (; j < 68; j++) { uint32_t x = w[j - 16] ^ w[j - 9] ^ ref_rl(w[j - 3], 15); w[j] = x ^ ref_rl(x, 15) ^ ref_rl(x, 23) ^ ref_rl(w[j - 13], 7) ^ w[j - 6]; }
  for (j = 0; j < 64; j++) { uint32_t T = j < 16 ? 0x79cc4519u : 0x7a879d8au, ss1 = ref_rl(ref_rl(a, 12) + e + ref_rl(T, j % 32), 7), ss2 = ss1 ^ ref_rl(a, 12), ff = j < 16 ? a ^ b ^ c : (a & b) | (a & c) | (b & c), gg = j < 16 ? e ^ f ^ g : (e & f) | (~e & g), t1 = ff + d + ss2 + (w[j] ^ w[j + 4]), t2 = gg + h + ss1 + w[j];
    d = c; c = ref_rl(b, 9); b = a; a = t1; h = g; g = ref_rl(f, 19); f = e; e = t2 ^ ref_rl(t2, 9) ^ ref_rl(t2, 17); }
  V[0] ^= a; V[1] ^= b; V[2] ^= c; V[3] ^= d; V[4] ^= e; V[5] ^= f; V[6] ^= g; V[7] ^= h;
}
static void ref_sm3(const unsigned char *m, size_t n, unsigned char out[32]) {
  uint32_t V[8] = {0x7380166f, 0x4914b2b9, 0x172442d7, 0xda8a0600, 0xa96f30bc, 0x163138aa, 0xe38dee4d, 0xb0fb0e4e}; unsigned char b[128]; size_t full = n / 64, r = n % 64, i, tot; memset(b, 0, sizeof b);
  for (i = 0; i < full; i++) ref_sm3_block(V, m + 64 * i);
  for (i = 0; i < r; i++) b[i] = m[64 * full + i]; b[r] = 0x80; tot = r < 56 ? 64 : 128; ref_pbe32(b + tot - 4, (uint32_t)(n * 8)); ref_pbe32(b + tot - 8, (uint32_t)((uint64_t)n >> 29));
  ref_sm3_block(V, b); if (tot == 128) ref_sm3_block(V, b + 64); for (i = 0; i < 8; i++) ref_pbe32(out + 4 * i, V[i]);
}
/* ---------- GCM (SP 800-38D), over any block function ---------- */
typedef int (*ref_blk)(const unsigned char *in, unsigned char *out, const void *key);
static void ref_gfmul(const unsigned char x[16], const unsigned char y[16], unsigned char z[16]) { unsigned char v[16], r[16]; int i, j; memcpy(v, y, 16); memset(r, 0, 16); for (i = 0; i < 128; i++) { unsigned char m = (unsigned char)-(x[i / 8] >> (7 - i % 8) & 1), lsb = (unsigned char)-(v[15] & 1); for (j = 0; j < 16; j++) r[j] ^= v[j] & m; for (j = 15; j > 0; j--) v[j] = (unsigned char)(v[j] >> 1 | v[j - 1] << 7); v[0] = (unsigned char)(v[0] >> 1) ^ (lsb & 0xe1); } memcpy(z, r, 16); }
static void ref_ghash_upd(unsigned char y[16], const unsigned char h[16], const unsigned char *d, size_t n) { size_t i, j; for (i = 0; i < n; i += 16) { for (j = 0; j < 16 && i + j < n; j++) y[j] ^= d[i + j]; ref_gfmul(y, h, y); } }
static void ref_ghash_len(unsigned char y[16], const unsigned char h[16], uint64_t a, uint64_t c) { unsigned char b[16]; a *= 8; c *= 8; ref_pbe32(b, a >> 32); ref_pbe32(b + 4, (uint32_t)a); ref_pbe32(b + 8, c >> 32); ref_pbe32(b + 12, (uint32_t)c); ref_ghash_upd(y, h, b, 16); }
static void ref_gcm_j0(const unsigned char h[16], const unsigned char *iv, size_t n, unsigned char j0[16]) { memset(j0, 0, 16); if (n == 12) { memcpy(j0, iv, 12); j0[15] = 1; } else { ref_ghash_upd(j0, h, iv, n); ref_ghash_len(j0, h, 0, n); } }
static void ref_inc32(unsigned char c[16]) { ref_pbe32(c + 12, ref_be32(c + 12) + 1); }
/* enc: ct from pt; dec: pt from ct; the tag is over the ciphertext */
static void ref_gcm(ref_blk E, const void *key, const unsigned char *iv, size_t ivn, const unsigned char *aad, size_t an, const unsigned char *in, size_t n, unsigned char *out, unsigned char tag[16], int dec) {
  unsigned char h[16], z[16], j0[16], c[16], ks[16], y[16]; size_t i, j; memset(z, 0, 16); E(z, h, key); ref_gcm_j0(h, iv, ivn, j0); memcpy(c, j0, 16); memset(y, 0, 16); ref_ghash_upd(y, h, aad, an);
  if (dec) ref_ghash_upd(y, h, in, n);
  for (i = 0; i < n; i += 16) { ref_inc32(c); E(c, ks, key); for (j = 0; j < 16 && i + j < n; j++) out[i + j] = in[i + j] ^ ks[j]; }
  if (!dec) ref_ghash_upd(y, h, out, n);
  ref_ghash_len(y, h, an, n); E(j0, ks, key); for (i = 0; i < 16; i++) tag[i] = y[i] ^ ks[i];
}
/* ---------- CBC ---------- */
static void ref_cbc_enc(ref_blk E, const void *key, const unsigned char iv[16], const unsigned char *in, size_t n, unsigned char *out) { unsigned char p[16], b[16]; size_t i, j; memcpy(p, iv, 16); for (i = 0; i + 16 <= n; i += 16) { for (j = 0; j < 16; j++) b[j] = in[i + j] ^ p[j]; E(b, p, key); memcpy(out + i, p, 16); } }
/* ---------- FF1 and FF3 (SP 800-38G) over any block function; digits are numbers below the radix, halves below 2^64 ---------- */
typedef unsigned __int128 ref_u128;
static int ref_nbytes(unsigned radix, int n) { ref_u128 q = 1, t; int i, b = 0; for (i = 0; i < n; i++) q *= radix; for (t = q - 1; t; t >>= 1) b++; return (b + 7) / 8; } /* bytes of radix^n - 1 = ceil(ceil(n log2 radix)/8) */
static ref_u128 ref_mod(const unsigned char *S, int d, ref_u128 q) { ref_u128 y = 0; int i; for (i = 0; i < d; i++) y = y << 8 | S[i]; return y % q; } /* d <= 16 */
static ref_u128 ref_pow(unsigned radix, int n) { ref_u128 q = 1; while (n-- > 0) q *= radix; return q; }
static ref_u128 ref_num(const unsigned char *x, unsigned radix, int n) { ref_u128 r = 0; int i; for (i = 0; i < n; i++) r = r * radix + x[i]; return r; }
static void ref_str(ref_u128 c, unsigned radix, int n, unsigned char *x) { int i; for (i = n - 1; i >= 0; i--) { x[i] = (unsigned char)(c % radix); c /= radix; } }
static void ref_ff1(ref_blk E, const void *key, unsigned radix, const unsigned char *tw, int tn, const unsigned char *in, int n, unsigned char *out, int dec) {
  int u = n / 2, v = n - u, b = ref_nbytes(radix, v), d = 4 * ((b + 3) / 4) + 4, pad = (16 - (tn + b + 1) % 16) % 16, qn = tn + pad + 1 + b, r, i, j; unsigned char P[16] = {1, 2, 1, 0, 0, (unsigned char)radix, 10, (unsigned char)u, 0, 0, 0, (unsigned char)n, 0, 0, (unsigned char)(tn >> 8), (unsigned char)tn}, Q[160], R[16], T[16]; ref_u128 A, B, t, x; 
  A = ref_num(in, radix, u); B = ref_num(in + u, radix, v);
  for (r = 0; r < 10; r++) { int i2 = dec ? 9 - r : r, m = i2 % 2 ? v : u; ref_u128 q = ref_pow(radix, m), F = dec ? A : B, G = dec ? B : A, y;
    memset(Q, 0, sizeof Q); memcpy(Q, tw, tn); Q[tn + pad] = (unsigned char)i2; for (i = 0; i < b; i++) Q[qn - 1 - i] = (unsigned char)(F >> (8 * i));
    E(P, R, key); for (i = 0; i < qn; i += 16) { for (j = 0; j < 16; j++) T[j] = R[j] ^ Q[i + j]; E(T, R, key); }
    y = ref_mod(R, d, q); x = dec ? (G + (q - 1) * y) % q : (G + y) % q; t = F; if (dec) { B = t; A = x; } else { A = t; B = x; } }
  ref_str(A, radix, u, out); ref_str(B, radix, v, out + u);
}
static void ref_ff3(ref_blk E, const void *key, unsigned radix, const unsigned char tw[8], const unsigned char *in, int n, unsigned char *out, int dec) {
  int u = (n + 1) / 2, v = n - u, r, i; unsigned char X[64], P[16], S[16]; ref_u128 A, B, t, x;
  for (i = 0; i < u; i++) X[i] = in[u - 1 - i]; for (i = 0; i < v; i++) X[u + i] = in[n - 1 - i]; A = ref_num(X, radix, u); B = ref_num(X + u, radix, v);
  for (r = 0; r < 8; r++) { int i2 = dec ? 7 - r : r, m = i2 % 2 ? v : u; ref_u128 q = ref_pow(radix, m), F = dec ? A : B, G = dec ? B : A, y;
    for (i = 0; i < 4; i++) P[15 - i] = tw[(i2 % 2 ? 0 : 4) + i]; P[12] ^= (unsigned char)i2; for (i = 0; i < 12; i++) P[i] = (unsigned char)(F >> (8 * i)); /* already byte-reversed */
    E(P, S, key); { unsigned char Z[16]; for (i = 0; i < 16; i++) Z[i] = S[15 - i]; y = ref_mod(Z, 16, q); } x = dec ? (G + (q - 1) * y) % q : (G + y) % q; t = F; if (dec) { B = t; A = x; } else { A = t; B = x; } }
  ref_str(A, radix, u, X); ref_str(B, radix, v, X + u); for (i = 0; i < u; i++) out[u - 1 - i] = X[i]; for (i = 0; i < v; i++) out[n - 1 - i] = X[u + i];
}
#endif
