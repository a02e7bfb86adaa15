/* BIGNUM model: non-negative integers below 2^256 (overflow and negative results are reported as model limits). */
#include "verif.h"
typedef unsigned _BitInt(256) W; typedef unsigned _BitInt(512) W2;
typedef struct bignum_st { W v; int neg; } BIGNUM; typedef struct bignum_ctx { int depth; BIGNUM *tmp[32]; int mark[8]; int n; } BN_CTX;
int sym_maxbits(const void *p, unsigned long n); /* engine: bits of an upper bound of the number at p */
#define BITS(b) sym_maxbits(&(b)->v, 32)
static void limit(int c) { sym_assert(c, "model limit: BIGNUM larger than 256 bits"); }
BIGNUM *BN_new(void) { BIGNUM *b = malloc(sizeof *b); b->v = 0; b->neg = 0; return b; }
void BN_free(BIGNUM *b) { if (b) free(b); } void BN_clear_free(BIGNUM *b) { BN_free(b); }
BN_CTX *BN_CTX_new(void) { BN_CTX *c = malloc(sizeof *c); c->n = 0; c->depth = 0; return c; }
void BN_CTX_start(BN_CTX *c) { c->mark[c->depth++] = c->n; }
BIGNUM *BN_CTX_get(BN_CTX *c) { return c->tmp[c->n++] = BN_new(); }
void BN_CTX_end(BN_CTX *c) { int m = c->mark[--c->depth]; while (c->n > m) BN_free(c->tmp[--c->n]); }
void BN_CTX_free(BN_CTX *c) { if (!c) return; while (c->n > 0) BN_free(c->tmp[--c->n]); free(c); }
int BN_set_word(BIGNUM *b, unsigned long w) { b->v = w; b->neg = 0; return 1; }
unsigned long BN_get_word(const BIGNUM *b) { return (b->v >> 64) != 0 ? ~0ul : (unsigned long)b->v; }
void BN_zero_ex(BIGNUM *b) { b->v = 0; b->neg = 0; }
int BN_is_zero(const BIGNUM *b) { return b->v == 0; }
BIGNUM *BN_copy(BIGNUM *a, const BIGNUM *b) { a->v = b->v; a->neg = b->neg; return a; }
BIGNUM *BN_dup(const BIGNUM *b) { BIGNUM *a = BN_new(); return BN_copy(a, b); }
BIGNUM *BN_bin2bn(const unsigned char *s, int n, BIGNUM *r) { int i; W v = 0; if (!r) r = BN_new(); for (i = 0; i < n; i++) { limit((v >> 248) == 0); v = (v << 8) | (W)s[i]; } r->v = v; r->neg = 0; return r; }
int sym_bnbytes(const void *p, unsigned long n); /* engine: length in bytes without leading zeros */
int BN_num_bytes_(W v) { return sym_bnbytes(&v, 32); }
int BN_num_bits(const BIGNUM *b) { int n = 0, i; for (i = 0; i < 256; i++) n = ((b->v >> i) & 1) ? i + 1 : n; return n; }
int sym_bn2bin(const void *v, unsigned long n, unsigned char *to); /* engine: big-endian bytes without leading zeros */
int BN_bn2bin(const BIGNUM *b, unsigned char *to) { return sym_bn2bin(&b->v, 32, to); }
int BN_bn2binpad(const BIGNUM *b, unsigned char *to, int len) { int i; if (len < 0 || (BITS(b) > 8 * len && BN_num_bytes_(b->v) > len)) return -1; for (i = 0; i < len; i++) to[i] = len - 1 - i < 32 ? (unsigned char)(b->v >> (8 * (len - 1 - i))) : 0; return len; }
static int nn(const BIGNUM *a) { sym_assert(!a->neg, "model limit: negative BIGNUM"); return 1; }
int BN_add(BIGNUM *r, const BIGNUM *a, const BIGNUM *b) { nn(a); nn(b); limit(BITS(a) < 256 && BITS(b) < 256); r->v = a->v + b->v; r->neg = 0; return 1; }
int BN_add_word(BIGNUM *r, unsigned long w) { limit(BITS(r) < 256); r->v = r->v + (W)w; return 1; }
int BN_mul_word(BIGNUM *r, unsigned long w) { limit(BITS(r) <= 192); r->v = r->v * (W)w; return 1; }
unsigned long BN_div_word(BIGNUM *r, unsigned long w) { W q = r->v / (W)w, m = r->v % (W)w; r->v = q; return (unsigned long)m; }
unsigned long BN_mod_word(const BIGNUM *r, unsigned long w) { return (unsigned long)(r->v % (W)w); }
int BN_sub(BIGNUM *r, const BIGNUM *a, const BIGNUM *b) { nn(a); nn(b); sym_assert(a->v >= b->v, "model limit: negative BIGNUM difference"); r->v = a->v - b->v; return 1; }
int BN_cmp(const BIGNUM *a, const BIGNUM *b) { return a->v < b->v ? -1 : a->v > b->v ? 1 : 0; }
int BN_ucmp(const BIGNUM *a, const BIGNUM *b) { return BN_cmp(a, b); }
int BN_mul(BIGNUM *r, const BIGNUM *a, const BIGNUM *b, BN_CTX *c) { W x = a->v, y = b->v; limit(BITS(a) + BITS(b) <= 256); r->v = x * y; r->neg = 0; return 1; }
int BN_exp(BIGNUM *r, const BIGNUM *a, const BIGNUM *p, BN_CTX *c) { W e = p->v, b = a->v, x = 1; W i; for (i = 0; i < e; i++) { limit(((W)(x >> 192)) == 0 && (b >> 64) == 0); x = x * b; } r->v = x; r->neg = 0; return 1; }
int BN_div(BIGNUM *q, BIGNUM *m, const BIGNUM *a, const BIGNUM *d, BN_CTX *c) { W x = a->v, y = d->v; if (y == 0) return 0; W Q = x / y, R = x % y; if (q) { q->v = Q; q->neg = 0; } if (m) { m->v = R; m->neg = 0; } return 1; }
int BN_nnmod(BIGNUM *r, const BIGNUM *a, const BIGNUM *m, BN_CTX *c) { nn(a); r->v = a->v % m->v; r->neg = 0; return 1; }
int BN_mod_add(BIGNUM *r, const BIGNUM *a, const BIGNUM *b, const BIGNUM *m, BN_CTX *c) { if (m->v == 0) return 0; r->v = (W)(((W2)a->v + (W2)b->v) % (W2)m->v); r->neg = 0; return 1; }
int BN_mod_sub(BIGNUM *r, const BIGNUM *a, const BIGNUM *b, const BIGNUM *m, BN_CTX *c) { W M = m->v; if (M == 0) return 0; limit(BITS(m) < 256 && BITS(b) < 256); r->v = (W)(((W2)a->v + (W2)(M - 1) * (W2)b->v) % (W2)M); r->neg = 0; return 1; } /* a - b = a + (M-1) b mod M */
int BN_mod_mul(BIGNUM *r, const BIGNUM *a, const BIGNUM *b, const BIGNUM *m, BN_CTX *c) { r->v = (W)(((W2)a->v * (W2)b->v) % (W2)m->v); return 1; }
int BN_lshift(BIGNUM *r, const BIGNUM *a, int n) { r->v = a->v << n; return 1; } int BN_rshift(BIGNUM *r, const BIGNUM *a, int n) { r->v = a->v >> n; return 1; }
