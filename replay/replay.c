/* Native implementation of the harness API: replays a counterexample against the real build. */
#define _GNU_SOURCE
#include "verif.h"
#include <unistd.h>
typedef struct { char kind; char *name; unsigned char *d; size_t n; uint64_t v; } It; static It *its; static int nit, cur; 
typedef struct { int id; unsigned char *in, *out; size_t n, m; } Uf; static Uf *ufs; static int nuf;
static size_t unhex(const char *s, unsigned char **o) { size_t n = strlen(s) / 2, i; *o = malloc(n + 1); for (i = 0; i < n; i++) { unsigned x; sscanf(s + 2 * i, "%2x", &x); (*o)[i] = x; } return n; }
static struct { char n[64]; long v; } prm[64]; static int nprm;
static void loadall(void) {
  static int done; if (done) return; done = 1; const char *fn = getenv("VERIF_REPLAY"); if (!fn) return; FILE *f = fopen(fn, "r"); char *l = 0; size_t c = 0; its = calloc(1 << 18, sizeof *its); ufs = calloc(65536, sizeof *ufs);
  while (getline(&l, &c, f) > 0) { char *a = strtok(l, " \n"), *b = strtok(0, " \n"), *d = strtok(0, " \n"); if (!a) continue;
    if (*a == 'V' || *a == 'C') { It *i = &its[nit++]; i->kind = *a; i->name = strdup(b); if (*a == 'C') i->v = strtoull(d, 0, 16); else i->n = d ? unhex(d, &i->d) : 0; }
    else if (*a == 'U') { Uf *u = &ufs[nuf++]; u->id = atoi(b); u->n = unhex(d, &u->in); u->m = unhex(strtok(0, " \n"), &u->out); }
    else if (*a == 'P') { strncpy(prm[nprm].n, b, 63); prm[nprm++].v = strtol(d, 0, 0); } }
  fclose(f);
}
static It *next(char k, const char *name) { loadall(); if (cur >= nit) { printf("REPLAY-DIVERGED no more values at %s\n", name); exit(43); } It *i = &its[cur++]; if (i->kind != k) { printf("REPLAY-DIVERGED kind at %s\n", name); exit(43); } return i; }
void sym_bytes(void *p, size_t n, const char *name) { if (!n) return; It *i = next('V', name); if (i->n != n) { printf("REPLAY-DIVERGED size at %s\n", name); exit(43); } memcpy(p, i->d, n); }
uint64_t sym_var(uint64_t lo, uint64_t hi, const char *name) { It *i = next('V', name); uint64_t v = 0; memcpy(&v, i->d, i->n < 8 ? i->n : 8); return v; }
uint64_t sym_range(uint64_t lo, uint64_t hi, const char *name) { return next('C', name)->v; }
void sym_assume(int c) { if (!c) { printf("REPLAY-ASSUME-FALSE\n"); exit(0); } }
void sym_assert(int c, const char *msg) { if (!c) { printf("REPLAY-VIOLATION %s\n", msg); fflush(stdout); _exit(42); } }
void sym_equal(const void *a, const void *b, size_t n, const char *msg) { if (n && memcmp(a, b, n)) { printf("REPLAY-VIOLATION %s\n", msg); fflush(stdout); _exit(42); } }
static uint64_t mix(uint64_t x) { x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ull; x ^= x >> 27; x *= 0x94d049bb133111ebull; x ^= x >> 31; return x; }
static uint64_t h64(int id, const unsigned char *in, size_t n, uint64_t ctr) { uint64_t h = 0x243f6a8885a308d3ull ^ ((uint64_t)id * 0x9e3779b97f4a7c15ull) ^ mix(ctr + 0x1234567); size_t i; for (i = 0; i < n; i++) h = mix(h ^ in[i]) + 0x9e3779b97f4a7c15ull * (i + 1); return mix(h); }
static void dflt(int id, const unsigned char *in, size_t n, unsigned char *out, size_t m) {
  if (id & 0x1000) { int key = id & ~0x2000, r; uint64_t L, R, t; memcpy(&L, in, 8); memcpy(&R, in + 8, 8); if (!(id & 0x2000)) for (r = 0; r < 4; r++) { t = L ^ h64(key, (unsigned char *)&R, 8, r); L = R; R = t; } else for (r = 3; r >= 0; r--) { t = R ^ h64(key, (unsigned char *)&L, 8, r); R = L; L = t; } memcpy(out, &L, 8); memcpy(out + 8, &R, 8); return; }
  size_t i; for (i = 0; i < (m + 7) / 8; i++) { uint64_t v = h64(id, in, n, i); memcpy(out + 8 * i, &v, m - 8 * i < 8 ? m - 8 * i : 8); }
}
static void ufapp(int id, const unsigned char *in, size_t n, unsigned char *out, size_t m) { int i; unsigned char t[4096]; memcpy(t, in, n); loadall(); for (i = 0; i < nuf; i++) if (ufs[i].id == id && ufs[i].n == n && !memcmp(ufs[i].in, t, n)) { memcpy(out, ufs[i].out, m); return; }
  if (id & 0x1000) for (i = 0; i < nuf; i++) if (ufs[i].id == (id ^ 0x2000) && !memcmp(ufs[i].out, t, 16)) { memcpy(out, ufs[i].in, 16); return; }
  dflt(id, t, n, out, m); }
void sym_uf(int id, const void *in, size_t n, void *out, size_t m) { ufapp(id & 0xfff, in, n, out, m); }
void sym_perm(int id, int inv, const void *in, void *out) { ufapp((id & 0xfff) | 0x1000 | (inv ? 0x2000 : 0), in, 16, out, 16); }
void sym_expand(const void *p, size_t n) {}
void sym_perm_def(int id, const void *in, const void *out) { loadall(); if (!ufs) ufs = calloc(65536, sizeof *ufs); Uf *u = &ufs[nuf++]; u->id = (id & 0xfff) | 0x1000; u->n = u->m = 16; u->in = malloc(16); u->out = malloc(16); memcpy(u->in, in, 16); memcpy(u->out, out, 16); }
void sym_reach(const char *l) {} void sym_merge(int on) {} void sym_trace(const char *s) {} void sym_canon(int on) {} int sym_native(void) { return 1; }
long sym_param(const char *name, long d) { int i; loadall(); for (i = 0; i < nprm; i++) if (!strcmp(prm[i].n, name)) return prm[i].v; return d; }
void sym_end(void) { fflush(stdout); _exit(0); }
#ifdef VERIF_KMPRT
void sym_threads_kmp(int); void sym_threads(int n) { sym_threads_kmp(n); }
#elif defined _OPENMP
extern void omp_set_num_threads(int); void sym_threads(int n) { omp_set_num_threads(n & 255); }
#else
void sym_threads(int n) {}
#endif
static int flt[8]; void vfs_fault(int kind, int after) { flt[kind] = after + 1; } static int fault(int k) { if (flt[k]) { flt[k]--; if (!flt[k]) return 1; } return 0; }
FILE *__real_fopen(const char *, const char *); FILE *__wrap_fopen(const char *n, const char *m) { return fault(m[0] == 'r' ? 1 : 2) ? 0 : __real_fopen(n, m); }
static FILE *errf;
size_t __real_fread(void *, size_t, size_t, FILE *); size_t __wrap_fread(void *p, size_t s, size_t n, FILE *f) { if (s * n == 0) return 0; if (fault(3)) { errf = f; return 0; } return __real_fread(p, s, n, f); }
int __real_ferror(FILE *); int __wrap_ferror(FILE *f) { return errf == f ? 1 : __real_ferror(f); }
size_t __real_fwrite(const void *, size_t, size_t, FILE *); size_t __wrap_fwrite(const void *p, size_t s, size_t n, FILE *f) { if (s * n == 0) return 0; if (fault(4)) { errf = f; return 0; } return __real_fwrite(p, s, n, f); }
int __real_fclose(FILE *); int __wrap_fclose(FILE *f) { if (!f) { printf("REPLAY-VIOLATION fclose of a NULL stream\n"); fflush(stdout); _exit(42); } int r = __real_fclose(f); return fault(6) ? -1 : r; }
int __real_fflush(FILE *); int __wrap_fflush(FILE *f) { int r = __real_fflush(f); return fault(7) ? -1 : r; }
static unsigned long rs = 1; void __wrap_srand(unsigned s) { rs = s; } int __wrap_rand(void) { rs = rs * 6364136223846793005ul + 1442695040888963407ul; return (int)((rs >> 33) & 0x7fffffff); }
long __wrap_time(long *t) { long v = 0x5f5e1000 + sym_param("time", 0); if (t) *t = v; return v; }
static int live; void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
void *__wrap_malloc(size_t n) { live++; return __real_malloc(n); } void *__wrap_calloc(size_t a, size_t b) { live++; return __real_calloc(a, b); } void __wrap_free(void *p) { if (p) live--; __real_free(p); } void *__wrap_realloc(void *p, size_t n) { if (!p) live++; return __real_realloc(p, n); }
int sym_heap_live(void) { return live; }
void vfs_put(const char *name, const void *p, size_t n) { FILE *f = __real_fopen(name, "wb"); if (n) __real_fwrite(p, 1, n, f); __real_fclose(f); }
long vfs_size(const char *name) { FILE *f = __real_fopen(name, "rb"); long n; if (!f) return -1; fseek(f, 0, SEEK_END); n = ftell(f); __real_fclose(f); return n; }
void vfs_get(const char *name, void *p, size_t n) { FILE *f = __real_fopen(name, "rb"); if (f) { size_t k = __real_fread(p, 1, n, f); (void)k; __real_fclose(f); } }
void harness(void);
#ifndef HARNESS
#define HARNESS harness
#endif
void HARNESS(void);
int main(void) { setvbuf(stdout, 0, _IONBF, 0); loadall(); HARNESS(); printf("REPLAY-OK\n"); fflush(stdout); _exit(0); }
