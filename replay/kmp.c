/* A small OpenMP runtime (the entry points clang emits) on pthreads: used to confirm counterexamples in parallel regions.
   VERIF_KMP=seq: threads take turns, one runs to its next barrier before the next one starts, in ascending or descending order;
   otherwise they run concurrently (ThreadSanitizer build). */
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#define MAXT 64
static int want = 2, rev; static __thread int tid = 0, nth = 1, inpar = 0;
static int seq = -1; static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER, crit = PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t cv = PTHREAD_COND_INITIALIZER;
static int N, st[MAXT], turn; static pthread_barrier_t bar;
void sym_threads_kmp(int n) { want = n & 255; rev = n >> 8 & 1; }
static int isseq(void) { if (seq < 0) { const char *e = getenv("VERIF_KMP"); seq = e && !strcmp(e, "seq"); } return seq; }
static void pick(void) { int p, q; for (p = 0; p < 2; p++) { for (q = 0; q < N; q++) { int t = rev ? N - 1 - q : q; if (st[t] == 0) { turn = t; pthread_cond_broadcast(&cv); return; } } for (q = 0; q < N; q++) if (st[q] == 1) st[q] = 0; } turn = -1; pthread_cond_broadcast(&cv); }
static void await(void) { while (turn != tid) pthread_cond_wait(&cv, &mu); }
typedef void (*micro)(int32_t *, int32_t *, ...); static micro fn; static int ac; static void *av[32];
static void call(void) { int32_t g = tid, b = 0; void **a = av; 
  switch ((ac + 3) / 4) { default: fn(&g, &b, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14], a[15], a[16], a[17], a[18], a[19]); } }
static void *body(void *p) { tid = (int)(intptr_t)p; nth = N; inpar = 1; if (isseq()) { pthread_mutex_lock(&mu); await(); pthread_mutex_unlock(&mu); } call(); if (isseq()) { pthread_mutex_lock(&mu); st[tid] = 2; pick(); pthread_mutex_unlock(&mu); } return 0; }
void __kmpc_fork_call(void *loc, int32_t argc, micro f, ...) {
  va_list l; int i; pthread_t th[MAXT]; va_start(l, f); for (i = 0; i < argc && i < 32; i++) av[i] = va_arg(l, void *); va_end(l); fn = f; ac = argc; N = want; memset(st, 0, sizeof st); turn = rev ? N - 1 : 0; if (!isseq()) pthread_barrier_init(&bar, 0, N);
  for (i = 0; i < N; i++) pthread_create(&th[i], 0, body, (void *)(intptr_t)i); for (i = 0; i < N; i++) pthread_join(th[i], 0); if (!isseq()) pthread_barrier_destroy(&bar); tid = 0; nth = 1; inpar = 0;
}
void __kmpc_barrier(void *loc, int32_t g) { if (!inpar) return; if (isseq()) { pthread_mutex_lock(&mu); st[tid] = 1; pick(); await(); pthread_mutex_unlock(&mu); } else pthread_barrier_wait(&bar); }
int32_t __kmpc_global_thread_num(void *loc) { return tid; }
int omp_get_thread_num(void) { return tid; } int omp_get_num_threads(void) { return nth; } int omp_get_max_threads(void) { return want; } int omp_get_num_procs(void) { return want; } void omp_set_num_threads(int n) {} int omp_in_parallel(void) { return inpar; } void __kmpc_push_num_threads(void *l, int32_t g, int32_t n) {}
int32_t __kmpc_master(void *l, int32_t g) { return tid == 0; } void __kmpc_end_master(void *l, int32_t g) {} int32_t __kmpc_masked(void *l, int32_t g, int32_t f) { return tid == 0; } void __kmpc_end_masked(void *l, int32_t g) {} int32_t __kmpc_single(void *l, int32_t g) { return tid == 0; } void __kmpc_end_single(void *l, int32_t g) {} void __kmpc_flush(void *l) {}
void __kmpc_critical(void *l, int32_t g, void *c) { pthread_mutex_lock(&crit); } void __kmpc_critical_with_hint(void *l, int32_t g, void *c, uint32_t h) { pthread_mutex_lock(&crit); } void __kmpc_end_critical(void *l, int32_t g, void *c) { pthread_mutex_unlock(&crit); }
int32_t __kmpc_reduce_nowait(void *l, int32_t g, int32_t n, size_t s, void *d, void *f, void *k) { pthread_mutex_lock(&crit); return 1; } void __kmpc_end_reduce_nowait(void *l, int32_t g, void *k) { pthread_mutex_unlock(&crit); }
int32_t __kmpc_reduce(void *l, int32_t g, int32_t n, size_t s, void *d, void *f, void *k) { pthread_mutex_lock(&crit); return 1; } void __kmpc_end_reduce(void *l, int32_t g, void *k) { pthread_mutex_unlock(&crit); __kmpc_barrier(l, g); }
#define SINIT(S, T, W) void __kmpc_for_static_init_##S(void *l, int32_t g, int32_t sched, int32_t *plast, T *plo, T *pup, W *pst, W inc, W ch) { int64_t lb = *plo, ub = *pup, n = nth, t = tid, trip = inc > 0 ? (ub >= lb ? (ub - lb) / inc + 1 : 0) : (lb >= ub ? (lb - ub) / -inc + 1 : 0); \
  if ((sched & 255) == 33) { if (ch < 1) ch = 1; *plo = lb + t * ch * inc; *pup = *plo + (ch - 1) * inc; *pst = n * ch * inc; *plast = trip > 0 && ((trip - 1) / ch) % n == t; } \
  else { int64_t q = trip / n, r = trip % n, b = t * q + (t < r ? t : r), c = q + (t < r); *plo = lb + b * inc; *pup = *plo + (c - 1) * inc; *pst = trip * inc; *plast = c > 0 && b + c == trip; if (!c) { *plo = ub + inc; *pup = ub; } } } \
  static __thread struct { int64_t lb, ub, inc, ch, k; } d_##S; \
  void __kmpc_dispatch_init_##S(void *l, int32_t g, int32_t sched, T lb, T ub, W st, W ch) { d_##S.lb = lb; d_##S.ub = ub; d_##S.inc = st; d_##S.ch = ch < 1 ? 1 : ch; d_##S.k = tid; } \
  int32_t __kmpc_dispatch_next_##S(void *l, int32_t g, int32_t *plast, T *plb, T *pub, W *pst) { int64_t lb = d_##S.lb, ub = d_##S.ub, inc = d_##S.inc, ch = d_##S.ch, k = d_##S.k, trip = inc > 0 ? (ub >= lb ? (ub - lb) / inc + 1 : 0) : (lb >= ub ? (lb - ub) / -inc + 1 : 0), c; if (k * ch >= trip) return 0; c = trip - k * ch < ch ? trip - k * ch : ch; *plb = lb + k * ch * inc; *pub = *plb + (c - 1) * inc; if (pst) *pst = inc; if (plast) *plast = k * ch + c == trip; d_##S.k += nth; return 1; } \
  void __kmpc_dispatch_fini_##S(void *l, int32_t g) {}
SINIT(4, int32_t, int32_t) SINIT(4u, uint32_t, int32_t) SINIT(8, int64_t, int64_t) SINIT(8u, uint64_t, int64_t)
void __kmpc_for_static_fini(void *l, int32_t g) {}
