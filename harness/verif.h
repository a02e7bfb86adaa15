/* Harness API: implemented by the symbolic engine (builtins) and by replay/replay.c for native runs. */
#ifndef VERIF_H
#define VERIF_H
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
void sym_bytes(void *p, size_t n, const char *name);                 /* n arbitrary bytes */
uint64_t sym_var(uint64_t lo, uint64_t hi, const char *name);        /* arbitrary value in [lo,hi], stays symbolic */
uint64_t sym_range(uint64_t lo, uint64_t hi, const char *name);      /* arbitrary value in [lo,hi], one path per value */
void sym_assume(int c);
void sym_assert(int c, const char *msg);
void sym_equal(const void *a, const void *b, size_t n, const char *msg);
void sym_uf(int id, const void *in, size_t n, void *out, size_t m);  /* uninterpreted function */
void sym_perm(int id, int inverse, const void *in16, void *out16);   /* uninterpreted 128-bit permutation and its inverse */
void sym_perm_def(int id, const void *in16, const void *out16);       /* fixes one concrete point of the permutation */
void sym_expand(const void *p, size_t n);                            /* hint: multiply out products with these bits */
void sym_reach(const char *label);                                   /* vacuity witness */
void sym_merge(int on);
void sym_threads(int n);
long sym_param(const char *name, long dflt);
void sym_end(void);
int sym_native(void);
int sym_heap_live(void);
void sym_trace(const char *s);
void sym_canon(int on);
/* in-memory files (symbolic) / scratch files (native) */
void vfs_put(const char *name, const void *p, size_t n);
long vfs_size(const char *name);              /* -1 when absent */
void vfs_get(const char *name, void *p, size_t n);
void vfs_fault(int kind, int after);          /* make the after-th operation of a kind fail: 1 open-read 2 open-write 3 read 4 write 5 malloc */
/* uninterpreted block cipher with the library's callback type */
static inline int UFENC(const unsigned char *in, unsigned char *out, const void *key) { sym_perm(*(const int *)key, 0, in, out); return 1; }
static inline int UFDEC(const unsigned char *in, unsigned char *out, const void *key) { sym_perm(*(const int *)key, 1, in, out); return 1; }
#endif
