/* libc model used by the symbolic runs: strings, an in-memory file system with fault injection, clock, PRNG. */
#include "verif.h"
typedef struct { char name[96]; unsigned char *d; size_t n, cap; int used; } VF;
typedef struct { VF *f; size_t pos; int rd, wr, app, err, eof; } MF;
static VF vf[12]; static int flt[8];
static long verif_time = 0x5f5e1000;
static VF *lookup(const char *n, int create) {
  int i; for (i = 0; i < 12; i++) if (vf[i].used && strcmp(vf[i].name, n) == 0) return &vf[i];
  if (!create) return 0;
  for (i = 0; i < 12; i++) if (!vf[i].used) { size_t k = strlen(n); if (k > 95) return 0; memcpy(vf[i].name, n, k + 1); vf[i].used = 1; vf[i].n = 0; vf[i].d = 0; vf[i].cap = 0; return &vf[i]; }
  return 0;
}
static void grow(VF *f, size_t n) { if (n > f->cap) { size_t c = n + 256; unsigned char *d = calloc(c, 1); if (f->n) memcpy(d, f->d, f->n); if (f->d) free(f->d); f->d = d; f->cap = c; } }
void vfs_fault(int kind, int after) { flt[kind] = after + 1; }
static int fault(int kind) { if (flt[kind]) { flt[kind]--; if (!flt[kind]) return 1; } return 0; }
void vfs_put(const char *name, const void *p, size_t n) { VF *f = lookup(name, 1); f->n = 0; grow(f, n); if (n) memcpy(f->d, p, n); f->n = n; }
long vfs_size(const char *name) { VF *f = lookup(name, 0); return f ? (long)f->n : -1; }
void vfs_get(const char *name, void *p, size_t n) { VF *f = lookup(name, 0); if (f && n) memcpy(p, f->d, n < f->n ? n : f->n); }
FILE *fopen(const char *name, const char *mode) {
  int w = mode[0] == 'w', a = mode[0] == 'a', plus = mode[1] == '+' || (mode[1] && mode[2] == '+'); MF *m; VF *f;
  if (fault(w || a ? 2 : 1)) return 0;
  f = lookup(name, w || a); if (!f) return 0; if (w) f->n = 0;
  m = malloc(sizeof *m); m->f = f; m->pos = 0; m->rd = mode[0] == 'r' || plus; m->wr = w || a || plus; m->app = a; m->err = 0; m->eof = 0; return (FILE *)m;
}
int fclose(FILE *fp) { sym_assert(fp != 0, "fclose of a NULL stream"); free(fp); return fault(6) ? -1 : 0; }
size_t fread(void *p, size_t sz, size_t n, FILE *fp) {
  MF *m = (MF *)fp; size_t want = sz * n, have = m->pos < m->f->n ? m->f->n - m->pos : 0; if (!want || !m->rd) return 0;
  if (fault(3)) { m->err = 1; return 0; }
  if (want > have) { want = have; m->eof = 1; } if (want) memcpy(p, m->f->d + m->pos, want); m->pos += want; return want / sz;
}
size_t fwrite(const void *p, size_t sz, size_t n, FILE *fp) {
  MF *m = (MF *)fp; size_t want = sz * n; if (!want || !m->wr) return 0;
  if (fault(4)) { m->err = 1; return 0; }
  if (m->app) m->pos = m->f->n; grow(m->f, m->pos + want); memcpy(m->f->d + m->pos, p, want); m->pos += want; if (m->pos > m->f->n) m->f->n = m->pos; return n;
}
int fseek(FILE *fp, long off, int wh) { MF *m = (MF *)fp; long b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (long)m->pos : (long)m->f->n; if (b + off < 0) return -1; m->pos = b + off; m->eof = 0; return 0; }
long ftell(FILE *fp) { return (long)((MF *)fp)->pos; }
void rewind(FILE *fp) { MF *m = (MF *)fp; m->pos = 0; m->err = 0; m->eof = 0; }
int fflush(FILE *fp) { return fault(7) ? -1 : 0; }
int feof(FILE *fp) { return ((MF *)fp)->eof; }
int ferror(FILE *fp) { return ((MF *)fp)->err; }
int fgetc(FILE *fp) { unsigned char c; return fread(&c, 1, 1, fp) == 1 ? c : -1; }
int getc(FILE *fp) { return fgetc(fp); }
int fputc(int c, FILE *fp) { unsigned char b = (unsigned char)c; return fwrite(&b, 1, 1, fp) == 1 ? b : -1; }
int putc(int c, FILE *fp) { return fputc(c, fp); }
int fputs(const char *s, FILE *fp) { size_t n = strlen(s); return fwrite(s, 1, n, fp) == n ? 1 : -1; }
char *fgets(char *s, int n, FILE *fp) { MF *m = (MF *)fp; int i = 0; if (fault(3)) { m->err = 1; return 0; } while (i < n - 1) { int c; if (m->pos >= m->f->n) { m->eof = 1; break; } c = m->f->d[m->pos++]; s[i++] = (char)c; if (c == '\n') break; } if (!i) return 0; s[i] = 0; return s; }
int remove(const char *name) { VF *f = lookup(name, 0); if (!f) return -1; f->used = 0; return 0; }
int unlink(const char *name) { return remove(name); }
int rename(const char *a, const char *b) { VF *f = lookup(a, 0), *g; if (!f) return -1; g = lookup(b, 0); if (g) g->used = 0; { size_t k = strlen(b); if (k > 95) return -1; memcpy(f->name, b, k + 1); } return 0; }
size_t strlen(const char *s) { const char *p = s; while (*p) p++; return p - s; }
size_t strnlen(const char *s, size_t n) { size_t i = 0; while (i < n && s[i]) i++; return i; }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) { a++; b++; } return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char *a, const char *b, size_t n) { while (n && *a && *a == *b) { a++; b++; n--; } return n ? (unsigned char)*a - (unsigned char)*b : 0; }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) ; return r; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
char *strdup(const char *s) { size_t n = strlen(s) + 1; char *p = malloc(n); memcpy(p, s, n); return p; }
void *memchr(const void *s, int c, size_t n) { const unsigned char *p = s; for (; n; n--, p++) if (*p == (unsigned char)c) return (void *)p; return 0; }
long time(long *t) { long v = verif_time + sym_param("time", 0); if (t) *t = v; return v; }
static unsigned long rs = 1; void srand(unsigned s) { rs = s; }
int rand(void) { rs = rs * 6364136223846793005ul + 1442695040888963407ul; return (int)((rs >> 33) & 0x7fffffff); }
static unsigned short ctb[384]; static const unsigned short *ctp; static int cti;
const unsigned short **__ctype_b_loc(void) { if (!cti) { int i; for (i = 0; i < 128; i++) { unsigned short v = 0; if (i >= 'A' && i <= 'Z') v |= 0x100 | 0x400 | 8; if (i >= 'a' && i <= 'z') v |= 0x200 | 0x400 | 8; if (i >= '0' && i <= '9') v |= 0x800 | 8; if (i == ' ' || (i >= 9 && i <= 13)) v |= 0x2000; ctb[128 + i] = v; } ctp = ctb + 128; cti = 1; } return &ctp; }
int isdigit(int c) { return c >= '0' && c <= '9'; } int isupper(int c) { return c >= 'A' && c <= 'Z'; } int islower(int c) { return c >= 'a' && c <= 'z'; } int isalpha(int c) { return isupper(c) || islower(c); }
int toupper(int c) { return islower(c) ? c - 32 : c; } int tolower(int c) { return isupper(c) ? c + 32 : c; }
void *CRYPTO_malloc(size_t n, const char *f, int l) { return malloc(n); } void *CRYPTO_zalloc(size_t n, const char *f, int l) { return calloc(n, 1); } void CRYPTO_free(void *p, const char *f, int l) { free(p); }
void CRYPTO_clear_free(void *p, size_t n, const char *f, int l) { if (p) memset(p, 0, n); free(p); }
void OPENSSL_cleanse(void *p, size_t n) { memset(p, 0, n); }
