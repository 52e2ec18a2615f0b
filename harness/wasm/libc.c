/* Just enough C library for the code under test on wasm32.  The allocator reports every release to the embedder first. */
#include <stddef.h>
#include <stdint.h>
#ifndef VF_GUEST
__attribute__((import_module("env"), import_name("on_free"))) void on_free(void *);
__attribute__((import_module("env"), import_name("on_abort"))) void on_abort(void);
#endif
int errno; void *stderr, *stdout;
#ifndef VF_GUEST
extern unsigned char __heap_base;
typedef struct blk { size_t n; struct blk *next; int used; int pad; } blk;      /* 16 bytes */
static blk *first; static uintptr_t top;
void *malloc(size_t n) {
    if (!top) top = ((uintptr_t)&__heap_base + 15) & ~(uintptr_t)15;
    size_t r = (n + 15) & ~(size_t)15; if (r < n) return NULL; if (!r) r = 16;
    for (blk *b = first; b; b = b->next) if (!b->used && b->n == r) { b->used = 1; return b + 1; }
    if (top + sizeof(blk) + r > __builtin_wasm_memory_size(0) * 65536ul) {
        size_t pages = (sizeof(blk) + r) / 65536 + 1; if (pages > 4096 || __builtin_wasm_memory_grow(0, pages) == (size_t)-1) return NULL;
    }
    blk *b = (blk *)top; top += sizeof(blk) + r; b->n = r; b->used = 1; b->next = first; first = b; return b + 1;
}
void free(void *p) { if (!p) return; on_free(p); ((blk *)p - 1)->used = 0; }
#endif
void *memset(void *d, int c, size_t n) { volatile unsigned char *p = d; while (n--) *p++ = (unsigned char)c; return d; }
void *memcpy(void *d, const void *s, size_t n) { unsigned char *p = d; const unsigned char *q = s; while (n--) *p++ = *q++; return d; }
void *memmove(void *d, const void *s, size_t n) { unsigned char *p = d; const unsigned char *q = s; if (p < q) while (n--) *p++ = *q++; else while (n--) p[n] = q[n]; return d; }
int memcmp(const void *a, const void *b, size_t n) { const unsigned char *p = a, *q = b; for (; n--; p++, q++) if (*p != *q) return *p - *q; return 0; }
void *memchr(const void *a, int c, size_t n) { const unsigned char *p = a; for (; n--; p++) if (*p == (unsigned char)c) return (void *)p; return NULL; }
void *calloc(size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) return NULL; void *p = malloc(n); if (p) memset(p, 0, n); return p; }
void *realloc(void *p, size_t n) { void *q = malloc(n); if (q && p) { size_t o = ((blk *)p - 1)->n; memcpy(q, p, o < n ? o : n); free(p); } return q; }
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
int strncmp(const char *a, const char *b, size_t n) { for (; n--; a++, b++) { if (*a != *b) return (unsigned char)*a - (unsigned char)*b; if (!*a) break; } return 0; }
int strcmp(const char *a, const char *b) { return strncmp(a, b, (size_t)-1); }
_Noreturn void abort(void) { on_abort(); __builtin_trap(); }
_Noreturn void exit(int c) { (void)c; abort(); }
int printf(const char *f, ...) { (void)f; return 0; } int fprintf(void *h, const char *f, ...) { (void)h; (void)f; return 0; } int puts(const char *s) { (void)s; return 0; }
int vf_errno(void) { return errno; } void vf_set_errno(int e) { errno = e; }
void explicit_bzero(void *d, size_t n) { memset(d, 0, n); } void bzero(void *d, size_t n) { memset(d, 0, n); }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
void *memmem(const void *a, size_t n, const void *b, size_t m) { const unsigned char *p = a; for (; n >= m; p++, n--) if (!memcmp(p, b, m)) return (void *)p; return NULL; }
int fputs(const char *s, void *h) { (void)s; (void)h; return 0; } int putchar(int c) { return c; } int fflush(void *h) { (void)h; return 0; } void perror(const char *s) { (void)s; }
int snprintf(char *d, size_t n, const char *f, ...) { (void)f; if (n) *d = 0; return 0; }
int abs(int x) { return x < 0 ? -x : x; } long labs(long x) { return x < 0 ? -x : x; } long long llabs(long long x) { return x < 0 ? -x : x; }
char *strcpy(char *d, const char *s) { char *p = d; while ((*p++ = *s++)); return d; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return NULL; } }
char *strrchr(const char *s, int c) { char *r = NULL; for (;; s++) { if (*s == (char)c) r = (char *)s; if (!*s) return r; } }
char *strstr(const char *a, const char *b) { size_t n = strlen(b); for (;; a++) { if (!strncmp(a, b, n)) return (char *)a; if (!*a) return NULL; } }
char *strerror(int e) { (void)e; return "error"; } char *getenv(const char *s) { (void)s; return NULL; }
void *memccpy(void *d, const void *s, int c, size_t n) { unsigned char *p = d; const unsigned char *q = s; while (n--) if ((*p++ = *q++) == (unsigned char)c) return p; return NULL; }
void qsort(void *b, size_t n, size_t w, int (*f)(const void *, const void *)) { unsigned char *p = b; for (size_t i = 1; i < n; i++) for (size_t j = i; j && f(p + (j - 1) * w, p + j * w) > 0; j--) for (size_t k = 0; k < w; k++) { unsigned char t = p[j * w + k]; p[j * w + k] = p[(j - 1) * w + k]; p[(j - 1) * w + k] = t; } }
int atoi(const char *s) { int v = 0; while (*s >= '0' && *s <= '9') v = 10 * v + *s++ - '0'; return v; }
static unsigned vf_rs = 1; void srand(unsigned s) { vf_rs = s; } int rand(void) { vf_rs = vf_rs * 1103515245u + 12345u; return vf_rs >> 1 & 0x7fffffff; }
