/* The emulated side: a minimal C library, scripted randomness, and one entry for all functions of api.c (dispatch.h is generated from it). */
#define VF_GUEST 1
#include <stddef.h>
#include <stdint.h>
typedef struct blk { size_t n; struct blk *next; int used; } blk;
static unsigned char heap[6 << 20] __attribute__((aligned(16))); static size_t top; static blk *first;
#define HDR 32
void on_abort(void) {}
void *malloc(size_t n) {
    size_t r = (n + 15) & ~(size_t)15; if (r < n) return NULL; if (!r) r = 16;
    for (blk *b = first; b; b = b->next) if (!b->used && b->n == r) { b->used = 1; return (unsigned char *)b + HDR; }
    if (r > sizeof heap || top + HDR + r > sizeof heap) return NULL;
    blk *b = (blk *)(heap + top); top += HDR + r; b->n = r; b->used = 1; b->next = first; first = b; return (unsigned char *)b + HDR;
}
void free(void *p) { if (p) ((blk *)((unsigned char *)p - HDR))->used = 0; }
void *memcpy(void *, const void *, size_t);
void *realloc(void *p, size_t n) { void *q = malloc(n); if (q && p) { size_t o = ((blk *)((unsigned char *)p - HDR))->n; memcpy(q, p, o < n ? o : n); free(p); } return q; }
#define realloc vf_unused_realloc
#include "../wasm/libc.c"
#undef realloc
unsigned char vf_stream[1024]; uint32_t vf_pos, vf_fail;
int randombytes(void *buf, size_t n) {
    unsigned char *p = buf;
    if (vf_fail && n) { errno = 5; return -1; }
    while (n--) *p++ = vf_stream[vf_pos++ % sizeof vf_stream];
    return 0;
}
unsigned long long __udivmod(unsigned long long a, unsigned long long b, unsigned long long *r) { unsigned long long q = 0, m = 0; for (int i = 63; i >= 0; i--) { unsigned long long c = m >> 63; m = m << 1 | (a >> i & 1); if (c || m >= b) { m -= b; q |= 1ull << i; } } *r = m; return q; }
unsigned long long __udivdi3(unsigned long long a, unsigned long long b) { unsigned long long r; return __udivmod(a, b, &r); }
unsigned long long __umoddi3(unsigned long long a, unsigned long long b) { unsigned long long r; __udivmod(a, b, &r); return r; }
long long __divdi3(long long a, long long b) { unsigned long long r, q = __udivmod(a < 0 ? -(unsigned long long)a : a, b < 0 ? -(unsigned long long)b : b, &r); return (a < 0) != (b < 0) ? -q : q; }
long long __moddi3(long long a, long long b) { unsigned long long r; __udivmod(a < 0 ? -(unsigned long long)a : a, b < 0 ? -(unsigned long long)b : b, &r); return a < 0 ? -r : r; }
/* thread-local variables of the only thread */
typedef struct { size_t size, align, index; void *init; } emutls;
void *__emutls_get_address(emutls *c) { static void *slot[64]; static size_t n; if (!c->index) { if (n >= 64) return NULL; unsigned char *p = malloc(c->size); if (c->init) memcpy(p, c->init, c->size); else memset(p, 0, c->size); slot[n] = p; c->index = ++n; } return slot[c->index - 1]; }
typedef unsigned char u8; typedef unsigned long long ull;
#include "dispatch.h"
