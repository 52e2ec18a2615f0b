/* What an observer of the processor sees of a call: the branches taken and the addresses accessed, folded into a digest.
 * The code under test is compiled with -fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores and with its memory and
 * string functions renamed to the vc_ ones.  Addresses on the stack and in the heap count relative to their area. */
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#define EXPORT __attribute__((visibility("default")))
typedef struct { uint64_t kind, pc, val; } ev;
static int on; static uint64_t h, hb, n; static uintptr_t sp0; static ev *lg; static uint64_t cap, from;
static uint8_t heap[1 << 24] __attribute__((aligned(64))); static size_t hp;
static uint64_t fn, snap[1 << 14][2];
static inline uint64_t rel(uintptr_t a) { if (a - (uintptr_t)heap < sizeof heap) return (a - (uintptr_t)heap) | 1ull << 62; if (sp0 - a < (64u << 20)) return (sp0 - a) | 1ull << 63; return a; }
static inline void rec(uint64_t kind, uint64_t pc, uint64_t v) {
    if (n >= from && n - from < cap) { lg[n - from].kind = kind; lg[n - from].pc = pc; lg[n - from].val = v; }
    if (!(n & 0x3ffff) && n >> 18 < 1 << 14) { snap[n >> 18][0] = h; snap[n >> 18][1] = hb; }
    n++; h = (h ^ (v + kind * 0x9E3779B97F4A7C15ull)) * 0xD1342543DE82EF95ull; h ^= h >> 31; h = (h + pc) * 0xBF58476D1CE4E5B9ull; h ^= h >> 29;
    if (kind == 1 || kind == 5) { hb = (hb ^ (v + pc * 0x9E3779B97F4A7C15ull)) * 0xD1342543DE82EF95ull; hb ^= hb >> 31; }
}
#define PC ((uint64_t)(uintptr_t)__builtin_return_address(0))
EXPORT void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) { static uint32_t k; if (a == b || *a) return; for (uint32_t *p = a; p < b; p++) *p = ++k; }
EXPORT void __sanitizer_cov_trace_pc_guard(uint32_t *g) { if (on) rec(1, PC, *g); }
#define LS(s) EXPORT void __sanitizer_cov_load##s(void *p) { if (on) rec(2, PC, rel((uintptr_t)p)); } EXPORT void __sanitizer_cov_store##s(void *p) { if (on) rec(3, PC, rel((uintptr_t)p)); }
LS(1) LS(2) LS(4) LS(8) LS(16)
/* memory functions: addresses and sizes show; comparisons show where they stop */
static void area(const void *p, size_t k, uint64_t pc) { if (on) { rec(4, pc, rel((uintptr_t)p)); rec(4, pc, k); } }
EXPORT void *vc_memcpy(void *d, const void *s, size_t k) { area(d, k, PC); area(s, k, PC); return memcpy(d, s, k); }
EXPORT void *vc_memmove(void *d, const void *s, size_t k) { area(d, k, PC); area(s, k, PC); return memmove(d, s, k); }
EXPORT void *vc_memset(void *d, int c, size_t k) { area(d, k, PC); return memset(d, c, k); }
static size_t prefix(const char *a, const char *b, size_t k, int str) { size_t i = 0; while (i < k && a[i] == b[i] && !(str && !a[i])) i++; return i; }
EXPORT int vc_memcmp(const void *a, const void *b, size_t k) { if (on) { area(a, k, PC); area(b, k, PC); rec(5, PC, prefix(a, b, k, 0)); } return memcmp(a, b, k); }
EXPORT int vc_strcmp(const char *a, const char *b) { if (on) { area(a, 0, PC); area(b, 0, PC); rec(5, PC, prefix(a, b, (size_t)-1, 1)); } return strcmp(a, b); }
EXPORT int vc_strncmp(const char *a, const char *b, size_t k) { if (on) { area(a, k, PC); area(b, k, PC); rec(5, PC, prefix(a, b, k, 1)); } return strncmp(a, b, k); }
EXPORT size_t vc_strlen(const char *a) { size_t k = strlen(a); area(a, k, PC); return k; }
EXPORT char *vc_strncpy(char *d, const char *s, size_t k) { area(d, k, PC); area(s, strnlen(s, k), PC); return strncpy(d, s, k); }
EXPORT void *vc_memchr(const void *a, int c, size_t k) { void *r = memchr(a, c, k); area(a, r ? (size_t)((char *)r - (char *)a) : k, PC); return r; }
/* a heap whose addresses depend on nothing but the sizes asked for */
EXPORT void *vc_malloc(size_t k) { if (!on) return malloc(k); k = (k + 31) & ~(size_t)15; if (k > sizeof heap - hp) return NULL; void *p = heap + hp; *(size_t *)p = k; hp += k; area(p, k, PC); return (char *)p + 16; }
EXPORT void vc_free(void *p) { if (!p) return; if ((uintptr_t)p - (uintptr_t)heap >= sizeof heap) { free(p); return; } char *q = (char *)p - 16; area(p, 0, PC); if ((uint8_t *)q + *(size_t *)q == heap + hp) hp -= *(size_t *)q; }
EXPORT void *vc_calloc(size_t a, size_t b) { size_t k; if (__builtin_mul_overflow(a, b, &k)) return NULL; void *p = vc_malloc(k); if (p) memset(p, 0, k); return p; }
EXPORT void *vc_realloc(void *o, size_t k) { void *p = vc_malloc(k); if (p && o) { size_t s = *(size_t *)((char *)o - 16) - 16; memcpy(p, o, s < k ? s : k); vc_free(o); } return p; }
EXPORT void vc_begin(uint64_t f, ev *l, uint64_t c, uint64_t fr) { fn = f; lg = l; cap = c; from = fr; }
EXPORT uint64_t vc_hash(void) { return h; }
EXPORT const void *vc_snap(void) { return snap; }
EXPORT uint64_t vc_branches(void) { return hb; }
EXPORT uint64_t vc_count(void) { return n; }
EXPORT int64_t vc_tramp(uint64_t a, uint64_t b, uint64_t c, uint64_t d, uint64_t e, uint64_t f) {
    h = 0x243F6A8885A308D3ull; hb = h; n = 0; hp = 0; sp0 = (uintptr_t)__builtin_frame_address(0); on = 1;
    int64_t r = ((int (*)(uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t))fn)(a, b, c, d, e, f); on = 0; return r; }
