/* random/randombytes.c as other systems build it (-DVF_PLAT_...), against a scripted system: every call of it is recorded, its
 * result is taken from a script, and what it delivers is a function of the call's number and the position. */
#define EXPORT __attribute__((visibility("default")))
#define randombytes vp_randombytes
#define __declspec(x) __attribute__((visibility("default")))
#if defined(VF_PLAT_ARC4)
#include <stddef.h>
static void vp_arc4random_buf(void *, size_t); static unsigned vp_arc4random(void);
#define arc4random_buf vp_arc4random_buf_
#define arc4random vp_arc4random_
void vp_arc4random_buf_(void *, size_t); unsigned vp_arc4random_(void);
#endif
#include VF_SOURCE
#undef randombytes
#undef __declspec
#undef arc4random_buf
#undef arc4random
#include <stdint.h>
#include <stddef.h>
#include <string.h>
enum { PRIM, OPEN, ACQ, GEN, REL, BAD, NOPS };
typedef struct { int64_t op; uint64_t off, len; int64_t ok; } ev;
#define MAXEV 4096
static ev LOG[MAXEV]; static size_t nlog; static const uint8_t *base; static size_t total; static int live; static size_t sparse;
static int8_t q[NOPS][256]; static size_t qn[NOPS], qi[NOPS];
EXPORT void vp_reset(const void *b, size_t n, size_t sp) { base = b; total = n; nlog = 0; live = 0; sparse = sp; memset(qn, 0, sizeof qn); memset(qi, 0, sizeof qi); }
EXPORT void vp_script(int op, const int8_t *v, size_t n) { if (n > 256) n = 256; memcpy(q[op], v, n); qn[op] = n; }
EXPORT const ev *vp_log(void) { return LOG; }
EXPORT size_t vp_n(void) { return nlog; }
EXPORT int vp_live(void) { return live; }
EXPORT int vp_run(void *b, size_t n) { return vp_randombytes(b, n); }
static int next(int op) { return qi[op] < qn[op] ? q[op][qi[op]++] : 1; }
static void rec(int op, uint64_t off, uint64_t len, int ok) { if (nlog < MAXEV) { LOG[nlog].op = op; LOG[nlog].off = off; LOG[nlog].len = len; LOG[nlog].ok = ok; } nlog++; }
static uint8_t val(size_t call, size_t i) { uint64_t x = (call + 1) * 0x9E3779B97F4A7C15ull + i * 0xD1342543DE82EF95ull; x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; return (uint8_t)(x >> 56); }
EXPORT uint8_t vp_val(size_t call, size_t i) { return val(call, i); }
/* a request for n bytes at p; part of a request that fails may have been written */
static int ask(int op, void *p, size_t n) {
    uint8_t *d = p; size_t k = nlog; int ok = next(op);
    if (n && (d < base || d + n > base + total || d + n < d)) { rec(BAD, (uint64_t)(d - base), n, 1); return 0; }
    rec(op, (uint64_t)(d - base), n, ok > 0);
    if (sparse && n > 2 * sparse) { if (ok > 0) { for (size_t i = 0; i < sparse; i++) d[i] = val(k, i); for (size_t i = n - sparse; i < n; i++) d[i] = val(k, i); } }
    else for (size_t i = 0; i < (ok > 0 ? n : ok < 0 ? n / 2 : 0); i++) d[i] = val(k, i);
    return ok > 0;
}
#if defined(VF_PLAT_ARC4)
void vp_arc4random_buf_(void *p, size_t n) { ask(PRIM, p, n); }
unsigned vp_arc4random_(void) { rec(BAD, 0, 0, 2); return 4; }
#else
NTSTATUS BCryptGenRandom(BCRYPT_ALG_HANDLE h, PUCHAR p, ULONG n, ULONG fl) {
    if (h == NULL ? !(fl & BCRYPT_USE_SYSTEM_PREFERRED_RNG) : h != (PVOID)0x51) { rec(BAD, 0, 0, 3); return STATUS_INVALID_HANDLE; }
    return ask(PRIM, p, n) ? STATUS_SUCCESS : STATUS_UNSUCCESSFUL; }
NTSTATUS BCryptOpenAlgorithmProvider(BCRYPT_ALG_HANDLE *h, LPCWSTR a, LPCWSTR b, ULONG f) { int ok = next(OPEN); rec(OPEN, 0, 0, ok > 0); if (ok <= 0) return STATUS_UNSUCCESSFUL; *h = (PVOID)0x51; live++; return 0; }
NTSTATUS BCryptCloseAlgorithmProvider(BCRYPT_ALG_HANDLE h, ULONG f) { if (h != (PVOID)0x51 || live < 1) { rec(BAD, 0, 0, 4); return STATUS_INVALID_HANDLE; } live--; rec(REL, 0, 0, 1); return 0; }
static BOOL acq(HCRYPTPROV *h, DWORD fl) { int ok = next(ACQ); rec(ACQ, 0, 0, ok > 0); if (!(fl & CRYPT_VERIFYCONTEXT)) ok = 0; if (ok <= 0) return FALSE; *h = 0x77; live++; return TRUE; }
BOOL CryptAcquireContextA(HCRYPTPROV *h, LPCSTR a, LPCSTR b, DWORD t, DWORD fl) { return acq(h, fl); }
BOOL CryptAcquireContextW(HCRYPTPROV *h, LPCWSTR a, LPCWSTR b, DWORD t, DWORD fl) { return acq(h, fl); }
BOOL CryptGenRandom(HCRYPTPROV h, DWORD n, BYTE *p) { if (h != 0x77 || live < 1) { rec(BAD, 0, 0, 5); return FALSE; } return ask(GEN, p, n) ? TRUE : FALSE; }
BOOL CryptReleaseContext(HCRYPTPROV h, DWORD f) { if (h != 0x77 || live < 1) { rec(BAD, 0, 0, 6); return FALSE; } int ok = next(REL); live--; rec(REL, 0, 0, ok > 0); return ok > 0; }
BOOLEAN SystemFunction036(PVOID p, ULONG n) { return ask(PRIM, p, n) ? TRUE : FALSE; }
static DWORD lasterr; DWORD GetLastError(void) { return lasterr; } void SetLastError(DWORD e) { lasterr = e; }
#endif
