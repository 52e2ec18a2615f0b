/* Environment shim linked with the code under test (never part of /repo).
 * - scripted OS randomness (per thread), with a log of every call
 * - allocator accounting and dirty memory
 * - guarded calls: faults, aborts and hangs become return codes
 * - guard-page buffers                                                     */
#define _GNU_SOURCE
#include <errno.h>
#include <pthread.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>
#include <alloca.h>

#define EXPORT __attribute__((visibility("default")))
#define CRASH_CODE (-99990)

/* ------------------------------------------------------------- randomness */
typedef struct { uint64_t ptr; uint64_t len; int64_t ret; int64_t err; } rng_ev;
#define RNG_LOG 4096
typedef struct {
    const uint8_t *stream; size_t slen, spos;       /* bytes the "OS" delivers, cyclic if exhausted */
    const int64_t *script; size_t nscript, iscript; /* per call: >=0 deliver at most that many; <0 -errno */
    rng_ev log[RNG_LOG]; size_t nlog;
    uint64_t delivered; int over;                   /* bytes handed out; stream exhausted */
    int unseeded;                                   /* requests that accept bytes of a generator not yet seeded */
    void (*hook)(void);
} rng_t;
static __thread rng_t R;
static __thread int in_hook;
static __thread int dry; /* deliver without writing, for requests larger than memory */
EXPORT void vf_rng_dry(int on) { dry = on; }

EXPORT void vf_rng(const uint8_t *stream, size_t slen, const int64_t *script, size_t nscript) {
    R.stream = stream; R.slen = slen; R.spos = 0; R.script = script; R.nscript = nscript; R.iscript = 0;
    R.nlog = 0; R.delivered = 0; R.over = 0; R.unseeded = 0; R.hook = NULL;
}
EXPORT void vf_rng_hook(void (*h)(void)) { R.hook = h; }
EXPORT void *vf_rng_push(void) { rng_t *p = mmap(NULL, sizeof R, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); *p = R; return p; }
EXPORT void vf_rng_pop(void *p) { R = *(rng_t *)p; munmap(p, sizeof R); }
EXPORT uint64_t vf_rng_delivered(void) { return R.delivered; }
EXPORT uint64_t vf_rng_spos(void) { return R.spos; }
EXPORT uint64_t vf_rng_ncalls(void) { return R.nlog; }
EXPORT int vf_rng_over(void) { return R.over; }
EXPORT int vf_rng_unseeded(void) { return R.unseeded; }
EXPORT const rng_ev *vf_rng_log(void) { return R.log; }

static ssize_t os_random(void *buf, size_t n) {
    ssize_t ret; int err = 0;
    if (R.hook && !in_hook) { in_hook = 1; R.hook(); in_hook = 0; }
    int64_t want = (int64_t)n;
    if (R.iscript < R.nscript) {
        int64_t s = R.script[R.iscript++];
        if (s < 0) { err = (int)-s; want = -1; }
        else if (s < want) want = s;
    }
    if (want < 0) { ret = -1; }
    else {
        uint8_t *p = buf;
        for (int64_t i = 0; i < want && !dry; i++) {
            if (R.slen == 0) { p[i] = (uint8_t)(0x5a + (R.spos++ * 0x9d)); continue; }
            if (R.spos >= R.slen) R.over = 1;
            p[i] = R.stream[R.spos++ % R.slen];
        }
        R.delivered += (uint64_t)want; ret = want;
    }
    if (R.nlog < RNG_LOG) { rng_ev *e = &R.log[R.nlog]; e->ptr = (uint64_t)(uintptr_t)buf; e->len = n; e->ret = ret; e->err = err; }
    R.nlog++;
    if (ret < 0) errno = err;
    return ret;
}
EXPORT ssize_t __wrap_getrandom(void *buf, size_t n, unsigned flags) { R.unseeded += (flags & 4) != 0; /* GRND_INSECURE */ return os_random(buf, n); }
EXPORT int __wrap_getentropy(void *buf, size_t n) {
    if (n > 256) { errno = EIO; return -1; }
    ssize_t r = os_random(buf, n);
    if (r < 0) return -1;
    if ((size_t)r != n) { errno = EIO; return -1; }
    return 0;
}
long __real_syscall(long, long, long, long, long, long, long);
EXPORT long __wrap_syscall(long nr, ...) {
    va_list ap; va_start(ap, nr);
    long a = va_arg(ap,long), b = va_arg(ap,long), c = va_arg(ap,long), d = va_arg(ap,long), e = va_arg(ap,long), f = va_arg(ap,long);
    va_end(ap);
#ifdef SYS_getrandom
    if (nr == SYS_getrandom) { R.unseeded += (c & 4) != 0; return os_random((void *)a, (size_t)b); }
#endif
    return __real_syscall(nr, a, b, c, d, e, f);
}

/* -------------------------------------------------------------- allocator */
static __thread int64_t live_blocks; static __thread int heap_fill = -1; static __thread int64_t alloc_total;
/* which allocations fail: ordinals 1.. in a list, and all from alloc_dead on */
static __thread const int64_t *alloc_bad; static __thread int64_t alloc_nbad, alloc_dead, alloc_no, alloc_failed;
static int alloc_fails(void) {
    int bad = 0; alloc_no++;
    for (int64_t i = 0; i < alloc_nbad; i++) bad |= alloc_bad[i] == alloc_no;
    if (alloc_dead > 0 && alloc_no >= alloc_dead) bad = 1;
    if (bad) { alloc_failed++; errno = ENOMEM; }
    return bad;
}
EXPORT void vf_alloc_plan(const int64_t *bad, int64_t n, int64_t dead) { alloc_bad = bad; alloc_nbad = n; alloc_dead = dead; alloc_no = alloc_failed = 0; }
EXPORT int64_t vf_alloc_no(void) { return alloc_no; }
EXPORT int64_t vf_alloc_failed(void) { return alloc_failed; }
static __thread uint64_t freed_dirty; static __thread size_t watch_n; static __thread void *watch_p; static __thread int64_t watch_nonzero;
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
EXPORT void *__wrap_malloc(size_t n) {
    if (alloc_fails()) return NULL;
    void *p = __real_malloc(n);
    if (p) { live_blocks++; alloc_total++; if (heap_fill >= 0) memset(p, heap_fill, n); }
    return p;
}
EXPORT void *__wrap_calloc(size_t a, size_t b) { if (alloc_fails()) return NULL; void *p = __real_calloc(a, b); if (p) { live_blocks++; alloc_total++; } return p; }
EXPORT void *__wrap_realloc(void *q, size_t n) { if (alloc_fails()) return NULL; void *p = __real_realloc(q, n); if (p && !q) { live_blocks++; alloc_total++; } return p; }
EXPORT void __wrap_free(void *p) {
    if (p) {
        live_blocks--;
        if (p == watch_p) { /* inspect the contents of a watched block at the moment it is released */
            watch_nonzero = 0; for (size_t i = 0; i < watch_n; i++) watch_nonzero += ((volatile uint8_t *)p)[i] != 0;
            watch_p = NULL;
        }
    }
    __real_free(p);
}
EXPORT int64_t vf_live(void) { return live_blocks; }
EXPORT int64_t vf_allocs(void) { return alloc_total; }
EXPORT void vf_heap_fill(int b) { heap_fill = b; }
EXPORT void vf_watch(void *p, size_t n) { watch_p = p; watch_n = n; watch_nonzero = -1; }
EXPORT int64_t vf_watch_result(void) { return watch_nonzero; }

/* ---------------------------------------------------------- guarded calls */
static __thread sigjmp_buf jb; static __thread volatile int armed; static __thread volatile int last_sig;
static __thread volatile uint64_t last_addr;
static void onsig(int s, siginfo_t *si, void *u) {
    (void)u;
    last_sig = s; last_addr = (uint64_t)(uintptr_t)si->si_addr;
    if (armed) { armed = 0; siglongjmp(jb, 1); }
    signal(s, SIG_DFL); raise(s);
}
static int installed; static __thread int alt_installed;
static void install(void) {
    if (!alt_installed) { stack_t ss = {0}; ss.ss_size = 1 << 16; ss.ss_sp = __real_malloc(ss.ss_size); sigaltstack(&ss, NULL); alt_installed = 1; }
    if (installed) return;
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = onsig; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    int sigs[] = { SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL, SIGALRM };
    for (unsigned i = 0; i < sizeof sigs / sizeof *sigs; i++) sigaction(sigs[i], &sa, NULL);
    installed = 1;
}
static __thread int entry_errno; EXPORT void vf_entry_errno(int e) { entry_errno = e; }
static __thread int stack_fill = -1;
EXPORT void vf_stack_fill(int b) { stack_fill = b; }
__attribute__((noinline)) static void dirty(void) { volatile uint8_t *p = alloca(300000); for (int i = 0; i < 300000; i++) p[i] = (uint8_t)stack_fill; }
typedef int64_t (*fn5)(uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t);
/* returns the callee's int result, or CRASH_CODE-signal on a fault, abort or hang */
EXPORT int64_t vf_call(void *fn, int ms, int isvoid, uint64_t a, uint64_t b, uint64_t c, uint64_t d, uint64_t e, uint64_t f) {
    volatile int64_t r; sigjmp_buf old; volatile int was = armed; memcpy(&old, &jb, sizeof old); /* calls nest */
    install();
    if (stack_fill >= 0) dirty();
    struct itimerval it; memset(&it, 0, sizeof it);
    if (sigsetjmp(jb, 1)) {
        if (!was) { memset(&it, 0, sizeof it); setitimer(ITIMER_REAL, &it, NULL); }
        memcpy(&jb, &old, sizeof old); armed = was;
        return CRASH_CODE - last_sig;
    }
    if (ms > 0) { it.it_value.tv_sec = ms / 1000; it.it_value.tv_usec = (ms % 1000) * 1000; setitimer(ITIMER_REAL, &it, NULL); }
    armed = 1; errno = entry_errno;
    int64_t v = ((fn5)fn)(a, b, c, d, e, f);
    r = isvoid ? 0 : (int64_t)(int32_t)v;
    armed = was; memcpy(&jb, &old, sizeof old);
    if (ms > 0) { memset(&it, 0, sizeof it); setitimer(ITIMER_REAL, &it, NULL); }
    return r;
}
EXPORT uint64_t vf_fault_addr(void) { return last_addr; }

/* ------------------------------------------------------ guard-page buffers */
#define PG 4096UL
EXPORT void *vf_guard(size_t n, int front) {    /* n bytes ending at (front=0) or starting after (front=1) an inaccessible page */
    size_t body = (n + PG - 1) / PG * PG; if (body == 0) body = PG;
    uint8_t *base = mmap(NULL, body + 2 * PG, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (base == MAP_FAILED) return NULL;
    memset(base, 0xC3, body + 2 * PG);
    mprotect(base, PG, PROT_NONE); mprotect(base + PG + body, PG, PROT_NONE);
    return front ? base + PG : base + PG + body - n;
}
EXPORT void vf_guard_ro(void *p, size_t n, int ro) {
    uintptr_t a = (uintptr_t)p & ~(PG - 1), e = ((uintptr_t)p + n + PG - 1) & ~(PG - 1);
    if (e > a) mprotect((void *)a, e - a, ro ? PROT_READ : PROT_READ | PROT_WRITE);
}
EXPORT void vf_unguard(void *p, size_t n, int front) {
    size_t body = (n + PG - 1) / PG * PG; if (body == 0) body = PG;
    uint8_t *base = front ? (uint8_t *)p - PG : (uint8_t *)p - PG - body + n;
    munmap(base, body + 2 * PG);
}
/* address ranges larger than memory: zeros to read, and a window of w bytes that repeats (a later write shows through everywhere) */
EXPORT void *vf_zeros(size_t n) { void *p = mmap(NULL, n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); return p == MAP_FAILED ? NULL : p; }
EXPORT void *vf_wrapmap(size_t n, size_t w) {
    int fd = memfd_create("vf", 0); if (fd < 0 || ftruncate(fd, w)) return NULL;
    uint8_t *p = mmap(NULL, n, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) return NULL;
    for (size_t i = 0; i < n; i += w) if (mmap(p + i, n - i < w ? n - i : w, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) return NULL;
    close(fd); return p;
}
EXPORT void vf_unmap(void *p, size_t n) { munmap(p, n); }
EXPORT void vf_read_mem(void *dst, const void *src, size_t n) { memcpy(dst, src, n); }
EXPORT void *vf_raw_malloc(size_t n) { return __real_malloc(n); }
EXPORT void vf_raw_free(void *p) { __real_free(p); }
EXPORT void vf_set_errno(int e) { errno = e; }
EXPORT int vf_get_errno(void) { return errno; }
EXPORT void vf_null_hook(void) {}
EXPORT int vf_wrap_probe(void) { return 42; }
