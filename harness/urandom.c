/* Builds the device fallback of random/randombytes.c (as on a system without getrandom) against a scripted OS.
 * Every OS call is interposed, recorded, and touches nothing real.                                            */
#define _GNU_SOURCE
#include <assert.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <limits.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/param.h>
#include <sys/random.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <unistd.h>
#define EXPORT __attribute__((visibility("default")))
enum { OPENU, IOCTL, FOPEN, OPENR, POLL, SCAN, READ, CLOSE, BAD, NOPS };
typedef struct { int64_t op, arg, res, err; } ev;
#define MAXEV 8192
static ev LOG[MAXEV]; static size_t nlog;
static int64_t q[NOPS][1024]; static size_t qn[NOPS], qi[NOPS];
static const uint8_t *stream; static size_t slen, spos;
static int fds[4096]; static int nfd;     /* fds[i]: 0 closed, 1 urandom, 2 random */
static int nfile; static FILE *rfile;
EXPORT void vu_reset(const uint8_t *s, size_t n) { nlog = 0; memset(qn, 0, sizeof qn); memset(qi, 0, sizeof qi); stream = s; slen = n; spos = 0; nfd = 0; nfile = 0; rfile = NULL; memset(fds, 0, sizeof fds); }
EXPORT void vu_script(int op, const int64_t *v, size_t n) { if (n > 1024) n = 1024; memcpy(q[op], v, n * sizeof *v); qn[op] = n; }
EXPORT const ev *vu_log(void) { return LOG; }
EXPORT size_t vu_n(void) { return nlog; }
/* real-file mode: entropy_avail is a real (anonymous) file that changes whenever a wait ends, so that stdio buffering shows */
static int realmode, mfd = -1;
EXPORT void vu_realmode(int on) { realmode = on; }
EXPORT int vu_open(void) { int k = 0; for (int i = 0; i < nfd; i++) k += fds[i] != 0; return k + nfile; }
static void rec(int op, int64_t a, int64_t r, int e) { if (nlog >= MAXEV - 1) raise(SIGALRM); LOG[nlog].op = op; LOG[nlog].arg = a; LOG[nlog].res = r; LOG[nlog].err = e; nlog++; }
static int64_t next(int op, int64_t dflt) { return qi[op] < qn[op] ? q[op][qi[op]++] : dflt; }
static int u_open(const char *path) {
    int op = !strcmp(path, "/dev/urandom") ? OPENU : !strcmp(path, "/dev/random") ? OPENR : -1;
    if (op < 0) { rec(BAD, 1, 0, 0); errno = ENOENT; return -1; }
    int64_t v = next(op, 0);
    if (v < 0) { rec(op, 0, -1, (int)-v); errno = (int)-v; return -1; }
    if (nfd >= 4096) { rec(BAD, 2, 0, 0); errno = EMFILE; return -1; }
    fds[nfd] = op == OPENU ? 1 : 2; rec(op, 0, 0, 0); return 100000 + nfd++;
}
static int kind(int fd) { return fd >= 100000 && fd < 100000 + nfd ? fds[fd - 100000] : 0; }
static int vu_open_(const char *path, int fl, ...) { (void)fl; return u_open(path); }
static int vu_openat_(int d, const char *path, int fl, ...) { (void)d; (void)fl; return u_open(path); }
static int vu_close_(int fd) {
    int k = kind(fd); if (!k) { rec(BAD, 3, 0, 0); errno = EBADF; return -1; }
    fds[fd - 100000] = 0; rec(CLOSE, k, 0, 0); return 0;
}
static int vu_ioctl_(int fd, unsigned long req, ...) {
    va_list ap; va_start(ap, req); int *p = va_arg(ap, int *); va_end(ap);
    if (!kind(fd)) { rec(BAD, 4, 0, 0); errno = EBADF; return -1; }
    if (req != 0x80045200UL) { rec(BAD, 5, 0, 0); errno = EINVAL; return -1; }
    int64_t v = next(IOCTL, 4096);
    if (v < 0) { rec(IOCTL, 0, -1, (int)-v); errno = (int)-v; return -1; }
    *p = (int)v; rec(IOCTL, 0, v, 0); return 0;
}
static void report(int64_t v) { char t[32]; int k = sprintf(t, "%lld\n", (long long)v); if (ftruncate(mfd, 0) || pwrite(mfd, t, k, 0) != k) abort(); rec(SCAN, 0, v, 0); }
static int vu_poll_(struct pollfd *p, nfds_t n, int t) {
    if (n != 1 || kind(p->fd) != 2) { rec(BAD, 6, 0, 0); errno = EBADF; return -1; }
    (void)t;
    int64_t v = next(POLL, 1);
    if (v < 0) { rec(POLL, 0, -1, (int)-v); errno = (int)-v; return -1; }
    p->revents = POLLIN; rec(POLL, 0, 1, 0);
    if (realmode && rfile) { int64_t r = next(SCAN, 4096); report(r < 0 ? 4096 : r); }
    return 1;
}
static ssize_t vu_read_(int fd, void *b, size_t n) {
    int k = kind(fd);
    if (k != 1) { rec(BAD, 7, k, 0); errno = EBADF; return -1; }
    if (n == 0) return 0;
    int64_t v = next(READ, (int64_t)n);
    if (v < 0) { rec(READ, (int64_t)n, -1, (int)-v); errno = (int)-v; return -1; }
    if ((uint64_t)v > n) v = (int64_t)n;
    for (int64_t i = 0; i < v; i++) ((uint8_t *)b)[i] = stream[spos++ % slen];
    rec(READ, (int64_t)n, v, 0); return v;
}
/* the entropy count file: a fresh report is produced whenever it is read again from its beginning */
typedef struct { char t[32]; size_t n, pos; int have; } pf;
static ssize_t pf_read(void *c, char *b, size_t n) {
    pf *p = c;
    if (!p->have) {
        int64_t v = next(SCAN, 4096);
        if (v == -1000) { strcpy(p->t, "none\n"); rec(SCAN, 0, -1, 1000); }
        else if (v == -1001) { p->t[0] = 0; rec(SCAN, 0, -1, 1001); }
        else if (v < 0) { rec(SCAN, 0, -1, (int)-v); errno = (int)-v; return -1; }
        else { sprintf(p->t, "%lld\n", (long long)v); rec(SCAN, 0, v, 0); }
        p->n = strlen(p->t); p->pos = 0; p->have = 1;
    }
    if (n > p->n - p->pos) n = p->n - p->pos;
    memcpy(b, p->t + p->pos, n); p->pos += n; return (ssize_t)n;
}
static int pf_seek(void *c, off64_t *o, int w) {
    pf *p = c;
    if (w == SEEK_CUR) { *o += (off64_t)p->pos; } else if (w != SEEK_SET) { errno = EINVAL; return -1; }
    if (*o < 0) { errno = EINVAL; return -1; }
    if (*o == 0) { p->have = 0; p->pos = 0; } else p->pos = (size_t)*o < p->n ? (size_t)*o : p->n;
    return 0;
}
static int pf_close(void *c) { free(c); nfile--; rec(CLOSE, 3, 0, 0); return 0; }
static FILE *vu_fopen_(const char *path, const char *m) {
    (void)m;
    if (strcmp(path, "/proc/sys/kernel/random/entropy_avail")) { rec(BAD, 8, 0, 0); errno = ENOENT; return NULL; }
    int64_t v = next(FOPEN, 0);
    if (v < 0) { rec(FOPEN, 0, -1, (int)-v); errno = (int)-v; return NULL; }
    if (realmode) {
        char nm[64]; if (mfd < 0) mfd = memfd_create("vu", 0);
        if (ftruncate(mfd, 0) || pwrite(mfd, "0\n", 2, 0) != 2) abort();
        sprintf(nm, "/proc/self/fd/%d", mfd); rfile = fopen(nm, "r"); if (!rfile) abort();
        nfile++; rec(FOPEN, 0, 0, 0); return rfile;
    }
    pf *p = calloc(1, sizeof *p); cookie_io_functions_t f = { pf_read, NULL, pf_seek, pf_close };
    FILE *s = fopencookie(p, "r", f); nfile++; rec(FOPEN, 0, 0, 0); return s;
}
static int vu_fclose_(FILE *f) {
    if (realmode) { if (f != rfile) { rec(BAD, 3, 0, 0); errno = EBADF; return EOF; } rfile = NULL; nfile--; rec(CLOSE, 3, 0, 0); }
    return fclose(f);
}
/* a system without getrandom */
#undef SYS_getrandom
#undef __NR_getrandom
#undef __GLIBC__
#undef __GLIBC_MINOR__
#define open vu_open_
#define open64 vu_open_
#define openat vu_openat_
#define close vu_close_
#define ioctl vu_ioctl_
#define poll vu_poll_
#define read vu_read_
#define fopen vu_fopen_
#define fclose vu_fclose_
#define fopen64 vu_fopen_
#define randombytes vu_randombytes
#include "random/randombytes.c"
#ifdef USE_GLIBC
#error "not the fallback"
#endif
