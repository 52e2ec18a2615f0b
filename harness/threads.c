/* Runs recorded calls in several threads at once, each on its own buffers, and compares every result with the one recorded
 * when the call ran alone.  usage: threads CALLS NTHREADS ROUNDS ; exit 0, 77 for a wrong result, or the sanitiser's code. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
static __thread const uint8_t *S; static __thread size_t SL, SP; static __thread const int64_t *SC; static __thread size_t NS, IS;
ssize_t __wrap_getrandom(void *b, size_t n, unsigned f) {
    (void)f; int64_t want = (int64_t)n;
    if (IS < NS) { int64_t s = SC[IS++]; if (s < 0) { errno = (int)-s; return -1; } if (s < want) want = s; }
    for (int64_t i = 0; i < want; i++) ((uint8_t *)b)[i] = SL ? S[SP++ % SL] : 0x5a;
    return want;
}
typedef struct { char name[64]; int isvoid, ok; size_t sl, ns; const uint8_t *s; int64_t sc[16]; unsigned na; uint8_t kd[6]; uint64_t n[6], w[6]; const uint8_t *d[6]; void *fn; } call;
static uint8_t *F; static size_t FN, P; static call *C; static long NC; static int NT, ROUNDS; static pthread_barrier_t bar; static volatile int failed;
static uint64_t u64(void) { uint64_t v; memcpy(&v, F + P, 8); P += 8; return v; }
typedef int64_t (*fn6)(uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t);
static void wrong(const call *c, const char *w) { fprintf(stderr, "THREADS %s: %s\n", c->name, w); failed = 1; }
static void one(const call *c) {
    uint64_t a[6] = {0};
    S = c->s; SL = c->sl; SP = 0; SC = c->sc; NS = c->ns; IS = 0;
    for (unsigned i = 0; i < c->na; i++) {
        if (c->kd[i] == 0) { a[i] = c->n[i]; continue; }
        uint8_t *p = malloc(c->n[i] + 1); a[i] = (uint64_t)(uintptr_t)p;
        if (c->kd[i] == 1) memcpy(p, c->d[i], c->n[i]); else memset(p, 0xa5, c->n[i]);
    }
    int64_t r = ((fn6)c->fn)(a[0], a[1], a[2], a[3], a[4], a[5]); int rc = c->isvoid ? 0 : (int)r;
    if ((rc == 0) != c->ok) wrong(c, rc ? "fails, but succeeds alone" : "succeeds, but fails alone");
    for (unsigned i = 0; i < c->na; i++) if (c->kd[i]) {
        uint8_t *p = (uint8_t *)(uintptr_t)a[i];
        if (c->kd[i] == 1 && memcmp(p, c->d[i], c->n[i])) wrong(c, "an input was modified");
        if (c->kd[i] >= 2 && rc == 0 && c->ok && memcmp(p, c->d[i], c->w[i])) wrong(c, "another result than alone");
        free(p);
    }
}
static void *run(void *arg) {
    long t = (long)(intptr_t)arg;
    for (int r = 0; r < ROUNDS; r++) for (long i = 0; i < NC; i++) {
        if (r % 2 == 0) pthread_barrier_wait(&bar);                     /* even rounds: the same position, shifted by r and t */
        one(&C[(i + (r == 0 ? 0 : t * (1 + r))) % NC]);
    }
    return NULL;
}
int main(int argc, char **argv) {
    (void)argc; FILE *f = fopen(argv[1], "rb"); if (!f) return 2; fseek(f, 0, SEEK_END); FN = (size_t)ftell(f); rewind(f); F = malloc(FN + 1); if (fread(F, 1, FN, f) != FN) return 2; fclose(f);
    NT = atoi(argv[2]); ROUNDS = atoi(argv[3]); NC = (long)u64(); C = calloc((size_t)NC, sizeof *C);
    for (long k = 0; k < NC; k++) {
        call *c = &C[k]; uint8_t nl = F[P++]; memcpy(c->name, F + P, nl); P += nl; c->isvoid = F[P++]; c->ok = F[P++]; c->sl = u64(); c->s = F + P; P += c->sl;
        c->ns = u64(); for (size_t i = 0; i < c->ns; i++) c->sc[i] = (int64_t)u64();
        c->na = F[P++];
        for (unsigned i = 0; i < c->na; i++) { c->kd[i] = F[P++]; c->n[i] = u64(); c->w[i] = u64(); uint64_t dn = u64(); c->d[i] = F + P; P += dn; }
        c->fn = dlsym(RTLD_DEFAULT, c->name); if (!c->fn) { fprintf(stderr, "THREADS no %s\n", c->name); return 2; }
    }
    pthread_barrier_init(&bar, NULL, (unsigned)NT); pthread_t t[16];
    for (int i = 0; i < NT; i++) pthread_create(&t[i], NULL, run, (void *)(intptr_t)i);
    for (int i = 0; i < NT; i++) pthread_join(t[i], NULL);
    return failed ? 77 : 0;
}
