/* Runs recorded calls in a sanitised build: every buffer is a heap block of exactly the specified size,
 * inputs are checked to be unmodified, and (MSan) outputs to be initialised where the specification says so.
 * usage: fp CALLS RESULTS ; exit 0, or 77 with a message for a breach found here, or the sanitiser's own abort. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#if defined(__has_feature)
# if __has_feature(memory_sanitizer)
#  include <sanitizer/msan_interface.h>
#  define MSAN 1
# endif
#endif
#ifdef __SANITIZE_ADDRESS__
# define ASAN 1
#elif defined(__has_feature)
# if __has_feature(address_sanitizer)
#  define ASAN 1
# endif
#endif
static const uint8_t *S; static size_t SL, SP;
ssize_t __wrap_getrandom(void *b, size_t n, unsigned f) { (void)f; for (size_t i = 0; i < n; i++) ((uint8_t *)b)[i] = SL ? S[SP++ % SL] : 0x5a; return (ssize_t)n; }
static uint8_t *F; static size_t FN, P;
static uint64_t u64(void) { uint64_t v; memcpy(&v, F + P, 8); P += 8; return v; }
static uint8_t u8(void) { return F[P++]; }
typedef int64_t (*fn6)(uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t);
static int bad(long k, const char *name, const char *what, unsigned arg, long at) { fprintf(stderr, "FP call %ld %s: %s (argument %u, byte %ld)\n", k, name, what, arg, at); return 77; }
int main(int argc, char **argv) {
    FILE *f = fopen(argv[1], "rb"); if (!f) return 2; fseek(f, 0, SEEK_END); FN = (size_t)ftell(f); rewind(f); F = malloc(FN + 1); if (fread(F, 1, FN, f) != FN) return 2; fclose(f);
    FILE *o = fopen(argv[2], "wb"); if (!o) return 2;
    for (long k = 0; P < FN; k++) {
        char name[80]; uint8_t nl = u8(); memcpy(name, F + P, nl); name[nl] = 0; P += nl; int isvoid = u8(); SL = u64(); S = F + P; SP = 0; P += SL;
        unsigned na = u8(); uint64_t a[6] = {0}, n[6], w[6]; uint8_t kd[6], *orig[6];
        for (unsigned i = 0; i < na; i++) {
            kd[i] = u8(); n[i] = u64(); w[i] = u64(); orig[i] = NULL;
            if (kd[i] == 0) a[i] = n[i];
            else { uint8_t *p = malloc(n[i]); a[i] = (uint64_t)(uintptr_t)p;
                if (kd[i] == 1) { memcpy(p, F + P, n[i]); orig[i] = F + P; P += n[i]; }
                else if (kd[i] == 3) memset(p, 0x11, n[i]);
#ifndef MSAN
                else memset(p, 0xa5, n[i]);
#endif
            }
        }
        void *fn = dlsym(RTLD_DEFAULT, name); if (!fn) { fprintf(stderr, "FP no %s\n", name); return 2; }
        int64_t r = ((fn6)fn)(a[0], a[1], a[2], a[3], a[4], a[5]);
        int rc = isvoid ? 0 : (int)r;
#ifdef MSAN
        if (!isvoid && __msan_test_shadow(&rc, sizeof rc) >= 0) return bad(k, name, "the return value is uninitialised", 0, 0);
#endif
        int64_t rr = rc; fwrite(&rr, 8, 1, o);
        for (unsigned i = 0; i < na; i++) if (kd[i]) {
            uint8_t *p = (uint8_t *)(uintptr_t)a[i];
            if (kd[i] == 1 && memcmp(p, orig[i], n[i])) return bad(k, name, "an input was modified", i, 0);
#ifdef MSAN
            if (kd[i] >= 2 && rc == 0 && w[i]) { long at = (long)__msan_test_shadow(p, w[i]); if (at >= 0) return bad(k, name, "the result contains uninitialised bytes", i, at); }
            __msan_unpoison(p, n[i]);
#endif
            if (kd[i] >= 2) fwrite(p, 1, rc == 0 ? w[i] : 0, o);
            free(p);
        }
        fflush(o);
    }
    fclose(o); free(F); return 0;
}
