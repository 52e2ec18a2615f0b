/* corner values of A*z for the keyless key (t1 = 0, rho = 0x5a * 32): responses z = SHAKE256("vf-free" || n as 8 bytes)
   as 2304 packed bytes with out-of-range coefficients replaced by 0.  Prints z number, polynomial, index per class. */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "common/fips202.h"
#include "dilithium2/params.h"
#include "dilithium2/poly.h"
#include "dilithium2/polyvec.h"
#include "dilithium2/rounding.h"
#define F(x) PQCLEAN_DILITHIUM2_CLEAN_##x
enum { NC = 11 };
static const char *name[NC] = {"r0zero", "r0one", "r0minus", "r0max", "r0min", "zero", "one", "top", "wrap", "prewrap", "a1max"};
int main(int c, char **v) {
  static polyvecl mat[K], z; static polyveck w; uint8_t rho[32]; int got[NC] = {0}, per = atoi(v[1]); memset(rho, 0x5a, 32); F(polyvec_matrix_expand)(mat, rho);
  for (uint64_t n = 0; n < 400000; n++) {
    uint8_t s[15] = "vf-free", buf[2304]; memcpy(s + 7, &n, 8); shake256(buf, 2304, s, 15);
    for (int i = 0; i < L; i++) { F(polyz_unpack)(&z.vec[i], buf + 576 * i); for (int j = 0; j < N; j++) { int32_t t = z.vec[i].coeffs[j]; if (t >= GAMMA1 - BETA || t <= -(GAMMA1 - BETA)) z.vec[i].coeffs[j] = 0; } }
    F(polyvecl_ntt)(&z); F(polyvec_matrix_pointwise_montgomery)(&w, mat, &z); F(polyveck_reduce)(&w); F(polyveck_invntt_tomont)(&w); F(polyveck_caddq)(&w);
    for (int k = 0; k < K; k++) for (int i = 0; i < N; i++) { int32_t r = w.vec[k].coeffs[i], a0, a1 = F(decompose)(&a0, r);
      int h[NC] = {a0 == 0 && r, a0 == 1, a0 == -1, a0 == GAMMA2, a0 == 1 - GAMMA2, r == 0, r == 1, r == Q - 1, r == Q - GAMMA2, r == Q - 1 - GAMMA2, a1 == 43 && a0 == GAMMA2};
      for (int q = 0; q < NC; q++) if (h[q] && got[q] < per) { got[q]++; printf("{\"cls\":\"%s\",\"z\":%llu,\"k\":%d,\"i\":%d}\n", name[q], (unsigned long long)n, k, i); } }
    int all = 1; for (int q = 0; q < NC; q++) if (got[q] < per) all = 0; if (all) break; }
  return 0; }
