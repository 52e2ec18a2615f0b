/* searches messages whose Dilithium signature takes many attempts: deep SECONDS THREADS */
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include "common/fips202.h"
#include "dilithium2/params.h"
#include "dilithium2/api.h"
#include "dilithium2/packing.h"
#include "dilithium2/poly.h"
#include "dilithium2/polyvec.h"
#include "dilithium2/symmetric.h"
#define F(x) PQCLEAN_DILITHIUM2_CLEAN_##x
static time_t end; static int need; static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static void *work(void *a) {
  uint64_t key = (uintptr_t)a, msg = 1ull << 40; uint8_t seed[32], pk[1312], sk[2560], rho[32], tr[TRBYTES], buf[32 + 32 + 64], mu_[64], rp[64], c[K * POLYW1_PACKEDBYTES]; memset(seed, 0xd1, 32); memcpy(seed, &key, 8);
  F(crypto_sign_keypair_seed)(pk, sk, seed); static __thread polyvecl mat[K], s1, y, z; static __thread polyveck t0, s2, w1, w0, h; poly cp; uint8_t kk[32]; F(unpack_sk)(rho, tr, kk, &t0, &s1, &s2, sk);
  F(polyvec_matrix_expand)(mat, rho); F(polyvecl_ntt)(&s1); F(polyveck_ntt)(&s2); F(polyveck_ntt)(&t0);
  while (time(0) < end) for (int q = 0; q < 1000; q++) { msg++; uint8_t t[TRBYTES + 8]; memcpy(t, tr, TRBYTES); memcpy(t + TRBYTES, &msg, 8); shake256(mu_, 64, t, TRBYTES + 8); memcpy(buf, kk, 32); memset(buf + 32, 0, 32); memcpy(buf + 64, mu_, 64); shake256(rp, 64, buf, 128);
    int n; for (n = 0;; n++) { F(polyvecl_uniform_gamma1)(&y, rp, n); z = y; F(polyvecl_ntt)(&z); F(polyvec_matrix_pointwise_montgomery)(&w1, mat, &z); F(polyveck_reduce)(&w1); F(polyveck_invntt_tomont)(&w1); F(polyveck_caddq)(&w1); F(polyveck_decompose)(&w1, &w0, &w1); F(polyveck_pack_w1)(c, &w1);
      uint8_t b[64 + K * POLYW1_PACKEDBYTES]; memcpy(b, mu_, 64); memcpy(b + 64, c, K * POLYW1_PACKEDBYTES); shake256(c, CTILDEBYTES, b, sizeof b); F(poly_challenge)(&cp, c); F(poly_ntt)(&cp);
      int bad = 0; for (int i = 0; i < L && !bad; i++) { poly p; F(poly_pointwise_montgomery)(&p, &cp, &s1.vec[i]); F(poly_invntt_tomont)(&p); F(poly_add)(&p, &p, &y.vec[i]); F(poly_reduce)(&p); bad = F(poly_chknorm)(&p, GAMMA1 - BETA); } if (bad) continue;
      for (int i = 0; i < K && !bad; i++) { poly p; F(poly_pointwise_montgomery)(&p, &cp, &s2.vec[i]); F(poly_invntt_tomont)(&p); F(poly_sub)(&w0.vec[i], &w0.vec[i], &p); F(poly_reduce)(&w0.vec[i]); bad = F(poly_chknorm)(&w0.vec[i], GAMMA2 - BETA); } if (bad) continue;
      F(polyveck_pointwise_poly_montgomery)(&h, &cp, &t0); F(polyveck_invntt_tomont)(&h); F(polyveck_reduce)(&h); if (F(polyveck_chknorm)(&h, GAMMA2)) continue; F(polyveck_add)(&w0, &w0, &h); if (F(polyveck_make_hint)(&h, &w0, &w1) > OMEGA) continue; break; }
    if (n + 1 >= need) { pthread_mutex_lock(&mu); printf("{\"cls\":\"iter\",\"key\":%llu,\"m\":%llu,\"v\":%d}\n", (unsigned long long)key, (unsigned long long)msg, n + 1); fflush(stdout); pthread_mutex_unlock(&mu); } }
  return 0; }
int main(int c, char **v) { end = time(0) + atoi(v[1]); int t = atoi(v[2]); need = atoi(v[3]); pthread_t th[64]; for (long i = 0; i < t; i++) pthread_create(&th[i], 0, work, (void *)(i + 1)); for (int i = 0; i < t; i++) pthread_join(th[i], 0); return 0; }
