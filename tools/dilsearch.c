#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include <time.h>
#include "dilithium2/params.h"
#include "dilithium2/api.h"
#include "probe.h"
__thread attempt at; __thread int vq[2]; __thread int mh[4], uh[4], pr[4];
unsigned __real_PQCLEAN_DILITHIUM2_CLEAN_make_hint(int32_t, int32_t); int32_t __real_PQCLEAN_DILITHIUM2_CLEAN_use_hint(int32_t, unsigned); int32_t __real_PQCLEAN_DILITHIUM2_CLEAN_power2round(int32_t *, int32_t);
int32_t PQCLEAN_DILITHIUM2_CLEAN_decompose(int32_t *, int32_t);
unsigned __wrap_PQCLEAN_DILITHIUM2_CLEAN_make_hint(int32_t a0, int32_t a1) {
  if (a0 == GAMMA2) mh[0]++; if (a0 == -GAMMA2 && a1) mh[1]++; if (a0 == -GAMMA2 && !a1) mh[2]++; return __real_PQCLEAN_DILITHIUM2_CLEAN_make_hint(a0, a1); }
int32_t __wrap_PQCLEAN_DILITHIUM2_CLEAN_use_hint(int32_t a, unsigned h) { int32_t a0, a1 = PQCLEAN_DILITHIUM2_CLEAN_decompose(&a0, a);
  if (h && a0 == 0) uh[0]++; if (h && a0 > 0 && a1 == 43) uh[1]++; if (h && a0 <= 0 && a1 == 0) uh[2]++; return __real_PQCLEAN_DILITHIUM2_CLEAN_use_hint(a, h); }
int32_t __wrap_PQCLEAN_DILITHIUM2_CLEAN_power2round(int32_t *a0, int32_t a) { int32_t r = __real_PQCLEAN_DILITHIUM2_CLEAN_power2round(a0, a); if (*a0 == 4096) pr[0]++; if (*a0 == -4095) pr[1]++; if (a > Q - 4096) pr[2]++; return r; }
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER; static int seen[64]; static int bestit; static time_t end;
static const char *CN[] = {"iter","hint80","hint81","z_in","z_out","w_in","w_out","ct0","mh_pos","mh_neg","mh_neg0","uh_zero","uh_43","uh_0","k_q","k_q1","k_p2r","k_p2rn","k_top","znear","zover","znear1","hint_low"};
enum {ITER,H80,H81,ZIN,ZOUT,WIN,WOUT,CT0,MH0,MH1,MH2,UH0,UH1,UH2,KQ,KQ1,KP,KPN,KT,ZNEAR,ZOVER,ZNEAR1,HLOW};
static const int LIM[] = {40,12,12,12,12,12,12,6,12,12,12,12,6,6,8,8,4,4,4,8,8,4,8};
static void emit(int c, uint64_t key, uint64_t m, int v, const uint8_t *sig) {
  pthread_mutex_lock(&mu);
  if (seen[c] < LIM[c]) { seen[c]++; printf("{\"cls\":\"%s\",\"key\":%llu,\"m\":%llu,\"v\":%d", CN[c], (unsigned long long)key, (unsigned long long)m, v);
    if (sig) { printf(",\"sig\":\""); for (int i = 0; i < 2420; i++) printf("%02x", sig[i]); printf("\""); } printf("}\n"); fflush(stdout); }
  pthread_mutex_unlock(&mu);
}
static void mkseed(uint8_t *s, uint64_t k) { memset(s, 0xD1, 32); memcpy(s, &k, 8); }
static void *work(void *arg) {
  uint64_t t = (uint64_t)(uintptr_t)arg, key = t, m = 0; uint8_t seed[32], pk[1312], sk[2560], sig[2420]; size_t n;
  /* phase 1: keys */
  time_t k1 = time(0) + (end - time(0)) / 4;
  while (time(0) < k1) { for (int i = 0; i < 200; i++) { key += 8; mkseed(seed, key); vq[0] = vq[1] = 0; memset(pr, 0, sizeof pr); PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_keypair_seed(pk, sk, seed);
    if (vq[1]) emit(KQ, key, 0, vq[1], 0); if (vq[0]) emit(KQ1, key, 0, vq[0], 0); if (pr[0]) emit(KP, key, 0, pr[0], 0); if (pr[1]) emit(KPN, key, 0, pr[1], 0); if (pr[2]) emit(KT, key, 0, pr[2], 0); } }
  key = t; mkseed(seed, key); PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_keypair_seed(pk, sk, seed);
  for (int mode = 1; mode <= 3; mode++) for (int i = 0; i < 4; i++) { m++; memset(&at, 0, sizeof at); at.mode = mode; PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_signature(sig, &n, (uint8_t *)&m, 8, sk); emit(mode == 1 ? ZNEAR : mode == 2 ? ZOVER : ZNEAR1, key, m, at.z, sig); }
  int need = 34;
  while (time(0) < end) { for (int i = 0; i < 200; i++) { m++; memset(&at, 0, sizeof at); memset(mh, 0, sizeof mh); memset(uh, 0, sizeof uh);
    PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_signature(sig, &n, (uint8_t *)&m, 8, sk);
    if (at.iter >= 45 || (at.iter >= 34 && seen[ITER] < 20)) emit(ITER, key, m, at.iter, 0);
    if (at.n == 80) emit(H80, key, m, 80, 0); if (at.n81) emit(H81, key, m, at.n81, 0); if (at.n < 30) emit(HLOW, key, m, at.n, 0);
    if (at.z == GAMMA1 - BETA - 1) emit(ZIN, key, m, at.z, 0); if (at.zeq) emit(ZOUT, key, m, at.zeq, 0); if (at.w0 == GAMMA2 - BETA - 1) emit(WIN, key, m, at.w0, 0); if (at.weq) emit(WOUT, key, m, at.weq, 0); if (at.ct0) emit(CT0, key, m, at.ct0, 0);
    for (int j = 0; j < 3; j++) if (mh[j]) emit(MH0 + j, key, m, mh[j], 0);
    if (m % 1 == 0) { PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_verify(sig, 2420, (uint8_t *)&m, 8, pk); for (int j = 0; j < 3; j++) if (uh[j]) emit(UH0 + j, key, m, uh[j], 0); } } }
  return 0;
}
int main(int c, char **v) { end = time(0) + atoi(v[1]); pthread_t th[8]; for (long i = 0; i < 8; i++) pthread_create(&th[i], 0, work, (void *)(i + 1)); for (int i = 0; i < 8; i++) pthread_join(th[i], 0); return 0; }
