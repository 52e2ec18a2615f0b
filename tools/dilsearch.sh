#!/bin/bash
# Offline search for Dilithium inputs that reach rare branches (boundary norms, hint weights 80/81, rounding corners,
# long rejection histories).  Runs an instrumented scratch copy of the repository's Dilithium; only inputs are kept
# (data/dilithium.ndjson): what is right about them is decided by the TLA+ specification at check time.
set -e
here=$(cd "$(dirname "$0")" && pwd); d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
cp -r /repo/dilithium2 /repo/common /repo/random "$d"; cd "$d"
sed -i 's/if (t < Q) {/if (t == Q || t == Q-1) { extern __thread int vq[2]; vq[t == Q]++; } if (t < Q) {/' dilithium2/poly.c
python3 - <<'P'
s=open('dilithium2/sign.c').read()
s=s.replace('#include "params.h"','#include "params.h"\n#include "../probe.h"',1)
s=s.replace('if (PQCLEAN_DILITHIUM2_CLEAN_polyvecl_chknorm(&z, GAMMA1 - BETA)) {\n        goto rej;','at.iter++; at.z = maxnorm(&z, L); if (probe_z(&at)) {\n        goto rej;')
s=s.replace('if (PQCLEAN_DILITHIUM2_CLEAN_polyveck_chknorm(&w0, GAMMA2 - BETA)) {\n        goto rej;','at.w0 = maxnorm(&w0, K); if (probe_w(&at)) {\n        goto rej;')
s=s.replace('if (PQCLEAN_DILITHIUM2_CLEAN_polyveck_chknorm(&h, GAMMA2)) {\n        goto rej;','if (PQCLEAN_DILITHIUM2_CLEAN_polyveck_chknorm(&h, GAMMA2)) {\n        at.ct0++; goto rej;')
s=s.replace('if (n > OMEGA) {\n        goto rej;','at.n = n; if (n > OMEGA) {\n        if (n == OMEGA + 1) at.n81++; goto rej;')
assert s.count('at.')==6, s.count('at.')
open('dilithium2/sign.c','w').write(s)
P
cat > probe.h <<'P'
#include "polyvec.h"
#include <stdlib.h>
typedef struct { int iter, z, w0, n, ct0, n81, zeq, weq; int mode; } attempt;
extern __thread attempt at;
static int maxnorm(const void *v, int k) { const poly *p = v; int m = 0; for (int i = 0; i < k; i++) for (int j = 0; j < 256; j++) { int a = abs(p[i].coeffs[j]); if (a > m) m = a; } return m; }
static int probe_z(attempt *a) { int b = GAMMA1 - BETA;
  if (a->mode == 1) return a->z != b; if (a->mode == 2) return a->z < b; if (a->mode == 3) return a->z < b || a->z > b + 1;
  if (a->z == b) a->zeq++; return a->z >= b; }
static int probe_w(attempt *a) { int b = GAMMA2 - BETA; if (a->w0 == b) a->weq++; return a->w0 >= b; }
P
cp "$here/dilsearch.c" .
gcc -O3 -w -I. -Idilithium2 -o s dilsearch.c dilithium2/*.c common/fips202.c random/randombytes.c -lpthread \
  -Wl,--wrap=PQCLEAN_DILITHIUM2_CLEAN_make_hint,--wrap=PQCLEAN_DILITHIUM2_CLEAN_use_hint,--wrap=PQCLEAN_DILITHIUM2_CLEAN_power2round
./s "${1:-60}" > out
cat out
