/* Stable entry points for ctypes, independent of the macro names used in the repository's headers. */
#include <stdint.h>
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include "hybrid-dilithium-sphincs/hybrid.h"
#include "common/fips202.h"
#include "common/shake_prng.h"
#include "dilithium2/api.h"
#include "sphincs/api.h"
#include "random/randombytes.h"
#include "tweetnacl/tweetnacl.h"
#define E __attribute__((visibility("default")))
typedef unsigned char u8; typedef unsigned long long ull;

E int vf_ed_keypair_seed(u8 *pk, u8 *sk, u8 *seed) { return crypto_sign_ed25519_keypair_seed(pk, sk, seed); }
E int vf_ed_keypair(u8 *pk, u8 *sk) { return crypto_sign_ed25519_keypair(pk, sk); }
E int vf_ed_sign(u8 *sm, ull *n, const u8 *m, ull ml, const u8 *sk) { return crypto_sign_ed25519(sm, n, m, ml, sk); }
E int vf_ed_open(u8 *m, ull *n, const u8 *sm, ull sl, const u8 *pk) { return crypto_sign_ed25519_open(m, n, sm, sl, pk); }

E int vf_d_keypair_seed(u8 *pk, u8 *sk, const u8 *seed) { return PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_keypair_seed(pk, sk, seed); }
E int vf_d_keypair(u8 *pk, u8 *sk) { return PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_keypair(pk, sk); }
E int vf_d_signature(u8 *s, size_t *n, const u8 *m, size_t ml, const u8 *sk) { return PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_signature(s, n, m, ml, sk); }
E int vf_d_sign(u8 *s, size_t *n, const u8 *m, size_t ml, const u8 *sk) { return PQCLEAN_DILITHIUM2_CLEAN_crypto_sign(s, n, m, ml, sk); }
E int vf_d_verify(const u8 *s, size_t n, const u8 *m, size_t ml, const u8 *pk) { return PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_verify(s, n, m, ml, pk); }
E int vf_d_open(u8 *m, size_t *n, const u8 *sm, size_t sl, const u8 *pk) { return PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_open(m, n, sm, sl, pk); }

E int vf_s_keypair_seed(u8 *pk, u8 *sk, const u8 *seed) { return PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_seed_keypair(pk, sk, seed); }
E int vf_s_keypair(u8 *pk, u8 *sk) { return PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_keypair(pk, sk); }
E int vf_s_signature(u8 *s, size_t *n, const u8 *m, size_t ml, const u8 *sk) { return PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_signature(s, n, m, ml, sk); }
E int vf_s_sign(u8 *s, size_t *n, const u8 *m, size_t ml, const u8 *sk) { return PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign(s, n, m, ml, sk); }
E int vf_s_verify(const u8 *s, size_t n, const u8 *m, size_t ml, const u8 *pk) { return PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_verify(s, n, m, ml, pk); }
E int vf_s_open(u8 *m, size_t *n, const u8 *sm, size_t sl, const u8 *pk) { return PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_open(m, n, sm, sl, pk); }

E int vf_h_expander(const u8 *seed, u8 *out) { return crypto_sign_dilithium_ed25519_sphincs_keypair_seed_expander(seed, out); }
E int vf_h_keypair_seed(u8 *pk, u8 *sk, u8 *seed) { return crypto_sign_dilithium_ed25519_sphincs_keypair_seed(pk, sk, seed); }
E int vf_h_keypair(u8 *pk, u8 *sk) { return crypto_sign_dilithium_ed25519_sphincs_keypair(pk, sk); }
E int vf_f_sign(u8 *sm, ull *n, const u8 *m, ull ml, const u8 *sk) { return crypto_sign_dilithium_ed25519_sphincs(sm, n, m, ml, sk); }
E int vf_f_open(u8 *m, ull *n, const u8 *sm, ull sl, const u8 *pk) { return crypto_sign_dilithium_ed25519_sphincs_open(m, n, sm, sl, pk); }
E int vf_f_verify(const u8 *m, ull n, const u8 *sm, ull sl, const u8 *pk) { return crypto_verify_dilithium_ed25519_sphincs(m, n, sm, sl, pk); }
E int vf_c_sign(u8 *sm, ull *n, const u8 *m, ull ml, const u8 *sk) { return crypto_sign_compact_dilithium_ed25519_sphincs(sm, n, m, ml, sk); }
E int vf_c_open(u8 *m, ull *n, const u8 *sm, ull sl, const u8 *pk) { return crypto_sign_compact_dilithium_ed25519_sphincs_open(m, n, sm, sl, pk); }
E int vf_c_verify(const u8 *m, ull n, const u8 *sm, ull sl, const u8 *pk) { return crypto_verify_compact_dilithium_ed25519_sphincs(m, n, sm, sl, pk); }
E int vf_hd_verify(const u8 *m, ull n, const u8 *sm, ull sl, const u8 *pk) { return crypto_verify_dilithium(m, n, sm, sl, pk); }

E int vf_randombytes(void *p, size_t n) { return randombytes(p, n); }
E int vf_prng_wrapper(const u8 *s, size_t sl, u8 *o, size_t ol) { return seedexpander_wrapper(s, sl, o, ol); }
E void vf_prng_init(void *st, const u8 *s, size_t sl) { seedexpander_init(st, s, sl); }
E void vf_prng_next(void *st, u8 *o, size_t ol) { seedexpander(st, o, ol); }
E void vf_prng_release(void *st) { seedexpander_release(st); }

E void vf_shake128(u8 *o, size_t n, const u8 *i, size_t l) { shake128(o, n, i, l); }
E void vf_shake256(u8 *o, size_t n, const u8 *i, size_t l) { shake256(o, n, i, l); }
E void vf_sha3_256(u8 *o, const u8 *i, size_t l) { sha3_256(o, i, l); }
E void vf_sha3_384(u8 *o, const u8 *i, size_t l) { sha3_384(o, i, l); }
E void vf_sha3_512(u8 *o, const u8 *i, size_t l) { sha3_512(o, i, l); }
/* uniform interface to all incremental and block contexts: kinds 0 shake128 1 shake256 (inc),
   2 sha3-256 3 sha3-384 4 sha3-512 (inc), 5 shake128 6 shake256 (block API) */
typedef union { shake128incctx a; shake256incctx b; sha3_256incctx c; sha3_384incctx d; sha3_512incctx e; shake128ctx f; shake256ctx g; } anyctx;
E size_t vf_x_size(void) { return sizeof(anyctx); }
E size_t vf_prng_size(void) { return sizeof(seedexpander_state); }
E int vf_x_init(int k, anyctx *x) {
    switch (k) { case 0: shake128_inc_init(&x->a); break; case 1: shake256_inc_init(&x->b); break; case 2: sha3_256_inc_init(&x->c); break;
    case 3: sha3_384_inc_init(&x->d); break; case 4: sha3_512_inc_init(&x->e); break; default: return 1; } return 0; }
E int vf_x_absorb(int k, anyctx *x, const u8 *p, size_t n) {
    switch (k) { case 0: shake128_inc_absorb(&x->a, p, n); break; case 1: shake256_inc_absorb(&x->b, p, n); break; case 2: sha3_256_inc_absorb(&x->c, p, n); break;
    case 3: sha3_384_inc_absorb(&x->d, p, n); break; case 4: sha3_512_inc_absorb(&x->e, p, n); break;
    case 5: shake128_absorb(&x->f, p, n); break; case 6: shake256_absorb(&x->g, p, n); break; default: return 1; } return 0; }
E int vf_x_finalize(int k, anyctx *x, u8 *o) {
    switch (k) { case 0: shake128_inc_finalize(&x->a); break; case 1: shake256_inc_finalize(&x->b); break; case 2: sha3_256_inc_finalize(o, &x->c); break;
    case 3: sha3_384_inc_finalize(o, &x->d); break; case 4: sha3_512_inc_finalize(o, &x->e); break; default: return 1; } return 0; }
E int vf_x_squeeze(int k, anyctx *x, u8 *o, size_t n) { /* n: bytes (inc) or blocks */
    switch (k) { case 0: shake128_inc_squeeze(o, n, &x->a); break; case 1: shake256_inc_squeeze(o, n, &x->b); break;
    case 5: shake128_squeezeblocks(o, n, &x->f); break; case 6: shake256_squeezeblocks(o, n, &x->g); break; default: return 1; } return 0; }
E int vf_x_clone(int k, anyctx *d, const anyctx *s) {
    switch (k) { case 0: shake128_inc_ctx_clone(&d->a, &s->a); break; case 1: shake256_inc_ctx_clone(&d->b, &s->b); break; case 2: sha3_256_inc_ctx_clone(&d->c, &s->c); break;
    case 3: sha3_384_inc_ctx_clone(&d->d, &s->d); break; case 4: sha3_512_inc_ctx_clone(&d->e, &s->e); break;
    case 5: shake128_ctx_clone(&d->f, &s->f); break; case 6: shake256_ctx_clone(&d->g, &s->g); break; default: return 1; } return 0; }
E int vf_x_release(int k, anyctx *x) {
    switch (k) { case 0: shake128_inc_ctx_release(&x->a); break; case 1: shake256_inc_ctx_release(&x->b); break; case 2: sha3_256_inc_ctx_release(&x->c); break;
    case 3: sha3_384_inc_ctx_release(&x->d); break; case 4: sha3_512_inc_ctx_release(&x->e); break;
    case 5: shake128_ctx_release(&x->f); break; case 6: shake256_ctx_release(&x->g); break; default: return 1; } return 0; }
/* the whole life of an incremental context: input absorbed and output squeezed in pieces of step bytes */
E int vf_hash_stream(int k, u8 *o, size_t n, const u8 *i, size_t l, size_t step) { anyctx x; size_t p, s; u8 fin[64] = {0};
    if (vf_x_init(k, &x)) return 1;
    for (p = 0; p < l; p += s) { s = step < l - p ? step : l - p; vf_x_absorb(k, &x, i + p, s); }
    if (k < 2) { vf_x_finalize(k, &x, fin); for (p = 0; p < n; p += s) { s = step < n - p ? step : n - p; vf_x_squeeze(k, &x, o + p, s); } vf_x_release(k, &x); }
    else vf_x_finalize(k, &x, o);
    return 0; }

/* a context copied after cut bytes of input (and, for the extendable functions, again in the middle of the output): the copies give the result,
   the originals are used further and released */
E int vf_hash_copy(int k, u8 *o, size_t n, const u8 *i, size_t l, size_t cut) { anyctx x, y, z; u8 tmp[168]; size_t c = cut < l ? cut : l, h = n / 2;
    if (k >= 5) { size_t b = k == 5 ? 168 : 136; vf_x_absorb(k, &x, i, l); vf_x_squeeze(k, &x, o, n / b / 2); vf_x_clone(k, &y, &x); vf_x_squeeze(k, &x, tmp, 1); vf_x_release(k, &x); vf_x_squeeze(k, &y, o + n / b / 2 * b, n / b - n / b / 2); vf_x_release(k, &y); return 0; }
    if (vf_x_init(k, &x)) return 1;
    vf_x_absorb(k, &x, i, c); vf_x_clone(k, &y, &x); vf_x_absorb(k, &x, i, l); vf_x_absorb(k, &y, i + c, l - c);
    if (k >= 2) { vf_x_finalize(k, &x, tmp); vf_x_finalize(k, &y, o); return 0; }
    vf_x_finalize(k, &y, NULL); vf_x_squeeze(k, &y, o, h); vf_x_clone(k, &z, &y); vf_x_release(k, &x); vf_x_release(k, &y); vf_x_squeeze(k, &z, o + h, n - h); vf_x_release(k, &z); return 0; }
/* the whole life of an expander state, output taken in pieces of whole words */
E int vf_prng_stream(u8 *o, size_t n, const u8 *s, size_t sl, size_t step) { seedexpander_state st; size_t p, q;
    seedexpander_init(&st, s, sl); for (p = 0; p < n; p += q) { q = step < n - p ? step : n - p; seedexpander(&st, o + p, q); } seedexpander_release(&st); return 0; }

/* NaCl */
E int vf_n_secretbox(u8 *c, const u8 *m, ull n, const u8 *nn, const u8 *k) { return crypto_secretbox_xsalsa20poly1305(c, m, n, nn, k); }
E int vf_n_secretbox_open(u8 *m, const u8 *c, ull n, const u8 *nn, const u8 *k) { return crypto_secretbox_xsalsa20poly1305_open(m, c, n, nn, k); }
E int vf_n_box(u8 *c, const u8 *m, ull n, const u8 *nn, const u8 *pk, const u8 *sk) { return crypto_box_curve25519xsalsa20poly1305(c, m, n, nn, pk, sk); }
E int vf_n_box_open(u8 *m, const u8 *c, ull n, const u8 *nn, const u8 *pk, const u8 *sk) { return crypto_box_curve25519xsalsa20poly1305_open(m, c, n, nn, pk, sk); }
E int vf_n_box_keypair(u8 *pk, u8 *sk) { return crypto_box_curve25519xsalsa20poly1305_keypair(pk, sk); }
E int vf_n_beforenm(u8 *k, const u8 *pk, const u8 *sk) { return crypto_box_curve25519xsalsa20poly1305_beforenm(k, pk, sk); }
E int vf_n_afternm(u8 *c, const u8 *m, ull n, const u8 *nn, const u8 *k) { return crypto_box_curve25519xsalsa20poly1305_afternm(c, m, n, nn, k); }
E int vf_n_open_afternm(u8 *m, const u8 *c, ull n, const u8 *nn, const u8 *k) { return crypto_box_curve25519xsalsa20poly1305_open_afternm(m, c, n, nn, k); }
E int vf_n_scalarmult(u8 *q, const u8 *n, const u8 *p) { return crypto_scalarmult_curve25519(q, n, p); }
E int vf_n_scalarmult_base(u8 *q, const u8 *n) { return crypto_scalarmult_curve25519_base(q, n); }
E int vf_n_auth(u8 *o, const u8 *m, ull n, const u8 *k) { return crypto_onetimeauth_poly1305(o, m, n, k); }
E int vf_n_auth_verify(const u8 *h, const u8 *m, ull n, const u8 *k) { return crypto_onetimeauth_poly1305_verify(h, m, n, k); }
E int vf_n_stream_xsalsa20(u8 *c, ull n, const u8 *nn, const u8 *k) { return crypto_stream_xsalsa20(c, n, nn, k); }
E int vf_n_stream_xsalsa20_xor(u8 *c, const u8 *m, ull n, const u8 *nn, const u8 *k) { return crypto_stream_xsalsa20_xor(c, m, n, nn, k); }
E int vf_n_stream_salsa20(u8 *c, ull n, const u8 *nn, const u8 *k) { return crypto_stream_salsa20(c, n, nn, k); }
E int vf_n_stream_salsa20_xor(u8 *c, const u8 *m, ull n, const u8 *nn, const u8 *k) { return crypto_stream_salsa20_xor(c, m, n, nn, k); }
E int vf_n_core_salsa20(u8 *o, const u8 *i, const u8 *k, const u8 *c) { return crypto_core_salsa20(o, i, k, c); }
E int vf_n_core_hsalsa20(u8 *o, const u8 *i, const u8 *k, const u8 *c) { return crypto_core_hsalsa20(o, i, k, c); }
E int vf_n_sha512(u8 *o, const u8 *m, ull n) { return crypto_hash_sha512(o, m, n); }
E int vf_n_verify16(const u8 *a, const u8 *b) { return crypto_verify_16(a, b); }
E int vf_n_verify32(const u8 *a, const u8 *b) { return crypto_verify_32(a, b); }
