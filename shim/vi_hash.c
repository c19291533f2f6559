/* component shim: SHA-3 and SHAKE, one-shot and incremental.
 * kind: 0 sha3-256, 1 sha3-384, 2 sha3-512, 3 shake128, 4 shake256 */
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include "parameters.h"
#include "fips202.h"
#include "sha3.h"
typedef union { sha3_256incctx a; sha3_384incctx b; sha3_512incctx c; shake128incctx d; shake256incctx e; } ctx_t;
int vi_h_ctxsize(void) { return (int)sizeof(ctx_t); }
void vi_h_init(int k, void *s)
{ switch (k) { case 0: sha3_256_inc_init(s); break; case 1: sha3_384_inc_init(s); break; case 2: sha3_512_inc_init(s); break; case 3: shake128_inc_init(s); break; default: shake256_inc_init(s); } }
void vi_h_absorb(int k, void *s, const uint8_t *m, size_t n)
{ switch (k) { case 0: sha3_256_inc_absorb(s, m, n); break; case 1: sha3_384_inc_absorb(s, m, n); break; case 2: sha3_512_inc_absorb(s, m, n); break; case 3: shake128_inc_absorb(s, m, n); break; default: shake256_inc_absorb(s, m, n); } }
/* sha3: writes the digest; shake: switches to squeezing */
void vi_h_final(int k, void *s, uint8_t *o)
{ switch (k) { case 0: sha3_256_inc_finalize(o, s); break; case 1: sha3_384_inc_finalize(o, s); break; case 2: sha3_512_inc_finalize(o, s); break; case 3: shake128_inc_finalize(s); break; default: shake256_inc_finalize(s); } }
void vi_h_squeeze(int k, void *s, uint8_t *o, size_t n)
{ if (k == 3) shake128_inc_squeeze(o, n, s); else shake256_inc_squeeze(o, n, s); }
void vi_h_oneshot(int k, uint8_t *o, size_t on, const uint8_t *m, size_t n)
{ switch (k) { case 0: sha3_256(o, m, n); break; case 1: sha3_384(o, m, n); break; case 2: sha3_512(o, m, n); break; case 3: shake128(o, on, m, n); break; default: shake256(o, on, m, n); } }
void vi_h_blocks(int k, uint8_t *o, size_t nb, const uint8_t *m, size_t n, size_t first)
{   /* non-incremental SHAKE: absorb, then blocks in two calls */
    if (k == 3) { shake128ctx c; memset(&c, 0x77, sizeof c); shake128_absorb(&c, m, n); shake128_squeezeblocks(o, first, &c); shake128_squeezeblocks(o + first * SHAKE128_RATE, nb - first, &c); }
    else { shake256ctx c; memset(&c, 0x77, sizeof c); shake256_absorb(&c, m, n); shake256_squeezeblocks(o, first, &c); shake256_squeezeblocks(o + first * SHAKE256_RATE, nb - first, &c); }
}
/* every two-piece split of the input: index of the first wrong one, or -1 */
long vi_h_insplits(int k, const uint8_t *m, size_t n, const uint8_t *want, size_t on)
{
    uint8_t o[64]; static union { ctx_t c; uint8_t g[sizeof(ctx_t) + 64]; } u;
    for (size_t a = 0; a <= n; a++) {
        memset(&u, 0xC7, sizeof u); vi_h_init(k, &u.c); vi_h_absorb(k, &u.c, m, a); vi_h_absorb(k, &u.c, m + a, n - a); vi_h_final(k, &u.c, o);
        if (k >= 3) vi_h_squeeze(k, &u.c, o, on);
        if (memcmp(o, want, on)) return (long)a;
        for (int i = 0; i < 64; i++) if (u.g[sizeof(ctx_t) + i] != 0xC7) return (long)a;
    }
    return -1;
}
/* every two-piece split of the output, and the byte after each piece left alone */
long vi_h_outsplits(int k, const uint8_t *m, size_t n, const uint8_t *want, size_t on, uint8_t *tmp)
{
    for (size_t a = 0; a <= on; a++) {
        ctx_t c; memset(&c, 0xC7, sizeof c); vi_h_init(k, &c); vi_h_absorb(k, &c, m, n); vi_h_final(k, &c, 0);
        memset(tmp, 0xC7, on + 64); vi_h_squeeze(k, &c, tmp, a);
        for (int i = 0; i < 64; i++) if (tmp[a + i] != 0xC7) return (long)a;
        vi_h_squeeze(k, &c, tmp + a, on - a);
        if (memcmp(tmp, want, on)) return (long)a;
        for (int i = 0; i < 64; i++) if (tmp[on + i] != 0xC7) return (long)a;
    }
    return -1;
}
/* the wrappers of sha3.h */
int vi_x_size(void) { return (int)sizeof(SHAKE_STATE_STRUCT); }
void vi_x_init(void *s, int v) { xof_shake_init(s, v); }
void vi_x_update(void *s, const uint8_t *m, unsigned n) { xof_shake_update(s, m, n); }
void vi_x_final(void *s) { xof_shake_final(s); }
void vi_x_extract(void *s, uint8_t *o, unsigned n) { xof_shake_extract(s, o, n); }
int vi_l_size(void) { return (int)sizeof(LESS_SHA3_INC_CTX); }
void vi_l_init(void *s) { LESS_SHA3_INC_CTX *c = s; (void)c; LESS_SHA3_INC_INIT(c); }
void vi_l_absorb(void *s, const uint8_t *m, size_t n) { LESS_SHA3_INC_CTX *c = s; (void)c; LESS_SHA3_INC_ABSORB(c, m, n); }
void vi_l_final(uint8_t *o, void *s) { LESS_SHA3_INC_CTX *c = s; (void)c; LESS_SHA3_INC_FINALIZE(o, c); }
