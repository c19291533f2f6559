/* component shim: linear algebra and packing, plain row-major arrays in/out */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include "codes.h"
#include "LESS.h"
#ifndef PADBYTE
#define PADBYTE 0x5b
#endif
#define NPIV (sizeof(((generator_mat_t *)0)->values[0]))
static void gin(generator_mat_t *g, const uint8_t *m)
{ memset(g, PADBYTE, sizeof *g); for (int i = 0; i < K; i++) memcpy(g->values[i], m + (size_t)i * N, N); }
static void gout(const generator_mat_t *g, uint8_t *m)
{ for (int i = 0; i < K; i++) memcpy(m + (size_t)i * N, g->values[i], N); }
static void min_(monomial_t *q, const uint8_t *c, const uint16_t *p)
{ memset(q, PADBYTE, sizeof *q); for (int i = 0; i < N; i++) { q->coefficients[i] = c[i]; q->permutation[i] = p[i]; } }

int vi_rref(uint8_t *m, uint8_t *piv)
{
    generator_mat_t *g = aligned_alloc(64, (sizeof *g + 63) / 64 * 64); uint8_t pv[NPIV]; memset(pv, 0, sizeof pv);
    gin(g, m); int r = generator_RREF(g, pv); gout(g, m); memcpy(piv, pv, N); free(g); return r;
}
void vi_gmul(uint8_t *out, const uint8_t *G, const uint8_t *c, const uint16_t *p)
{
    static generator_mat_t a, b; monomial_t q; gin(&a, G); min_(&q, c, p); memset(&b, PADBYTE, sizeof b);
    generator_monomial_mul(&b, &a, &q); gout(&b, out);
}
void vi_lexmin(uint8_t *V, int dst, const uint8_t *G, int col)
{ static generator_mat_t a; static normalized_IS_t v; gin(&a, G); memcpy(&v, V, sizeof v); lex_minimize(&v, dst, &a, col); memcpy(V, &v, sizeof v); }
void vi_sort(uint8_t *V)
{ static normalized_IS_t v; memcpy(&v, V, sizeof v); lex_sort_cols(&v); memcpy(V, &v, sizeof v); }
void vi_prepare(uint8_t *V, uint16_t *ap, uint8_t *ac, const uint8_t *G, const uint8_t *c, const uint16_t *p)
{
    static generator_mat_t a; static normalized_IS_t v; monomial_t q; monomial_action_IS_t act;
    gin(&a, G); min_(&q, c, p); memset(&v, PADBYTE, sizeof v); memset(&act, PADBYTE, sizeof act);
    prepare_digest_input(&v, &act, &a, &q);
    memcpy(V, &v, sizeof v); for (int i = 0; i < K; i++) { ap[i] = act.permutation[i]; ac[i] = act.coefficients[i]; }
}
void vi_apply(uint8_t *out, const uint8_t *G, const uint16_t *ap, const uint8_t *ac)
{
    static generator_mat_t a, b; monomial_action_IS_t act; memset(&act, PADBYTE, sizeof act);
    gin(&a, G); memset(&b, 0, sizeof b); for (int i = 0; i < K; i++) { act.permutation[i] = ap[i]; act.coefficients[i] = ac[i]; }
    apply_action_to_G(&b, &a, &act); gout(&b, out);
}
void vi_pack_rref(uint8_t *out, const uint8_t *G, const uint8_t *piv)
{ static generator_mat_t a; uint8_t pv[NPIV]; memset(pv, 0, sizeof pv); memcpy(pv, piv, N); gin(&a, G); compress_rref(out, &a, pv); }
void vi_unpack_rref(uint8_t *G, const uint8_t *in)
{ static generator_mat_t a; memset(&a, PADBYTE, sizeof a); expand_to_rref(&a, in); gout(&a, G); }
void vi_compact(uint8_t *vals, uint16_t *pos, const uint8_t *G, const uint8_t *piv)
{
    static generator_mat_t a; static rref_generator_mat_t r; uint8_t pv[NPIV]; memset(pv, 0, sizeof pv); memcpy(pv, piv, N);
    gin(&a, G); memset(&r, PADBYTE, sizeof r); generator_rref_compact(&r, &a, pv);
    for (int i = 0; i < K; i++) memcpy(vals + (size_t)i * (N - K), r.values[i], N - K);
    for (int i = 0; i < N - K; i++) pos[i] = r.column_pos[i];
}
void vi_expand(uint8_t *G, const uint8_t *vals, const uint16_t *pos)
{
    static generator_mat_t a; static rref_generator_mat_t r; memset(&r, PADBYTE, sizeof r); memset(&a, PADBYTE, sizeof a);
    for (int i = 0; i < K; i++) memcpy(r.values[i], vals + (size_t)i * (N - K), N - K);
    for (int i = 0; i < N - K; i++) r.column_pos[i] = pos[i];
    generator_rref_expand(&a, &r); gout(&a, G);
}
void vi_g0(uint8_t *G, const uint8_t *seed)
{
    static generator_mat_t a; static rref_generator_mat_t r; memset(&r, PADBYTE, sizeof r); memset(&a, PADBYTE, sizeof a);
    generator_SF_seed_expand(&r, seed); generator_rref_expand(&a, &r); gout(&a, G);
}
