/* component shim: monomial matrices and actions */
#include <stdint.h>
#include <string.h>
#include "monomial_mat.h"
#ifndef PADBYTE
#define PADBYTE 0x5b
#endif
static void in(monomial_t *q, const uint8_t *c, const uint16_t *p)
{ memset(q, PADBYTE, sizeof *q); for (int i = 0; i < N; i++) { q->coefficients[i] = c[i]; q->permutation[i] = p[i]; } }
static void out(const monomial_t *q, uint8_t *c, uint16_t *p)
{ for (int i = 0; i < N; i++) { c[i] = q->coefficients[i]; p[i] = q->permutation[i]; } }
static void ain(monomial_action_IS_t *q, const uint8_t *c, const uint16_t *p)
{ memset(q, PADBYTE, sizeof *q); for (int i = 0; i < K; i++) { q->coefficients[i] = c[i]; q->permutation[i] = p[i]; } }
static void aout(const monomial_action_IS_t *q, uint8_t *c, uint16_t *p)
{ for (int i = 0; i < K; i++) { c[i] = q->coefficients[i]; p[i] = q->permutation[i]; } }
void vi_mmul(uint8_t *rc, uint16_t *rp, const uint8_t *ac, const uint16_t *ap, const uint8_t *bc, const uint16_t *bp)
{ monomial_t r, a, b; in(&a, ac, ap); in(&b, bc, bp); memset(&r, PADBYTE, sizeof r); monomial_mat_mul(&r, &a, &b); out(&r, rc, rp); }
void vi_minv(uint8_t *rc, uint16_t *rp, const uint8_t *ac, const uint16_t *ap)
{ monomial_t r, a; in(&a, ac, ap); memset(&r, PADBYTE, sizeof r); monomial_mat_inv(&r, &a); out(&r, rc, rp); }
void vi_mid(uint8_t *rc, uint16_t *rp) { monomial_t r; memset(&r, PADBYTE, sizeof r); monomial_mat_id(&r); out(&r, rc, rp); }
void vi_mrnd(uint8_t *rc, uint16_t *rp) { monomial_t r; memset(&r, PADBYTE, sizeof r); monomial_mat_rnd(&r); out(&r, rc, rp); }
void vi_msalt(uint8_t *rc, uint16_t *rp, const uint8_t *seed, const uint8_t *salt, unsigned round)
{ monomial_t r; memset(&r, PADBYTE, sizeof r); monomial_mat_seed_expand_salt_rnd(&r, seed, salt, (uint16_t)round); out(&r, rc, rp); }
void vi_mprikey(uint8_t *rc, uint16_t *rp, const uint8_t *seed)
{ monomial_t r; memset(&r, PADBYTE, sizeof r); monomial_mat_seed_expand_prikey(&r, seed); out(&r, rc, rp); }
void vi_compose(uint8_t *rc, uint16_t *rp, const uint8_t *qc, const uint16_t *qp, const uint8_t *ac, const uint16_t *ap)
{
    monomial_action_IS_t r, a; monomial_t q; in(&q, qc, qp); ain(&a, ac, ap); memset(&r, PADBYTE, sizeof r);
    monomial_compose_action(&r, &q, &a); aout(&r, rc, rp);
}
void vi_pack_action(uint8_t *o, const uint8_t *ac, const uint16_t *ap)
{ monomial_action_IS_t a; ain(&a, ac, ap); compress_monom_action(o, &a); }
void vi_unpack_action(uint8_t *ac, uint16_t *ap, const uint8_t *i)
{ monomial_action_IS_t a; memset(&a, PADBYTE, sizeof a); expand_to_monom_action(&a, i); aout(&a, ac, ap); }
int vi_action_valid(const uint8_t *ac, const uint16_t *ap)
{ monomial_action_IS_t a; ain(&a, ac, ap); return is_monom_action_valid(&a); }
