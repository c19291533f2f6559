/* Independent executable model of the LESS signature scheme (oracle).
 * Written from the specification's algorithms; shares no code with /repo.
 * All parameters are run-time values so one library covers all sets. */
#ifndef LESS_MODEL_H
#define LESS_MODEL_H
#include <stddef.h>
#include <stdint.h>

typedef struct {
    int cat, N, K, kp, T, W, S, maxseeds;
    int D;          /* digest / salt / private seed bytes = 2S */
    int L;          /* leaves of the seed tree */
    int rref_bytes, mono_bytes;
    int pk_bytes, sk_bytes, sig_max;
    int pos_bits;   /* bits per packed position */
} lm_par;

int lm_param(int set, lm_par *p);   /* set = 0..6 */
int lm_num_sets(void);
const char *lm_set_name(int set);

/* sponge */
typedef struct { uint64_t s[25]; unsigned rate, pos; int sq; unsigned char ds; } lm_sponge;
void lm_init(lm_sponge *c, unsigned rate, unsigned char ds);
void lm_absorb(lm_sponge *c, const uint8_t *in, size_t n);
void lm_squeeze(lm_sponge *c, uint8_t *out, size_t n);
void lm_hash(unsigned rate, unsigned char ds, const uint8_t *in, size_t n, uint8_t *out, size_t outlen);
/* the scheme's CSPRNG */
void lm_rng_init(const lm_par *p, lm_sponge *c, const uint8_t *seed, size_t n);

/* field */
int lm_inv(int x);
/* building blocks, plain row-major arrays with no padding */
void lm_sample(lm_sponge *c, uint8_t *out, size_t n, int lo, int hi);
void lm_monomial(const lm_par *p, lm_sponge *c, uint8_t *coef, uint16_t *perm);
void lm_monomial_salted(const lm_par *p, const uint8_t *seed, const uint8_t *salt, unsigned round, uint8_t *coef, uint16_t *perm);
void lm_monomial_prikey(const lm_par *p, const uint8_t *seed, uint8_t *coef, uint16_t *perm);
void lm_challenge(const lm_par *p, const uint8_t *digest, uint8_t *x);
/* tree has 2L-1 nodes of S bytes */
void lm_tree(const lm_par *p, const uint8_t *root, const uint8_t *salt, uint8_t *tree);
/* node indices of the minimal cover in increasing order; returns count */
int lm_cover(const lm_par *p, const uint8_t *hidden, uint32_t *nodes);
/* full[K*N] in place; returns rank; piv[N] flags */
int lm_rref(const lm_par *p, uint8_t *full, uint8_t *piv);
/* normalised, sorted non-pivot columns of an RREF matrix (out: K x (N-K) row-major) */
void lm_normal(const lm_par *p, const uint8_t *full, const uint8_t *piv, uint8_t *out);
void lm_g0(const lm_par *p, const uint8_t *seed, uint8_t *full);
void lm_pack_rref(const lm_par *p, const uint8_t *full, const uint8_t *piv, uint8_t *out);
/* returns 1 if well-formed (K pivot flags, entries < 127) */
int lm_unpack_rref(const lm_par *p, const uint8_t *in, uint8_t *full);
void lm_pack_action(const lm_par *p, const uint16_t *perm, const uint8_t *coef, uint8_t *out);
void lm_unpack_action(const lm_par *p, const uint8_t *in, uint16_t *perm, uint8_t *coef);
int lm_action_valid(const lm_par *p, const uint16_t *perm, const uint8_t *coef);
/* round digest input of an ephemeral monomial on code full; also returns its action */
int lm_round(const lm_par *p, const uint8_t *full, const uint8_t *coef, const uint16_t *perm, uint8_t *V, uint16_t *aperm, uint8_t *acoef);
void lm_apply_action(const lm_par *p, const uint8_t *full, const uint16_t *perm, const uint8_t *coef, uint8_t *out);

typedef struct {
    uint8_t root[32], salt[64], digest[64];
    uint8_t x[1400];
    uint32_t nseeds;
    uint32_t nodes[256];
    uint8_t *tree;               /* optional, (2L-1)*S bytes, caller-allocated */
} lm_trace;

void lm_keygen(const lm_par *p, lm_sponge *rng, uint8_t *pk, uint8_t *sk);
/* force: NULL or T challenge entries replacing the digest-derived challenge */
void lm_sign(const lm_par *p, lm_sponge *rng, const uint8_t *m, uint64_t mlen, const uint8_t *sk,
             uint8_t *sm, uint64_t *smlen, const uint8_t *force, lm_trace *tr);
/* 0 = accept; otherwise a reason code:
 * 1 too short, 2 count out of range, 3 count differs from required, 4 malformed pk,
 * 5 invalid action, 6 digest mismatch */
int lm_open(const lm_par *p, const uint8_t *sm, uint64_t smlen, const uint8_t *pk, uint64_t *mlen, const uint8_t *force);
/* as lm_open, also returning the digest the verifier recomputes (codes 0 and 6) */
int lm_open_rec(const lm_par *p, const uint8_t *sm, uint64_t smlen, const uint8_t *pk, uint64_t *mlen, const uint8_t *force, uint8_t *recomputed);
#endif
