/* component shim: field arithmetic and samplers */
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include "fq_arith.h"
unsigned vi_fq_red(unsigned x) { return fq_red((FQ_DOUBLEPREC)x); }
unsigned vi_fq_inv(unsigned x) { return fq_inv((FQ_ELEM)x); }
void vi_sample_star(const uint8_t *seed, unsigned sl, uint8_t *out, size_t n)
{ SHAKE_STATE_STRUCT s; memset(&s, 0, sizeof s); initialize_csprng(&s, seed, sl); fq_star_rnd_state_elements(&s, out, n); }
void vi_sample_q(const uint8_t *seed, unsigned sl, uint8_t *out, size_t n)
{ SHAKE_STATE_STRUCT s; memset(&s, 0, sizeof s); initialize_csprng(&s, seed, sl); rand_range_q_state_elements(&s, out, n); }
void vi_sample_star_g(uint8_t *out, size_t n) { fq_star_rnd_elements(out, n); }
void vi_sample_q_g(uint8_t *out, size_t n) { rand_range_q_elements(out, n); }
