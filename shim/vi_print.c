/* component shim: the printing functions; they write to standard error */
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include "parameters.h"
#include "codes.h"
#include "monomial_mat.h"
void monomial_mat_pretty_print(const monomial_t *const to_print);
static void mono(monomial_t *m, const uint8_t *c, const uint16_t *p) { memset(m, 0xEE, sizeof *m); for (int i = 0; i < N; i++) { m->coefficients[i] = c[i]; m->permutation[i] = p[i]; } }
void vi_p_monomial(int how, char *name, const uint8_t *c, const uint16_t *p)
{
    monomial_t m; mono(&m, c, p);
    if (how == 0) monomial_mat_pretty_print(&m); else if (how == 1) monomial_mat_pretty_print_name(name, &m); else monomial_mat_print_exp_name(name, &m);
    fflush(stderr);
}
void vi_p_generator(char *name, const uint8_t *g) { static generator_mat_t G; for (int i = 0; i < K; i++) memcpy(G.values[i], g + i * N, N); generator_pretty_print_name(name, &G); fflush(stderr); }
void vi_p_rref(char *name, const uint8_t *g, const uint16_t *c)
{
    static rref_generator_mat_t G; for (int i = 0; i < K; i++) memcpy(G.values[i], g + i * (N - K), N - K);
    for (int i = 0; i < N - K; i++) G.column_pos[i] = c[i];
    generator_rref_pretty_print_name(name, &G); fflush(stderr);
}
