/* Runs under valgrind's memcheck with secrets marked undefined: every branch, or address, that depends on them is
 * counted. Prints one line per observation.
 *   h_ct memcmp | column SEED | open FILE */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "api.h"
#include "rng.h"
#include "LESS.h"
#include "parameters.h"
#include "codes.h"
#include <valgrind/memcheck.h>
static uint8_t forced[T]; static int on;
#ifndef NOFORCE
void __real_expand_digest_to_fixed_weight(uint8_t *x, const uint8_t *digest);
void __wrap_expand_digest_to_fixed_weight(uint8_t *x, const uint8_t *digest)
{ if (on) memcpy(x, forced, T); else __real_expand_digest_to_fixed_weight(x, digest); }
#endif
static unsigned long count(void) { return VALGRIND_COUNT_ERRORS; }
static uint64_t st = 1; static unsigned rnd(void) { st = st * 6364136223846793005ULL + 1442695040888963407ULL; return (unsigned)(st >> 33); }
#ifndef NOMEMCMP
int timing_safe_memcmp(const unsigned char *a, const unsigned char *b, unsigned int n);
static void do_memcmp(void)
{
    static const unsigned lens[] = {0, 1, 2, 3, 7, 8, 9, 15, 16, 31, 32, 33, 47, 48, 63, 64, 65, 100, 128, 255, 256, 257, 300, 1024};
    for (unsigned i = 0; i < sizeof lens / sizeof *lens; i++) for (int pat = 0; pat < 6; pat++) {
        unsigned n = lens[i]; uint8_t *a = malloc(n + 1), *b = malloc(n + 1);
        for (unsigned j = 0; j < n; j++) { a[j] = (uint8_t)rnd(); b[j] = pat == 0 ? a[j] : pat == 5 ? (uint8_t)rnd() : a[j] ^ 0; }
        if (n && pat == 1) b[0] ^= 1; if (n && pat == 2) b[n - 1] ^= 0x80; if (n && pat == 3) b[n / 2] ^= 0x10; if (n && pat == 4) for (unsigned j = 0; j < n; j++) b[j] ^= 0xff;
        int want = memcmp(a, b, n) != 0;
        VALGRIND_MAKE_MEM_UNDEFINED(a, n); VALGRIND_MAKE_MEM_UNDEFINED(b, n);
        unsigned long e = count(); int r = timing_safe_memcmp(a, b, n); e = count() - e; VALGRIND_MAKE_MEM_DEFINED(&r, sizeof r);
        printf("memcmp len %u pattern %d errors %lu result %d want %d\n", n, pat, e, r != 0, want); free(a); free(b);
    }
}
#endif
#ifndef NOCOLUMN
static unsigned long calls;
#ifdef INSTRUMENT
__attribute__((no_instrument_function)) void __cyg_profile_func_enter(void *f, void *site) { (void)site; if (f == (void *)lex_minimize) calls++; }
__attribute__((no_instrument_function)) void __cyg_profile_func_exit(void *f, void *site) { (void)f; (void)site; }
static generator_mat_t G; static normalized_IS_t V; static monomial_action_IS_t A; static monomial_t Q_;
static void fill(int pat)
{
    memset(&G, 0, sizeof G);
    for (int i = 0; i < K; i++) for (int j = 0; j < N; j++) G.values[i][j] = pat == 0 ? rnd() % Q : pat == 1 ? (i == 0 ? 1 : rnd() % Q) : pat == 2 ? (rnd() % 9 == 0 ? rnd() % Q : 0) : pat == 3 ? 1 : pat == 4 ? 0 : Q - 1;
    for (int i = 0; i < K; i++) for (int j = 0; j < K; j++) if (pat >= 1) G.values[i][j] = i == j;        /* reduced: what is hashed is what was filled in */
}
static void do_calls(void)
{
    for (int pat = 0; pat < 6; pat++) for (int rep = 0; rep < 2; rep++) {
        fill(pat); for (int i = 0; i < N; i++) { Q_.permutation[i] = (POSITION_T)i; Q_.coefficients[i] = 1; }
        calls = 0; prepare_digest_input(&V, &A, &G, &Q_); printf("calls pattern %d normalisations %lu\n", pat, calls);
    }
}
#else
static generator_mat_t G; static normalized_IS_t V;
static void do_column(void)
{
    for (int pat = 0; pat < 12; pat++) for (int rep = 0; rep < 4; rep++) {
        memset(&G, 0, sizeof G); memset(&V, 0, sizeof V); int c = rnd() % N, d = rnd() % (N - K);
        for (int i = 0; i < K; i++) {
            int v = pat == 0 ? rnd() % Q : pat == 1 ? (i == 0) : pat == 2 ? (i == K - 1) : pat == 3 ? 0 : pat == 4 ? 1 : pat == 5 ? Q - 1 : pat == 6 ? (i ? rnd() % Q : 1) : pat == 7 ? (i >= K / 2 ? 1 + rnd() % (Q - 1) : 0) : rnd() % (pat == 8 ? 2 : Q);
            G.values[i][c] = (FQ_ELEM)v;
        }
        for (int i = 0; i < K; i++) VALGRIND_MAKE_MEM_UNDEFINED(&G.values[i][c], 1);
        unsigned long e = count(); lex_minimize(&V, (POSITION_T)d, &G, (POSITION_T)c); e = count() - e;
        printf("column pattern %d errors %lu\n", pat, e);
    }
}
#endif
#endif
static uint8_t *rd(FILE *f, size_t n) { uint8_t *p = malloc(n + 1); if (n && fread(p, 1, n, f) != n) exit(3); return p; }
static void do_open(const char *path)
{
    /* file: u32 count, forced, public key, then count x (u32 smlen, u32 digest offset, u32 expected, sm) */
    FILE *f = fopen(path, "rb"); uint32_t h[3]; if (!f || fread(h, 4, 2, f) != 2) exit(3);
    uint32_t n = h[0]; uint8_t *x = rd(f, T); memcpy(forced, x, T); on = (int)h[1]; uint8_t *pk = rd(f, CRYPTO_PUBLICKEYBYTES);
    for (uint32_t i = 0; i < n; i++) {
        if (fread(h, 4, 3, f) != 3) exit(3);
        uint8_t *sm = rd(f, h[0]), *m = malloc(h[0] + 1); unsigned long long ml = 0;
        if (on) VALGRIND_MAKE_MEM_UNDEFINED(sm + h[1], HASH_DIGEST_LENGTH);
        unsigned long e = count(); int r = crypto_sign_open(m, &ml, sm, h[0], pk); e = count() - e; VALGRIND_MAKE_MEM_DEFINED(&r, sizeof r);
        printf("open %u errors %lu result %d want %d\n", i, e, r, (int)h[2]); fflush(stdout); free(sm); free(m);
    }
}
int main(int c, char **v)
{
    if (c < 2) return 2;
    if (c > 2 && v[1][0] != 'o') st = strtoull(v[2], 0, 10);
    if (!RUNNING_ON_VALGRIND && v[1][1] != 'a') return 4;
#ifndef NOMEMCMP
    if (!strcmp(v[1], "memcmp")) { do_memcmp(); return 0; }
#endif
#ifndef NOCOLUMN
#ifdef INSTRUMENT
    if (!strcmp(v[1], "calls")) { do_calls(); return 0; }
#else
    if (!strcmp(v[1], "column")) { do_column(); return 0; }
#endif
#endif
    if (!strcmp(v[1], "open")) { do_open(v[2]); return 0; }
    return 2;
}
