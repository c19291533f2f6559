/* Runs a corpus of API operations in buffers of exactly the documented sizes, under whatever
 * sanitizer this file is compiled with, and watches: results, bounds, allocation balance.
 *   h_run CORPUS PROGRESS SECONDS [FROM [TO]]
 * PROGRESS (shared with the supervisor): u64 index, done, accepted, rejected, skipped, maxseeds, opens, signs. */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include "api.h"
#include "rng.h"
#include "LESS.h"
#include "parameters.h"
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define MSAN 1
#endif
#if __has_feature(address_sanitizer)
#include <sanitizer/allocator_interface.h>
#define ASAN 1
#endif
#endif
static uint8_t forced[T]; static int on;
#ifndef NOFORCE
void __real_expand_digest_to_fixed_weight(uint8_t *x, const uint8_t *digest);
void __wrap_expand_digest_to_fixed_weight(uint8_t *x, const uint8_t *digest)
{
    if (on) memcpy(x, forced, T); else __real_expand_digest_to_fixed_weight(x, digest);
}
#endif
#ifdef STUB
/* a cheap stand-in for the algebra of a public round, so that the bookkeeping of the full-size parameter sets can be driven often */
#include "codes.h"
void __real_prepare_digest_input(normalized_IS_t *V, monomial_action_IS_t *A, const generator_mat_t *const G, const monomial_t *const Q_in);
void __wrap_prepare_digest_input(normalized_IS_t *V, monomial_action_IS_t *A, const generator_mat_t *const G, const monomial_t *const Q_in)
{ memset(V, 1, sizeof *V); for (int i = 0; i < K; i++) { A->permutation[i] = Q_in->permutation[i]; A->coefficients[i] = Q_in->coefficients[i]; } }
#endif
static void fail(const char *what, long a, long b) { printf("MONITOR: %s (%ld, %ld)\n", what, a, b); fflush(stdout); _exit(66); }
static volatile uint64_t *pr;
struct rec { uint32_t op, id, flags, align, la, lb, expect, pad; };
static uint8_t *exact(const uint8_t *src, size_t n, unsigned align, uint8_t **base)
{
    uint8_t *b = malloc(n + align); *base = b;      /* ends exactly at the end of the allocation */
    if (!b) { b = *base = malloc(1); return b + 1; }
    if (src && n) memcpy(b + align, src, n);
    return b + align;
}
#ifdef ASAN
#define HEAP() ((long)__sanitizer_get_current_allocated_bytes())
#else
#define HEAP() 0L
#endif
static long balance;
static int do_open(const uint8_t *sm, size_t smlen, const uint8_t *pk, size_t room, unsigned align, const uint8_t *want, size_t wlen)
{
    uint8_t *b1, *b2, *b3; unsigned long long mlen = 0;
    uint8_t *s = exact(sm, smlen, align, &b1), *p = exact(pk, CRYPTO_PUBLICKEYBYTES, align >> 1, &b2), *m = exact(NULL, room, align >> 2, &b3);
    long h0 = HEAP(); int rc = crypto_sign_open(m, &mlen, s, smlen, p); long h1 = HEAP(); pr[6]++; balance += h1 - h0;
#ifdef MSAN
    __msan_check_mem_is_initialized(&rc, sizeof rc);
    if (rc == 0) { __msan_check_mem_is_initialized(&mlen, sizeof mlen); __msan_check_mem_is_initialized(m, mlen); }
#endif
    if (rc != 0 && rc != -1) fail("return code of opening", rc, 0);
    if (rc == 0 && mlen > room) fail("reported message longer than the room left by the signature", (long)mlen, (long)room);
    if (memcmp(s, sm, smlen) || memcmp(p, pk, CRYPTO_PUBLICKEYBYTES)) fail("inputs modified", 0, 0);
    if (rc == 0 && want && (mlen != wlen || memcmp(m, want, wlen))) fail("recovered message differs", (long)mlen, (long)wlen);
    free(b1); free(b2); free(b3); pr[rc == 0 ? 2 : 3]++;
    return rc;
}
int main(int argc, char **argv)
{
    int fd = open(argv[1], O_RDONLY); off_t sz = lseek(fd, 0, SEEK_END); const uint8_t *c = mmap(0, sz, PROT_READ, MAP_PRIVATE, fd, 0), *end = c + sz;
    int pf = open(argv[2], O_RDWR); pr = mmap(0, 128, PROT_READ | PROT_WRITE, MAP_SHARED, pf, 0);
    double limit = atof(argv[3]); uint64_t from = argc > 4 ? strtoull(argv[4], 0, 10) : 0, to = argc > 5 ? strtoull(argv[5], 0, 10) : (uint64_t)-1, i = 0; struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
    long first = 0;
    for (; c < end; i++) {
        struct rec r; memcpy(&r, c, sizeof r); c += sizeof r; const uint8_t *f = c; if (r.flags & 1) c += T;
        const uint8_t *a = c, *b = c + r.la; c += r.la + r.lb;
        if (i < from || i >= to) continue;
        clock_gettime(CLOCK_MONOTONIC, &t1); if (t1.tv_sec - t0.tv_sec + (t1.tv_nsec - t0.tv_nsec) * 1e-9 > limit) { pr[4]++; continue; }
        pr[0] = i; on = 0;
#ifdef NOFORCE
        if (r.flags & 1) { pr[4]++; continue; }
#endif
        if (r.flags & 1) { memcpy(forced, f, T); on = 1; }
        long before = balance; int rc;
        if (r.op == 1) {
            size_t cnt = r.la ? a[r.la - 1] : 0, fix = 2 * HASH_DIGEST_LENGTH + (size_t)W * MONO_ACTION_PACKEDBYTES + 1, need = fix + cnt * SEED_LENGTH_BYTES;
            rc = do_open(a, r.la, b, r.la >= need ? r.la - need : 0, r.align, NULL, 0);
        } else {
            uint8_t *b1, *b2, *b3, *b4; unsigned long long smlen = 0;
            initialize_csprng(&platform_csprng_state, a, r.la);
            uint8_t *pk = exact(NULL, CRYPTO_PUBLICKEYBYTES, r.align, &b1), *sk = exact(NULL, CRYPTO_SECRETKEYBYTES, r.align >> 1, &b2);
            long h0 = HEAP(); rc = crypto_sign_keypair(pk, sk); long h1 = HEAP(); balance += h1 - h0; if (rc) fail("return code of key generation", rc, 0);
            uint8_t *m = exact(b, r.lb, r.align >> 2, &b3), *sm = exact(NULL, r.lb + CRYPTO_BYTES, r.align >> 3, &b4);
            h0 = HEAP(); rc = crypto_sign(sm, &smlen, m, r.lb, sk); h1 = HEAP(); balance += h1 - h0; pr[7]++; if (rc) fail("return code of signing", rc, 0);
#ifdef MSAN
            __msan_check_mem_is_initialized(&smlen, sizeof smlen); __msan_check_mem_is_initialized(sm, smlen);
            __msan_check_mem_is_initialized(pk, CRYPTO_PUBLICKEYBYTES); __msan_check_mem_is_initialized(sk, CRYPTO_SECRETKEYBYTES);
#endif
            if (smlen > r.lb + CRYPTO_BYTES) fail("signed message longer than advertised", (long)smlen, (long)(r.lb + CRYPTO_BYTES));
            if (sm[smlen - 1] > pr[5]) pr[5] = sm[smlen - 1];
            size_t need = 2 * HASH_DIGEST_LENGTH + (size_t)W * MONO_ACTION_PACKEDBYTES + 1 + (size_t)sm[smlen - 1] * SEED_LENGTH_BYTES;
            rc = do_open(sm, smlen, pk, smlen >= need ? smlen - need : 0, r.align, m, r.lb);
            free(b1); free(b2); free(b3); free(b4);
        }
        if (r.expect && (r.expect == 1) != (rc == 0)) fail("decision differs from the expected one", rc, r.expect);
        if (i == from) { first = balance - before; }
        else if (balance - before > 0 && r.op == 2) { fail("memory still allocated after the operation", balance - before, first); }
        else if (balance - before > 0 && i > from + 3) fail("memory still allocated after the operation", balance - before, first);
        pr[1]++;
    }
    return 0;
}
