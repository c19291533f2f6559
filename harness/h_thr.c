/* Opens from many threads at once, with zero or more signing threads that take turns on the generator.
 *   h_thr FILE THREADS SIGNERS SECONDS SEED
 * FILE: u32 keys, opens, signs, seedlen; keys x pk; secret key; generator seed;
 *       opens x (u32 smlen, key, expected, mlen; sm);  signs x (u32 mlen, smlen; m, sm) in the order of the generator */
#define _GNU_SOURCE
#include <pthread.h>
#include <sched.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#include "api.h"
#include "rng.h"
#include "LESS.h"
struct op { uint32_t n, key, want, mlen; int32_t rc; uint8_t *sm; } *ops; struct sg { uint32_t m, n; uint8_t *msg, *sm; } *sgs;
static uint32_t nk, no, ns, sl; static uint8_t *pk, *sk, *seed; static int threads, signers; static double limit; static uint64_t sd;
static pthread_barrier_t bar; static pthread_mutex_t gen = PTHREAD_MUTEX_INITIALIZER, out = PTHREAD_MUTEX_INITIALIZER;
static volatile uint32_t next_sign; static unsigned long opens, accepts, signs, overlaps; static int bad, running;
static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static double t0;
static void fail(const char *w, long a, long b, long c) { pthread_mutex_lock(&out); if (!bad++) printf("MONITOR: %s (%ld, %ld, %ld)\n", w, a, b, c); pthread_mutex_unlock(&out); }
static void *opener(void *arg)
{
    uint64_t s = sd * 7919 + (uint64_t)(uintptr_t)arg * 104729 + 1; unsigned long k = 0, acc = 0, ov = 0;
    pthread_barrier_wait(&bar);
    do {
        s = s * 6364136223846793005ULL + 1442695040888963407ULL; uint32_t i = (uint32_t)(s >> 33) % no;
        if (k == 0 && sd % 2) i = sd / 2 % no;                 /* the very first call the same everywhere: first-use races */
        struct op *o = ops + i; uint8_t *m = malloc(o->n + 64); memset(m, 0xC7, o->n + 64); unsigned long long ml = 77;
        if ((s >> 20) % 4 == 0) sched_yield(); if ((s >> 22) % 64 == 0) usleep((s >> 30) % 200);
        int before = __atomic_add_fetch(&running, 1, __ATOMIC_RELAXED);
        int r = crypto_sign_open(m, &ml, o->sm, o->n, pk + (size_t)o->key * CRYPTO_PUBLICKEYBYTES);
        int after = __atomic_fetch_sub(&running, 1, __ATOMIC_RELAXED); ov += before > 1 || after > 1;
        if (r != o->rc) fail("opening decides differently under concurrency", i, r, o->rc);
        else if (r == 0 && (ml != o->mlen || memcmp(m, o->sm, ml))) fail("opening returns another message under concurrency", i, (long)ml, o->mlen);
        free(m); k++; acc += r == 0;
    } while (now() - t0 < limit && !bad);
    __atomic_add_fetch(&opens, k, __ATOMIC_RELAXED); __atomic_add_fetch(&accepts, acc, __ATOMIC_RELAXED); __atomic_add_fetch(&overlaps, ov, __ATOMIC_RELAXED); return 0;
}
static void *signer(void *arg)
{
    (void)arg; pthread_barrier_wait(&bar);
    for (;;) {
        pthread_mutex_lock(&gen); uint32_t i = next_sign;
        if (i >= ns || bad || (i > 1 && now() - t0 > limit)) { pthread_mutex_unlock(&gen); return 0; }
        next_sign = i + 1; struct sg *g = sgs + i; uint8_t *o = malloc(g->m + CRYPTO_BYTES); unsigned long long n = 0;
        int r = crypto_sign(o, &n, g->msg, g->m, sk); pthread_mutex_unlock(&gen);
        if (r || n != g->n || memcmp(o, g->sm, n)) fail("signing disturbed by concurrent opening", i, (long)n, g->n);
        free(o); __atomic_add_fetch(&signs, 1, __ATOMIC_RELAXED);
    }
}
static uint8_t *rd(FILE *f, size_t n) { uint8_t *p = malloc(n + 1); if (n && fread(p, 1, n, f) != n) exit(3); return p; }
int main(int c, char **v)
{
    if (c < 6) return 2;
    FILE *f = fopen(v[1], "rb"); uint32_t h[4]; if (!f || fread(h, 4, 4, f) != 4) return 3;
    threads = atoi(v[2]); signers = atoi(v[3]); limit = atof(v[4]); sd = strtoull(v[5], 0, 10); nk = h[0]; no = h[1]; ns = h[2]; sl = h[3];
    pk = rd(f, (size_t)nk * CRYPTO_PUBLICKEYBYTES); sk = rd(f, CRYPTO_SECRETKEYBYTES); seed = rd(f, sl); ops = calloc(no, sizeof *ops); sgs = calloc(ns + 1, sizeof *sgs);
    for (uint32_t i = 0; i < no; i++) { if (fread(h, 4, 4, f) != 4) return 3; ops[i].n = h[0]; ops[i].key = h[1]; ops[i].rc = (int32_t)h[2]; ops[i].mlen = h[3]; ops[i].sm = rd(f, h[0]); }
    for (uint32_t i = 0; i < ns; i++) { if (fread(h, 4, 2, f) != 2) return 3; sgs[i].m = h[0]; sgs[i].n = h[1]; sgs[i].msg = rd(f, h[0]); sgs[i].sm = rd(f, h[1]); }
    initialize_csprng(&platform_csprng_state, seed, sl);
    pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 96u << 20); pthread_t t[64]; int n = threads + signers;
    pthread_barrier_init(&bar, 0, (unsigned)n); t0 = now();
    for (int i = 0; i < n; i++) if (pthread_create(t + i, &a, i < threads ? opener : signer, (void *)(uintptr_t)(i + 1))) return 3;
    for (int i = 0; i < n; i++) pthread_join(t[i], 0);
    printf("opens %lu accepts %lu signs %lu overlaps %lu\n", opens, accepts, signs, overlaps); fflush(stdout);
    return bad ? 66 : 0;
}
