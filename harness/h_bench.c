/* records the operations a benchmark program executes, with their results, on the file VB_LOG names */
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include "LESS.h"
#include "fips202.h"
static FILE *log_;
static uint64_t sum(const void *p, size_t n)
{
    uint64_t h = 1469598103934665603ull;
    for (size_t i = 0; i < n; i++) h = (h ^ ((const unsigned char *) p)[i]) * 1099511628211ull;
    return h;
}
static FILE *out(void) { if (!log_) { log_ = fopen(getenv("VB_LOG"), "w"); setvbuf(log_, 0, _IOLBF, 0); } return log_; }
void __real_LESS_keygen(prikey_t *, pubkey_t *);
size_t __real_LESS_sign(const prikey_t *, const char *const, const uint64_t, sign_t *);
int __real_LESS_verify(const pubkey_t *const, const char *const, const uint64_t, const sign_t *const);
void __wrap_LESS_keygen(prikey_t *s, pubkey_t *p)
{
    __real_LESS_keygen(s, p);
    fprintf(out(), "keygen %llx %llx\n", (unsigned long long) sum(s, sizeof *s), (unsigned long long) sum(p, sizeof *p));
}
size_t __wrap_LESS_sign(const prikey_t *s, const char *const m, const uint64_t n, sign_t *g)
{
    size_t r = __real_LESS_sign(s, m, n, g);
    fprintf(out(), "sign %llx %llx\n", (unsigned long long) sum(s, sizeof *s), (unsigned long long) sum(m, n));
    return r;
}
int __wrap_LESS_verify(const pubkey_t *const p, const char *const m, const uint64_t n, const sign_t *const g)
{
    int r = __real_LESS_verify(p, m, n, g);
    fprintf(out(), "verify %llx %llx %d\n", (unsigned long long) sum(p, sizeof *p), (unsigned long long) sum(m, n), r);
    return r;
}
