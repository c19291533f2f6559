/* run one public operation on a given stack, so that the stack it used can be measured, and count what it asks of the heap */
#include <stdint.h>
#include <stddef.h>
#include <ucontext.h>
#include "api.h"
#include "LESS.h"

static unsigned long long calls, asked;
static long live;
static int counting;
void *__real_malloc(size_t n); void *__real_calloc(size_t a, size_t b); void *__real_realloc(void *p, size_t n); void __real_free(void *p);
void *__real_aligned_alloc(size_t a, size_t n); int __real_posix_memalign(void **p, size_t a, size_t n);
static void *note(void *p, size_t n) { if (counting) { calls++; asked += n; live += p != 0; } return p; }
void *__wrap_malloc(size_t n) { return note(__real_malloc(n), n); }
void *__wrap_calloc(size_t a, size_t b) { return note(__real_calloc(a, b), a * b); }
void *__wrap_aligned_alloc(size_t a, size_t n) { return note(__real_aligned_alloc(a, n), n); }
int __wrap_posix_memalign(void **p, size_t a, size_t n) { int r = __real_posix_memalign(p, a, n); note(r ? 0 : *p, n); return r; }
void *__wrap_realloc(void *p, size_t n) { void *q = __real_realloc(p, n); if (counting) { calls++; asked += n; live += (q != 0) - (p != 0); } return q; }
void __wrap_free(void *p) { if (counting && p) live--; __real_free(p); }

static ucontext_t here, there;
static struct { int op, rc; unsigned char *a, *b; unsigned long long *n, len; const unsigned char *in; } job;
static void trampoline(void)
{
    counting = 1;
    job.rc = job.op == 0 ? crypto_sign_keypair(job.a, job.b) : job.op == 1 ? crypto_sign(job.a, job.n, job.in, job.len, job.b) : crypto_sign_open(job.a, job.n, job.in, job.len, job.b);
    counting = 0;
}
/* op 0: key pair (a = pk, b = sk), 1: sign (a = sm, b = sk), 2: open (a = m, b = pk); heap: calls, bytes asked for, blocks still live */
int vs_on_stack(void *stack, size_t size, int op, unsigned char *a, unsigned long long *n, const unsigned char *in, unsigned long long len, unsigned char *b, uint64_t heap[3])
{
    job.op = op; job.a = a; job.b = b; job.n = n; job.in = in; job.len = len;
    calls = asked = 0; live = 0;
    getcontext(&there); there.uc_stack.ss_sp = stack; there.uc_stack.ss_size = size; there.uc_link = &here;
    makecontext(&there, trampoline, 0); swapcontext(&here, &there);
    heap[0] = calls; heap[1] = asked; heap[2] = (uint64_t) live;
    return job.rc;
}
