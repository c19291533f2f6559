/* Fault injection for challenges: with --wrap=expand_digest_to_fixed_weight the
 * digest-to-challenge expansion is replaced by a chosen fixed-weight string, so
 * that extremal challenges (worst-case seed covers) can be driven through the
 * real signer and verifier. When no string is set the real function runs. */
#include <stdint.h>
#include <string.h>
#include "parameters.h"
static uint8_t forced[T]; static int on; static unsigned long calls;
static uint8_t last_x[2][T], last_d[2][HASH_DIGEST_LENGTH];   /* the two latest expansions */
void __real_expand_digest_to_fixed_weight(uint8_t *x, const uint8_t *digest);
void __wrap_expand_digest_to_fixed_weight(uint8_t *x, const uint8_t *digest)
{
    __atomic_add_fetch(&calls, 1, __ATOMIC_RELAXED);
    if (on) memcpy(x, forced, T); else __real_expand_digest_to_fixed_weight(x, digest);
    memcpy(last_x[1], last_x[0], T); memcpy(last_d[1], last_d[0], HASH_DIGEST_LENGTH); memcpy(last_x[0], x, T); memcpy(last_d[0], digest, HASH_DIGEST_LENGTH);
}
void vs_force(const uint8_t *x) { if (x) { memcpy(forced, x, T); on = 1; } else on = 0; calls = 0; }
unsigned long vs_force_calls(void) { return calls; }
void vs_last(int which, uint8_t *x, uint8_t *d) { memcpy(x, last_x[which], T); memcpy(d, last_d[which], HASH_DIGEST_LENGTH); }
