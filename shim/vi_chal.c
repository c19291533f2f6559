/* component shim: challenge expansion */
#include <stdint.h>
#include <string.h>
#include "parameters.h"
#include "utils.h"
void vi_challenge(uint8_t *x, const uint8_t *digest)
{ uint8_t f[T + 16]; memset(f, 0, sizeof f); memset(f + T, 0xa7, 16); expand_digest_to_fixed_weight(f, digest); memcpy(x, f, T + 16); }
