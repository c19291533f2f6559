/* component shim: copies of a SHAKE state of the block interface. kind: 3 shake128, 4 shake256 */
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include "parameters.h"
#include "fips202.h"
/* `first` blocks, a copy, the remaining blocks from the copy (o) and then from the original (o2) */
void vi_h_clone(int k, uint8_t *o, uint8_t *o2, size_t nb, const uint8_t *m, size_t n, size_t first)
{
    if (k == 3) {
        shake128ctx c, d; memset(&c, 0x77, sizeof c); memset(&d, 0x99, sizeof d); shake128_absorb(&c, m, n); shake128_squeezeblocks(o, first, &c); memcpy(o2, o, first * SHAKE128_RATE);
        shake128_ctx_clone(&d, &c); shake128_squeezeblocks(o + first * SHAKE128_RATE, nb - first, &d); shake128_squeezeblocks(o2 + first * SHAKE128_RATE, nb - first, &c);
    } else {
        shake256ctx c, d; memset(&c, 0x77, sizeof c); memset(&d, 0x99, sizeof d); shake256_absorb(&c, m, n); shake256_squeezeblocks(o, first, &c); memcpy(o2, o, first * SHAKE256_RATE);
        shake256_ctx_clone(&d, &c); shake256_squeezeblocks(o + first * SHAKE256_RATE, nb - first, &d); shake256_squeezeblocks(o2 + first * SHAKE256_RATE, nb - first, &c);
    }
}
