/* component shim: generator matrices drawn from the system generator */
#include <stdint.h>
#include <string.h>
#include "parameters.h"
#include "codes.h"
void vi_grnd(uint8_t *o) { generator_mat_t g; memset(&g, 0xEE, sizeof g); generator_rnd(&g); for (int i = 0; i < K; i++) memcpy(o + i * N, g.values[i], N); }
