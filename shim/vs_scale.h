/* Scaled-down parameter set: the same code with fewer rounds (T), lower weight (W)
 * and the matching seed-storage bound. N, K, Q and the key count are untouched. */
#include "parameters.h"
#ifdef VS_T
#undef T
#define T VS_T
#undef W
#define W VS_W
#undef SEED_TREE_MAX_PUBLISHED_BYTES
#define SEED_TREE_MAX_PUBLISHED_BYTES (VS_MAXSEEDS * SEED_LENGTH_BYTES)
#endif
