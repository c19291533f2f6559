/* sets the expander's block counter, to reach its carries and its end */
#include "KAT_NIST_rng.h"
void vk_xctr(void *c, unsigned v) { KAT_NIST_AES_XOF_struct *x = c; for (int i = 0; i < 4; i++) x->ctr[12 + i] = (unsigned char)(v >> (24 - 8 * i)); }
