/* the KAT generator's DRBG and seed expander, for the driver */
#include "KAT_NIST_rng.h"
extern KAT_NIST_AES256_CTR_DRBG_struct DRBG_ctx;
void vk_init(unsigned char *e, unsigned char *p, int s) { KAT_NIST_randombytes_init(e, p, s); }
int vk_bytes(unsigned char *x, unsigned long long n) { return KAT_NIST_randombytes(x, n); }
void vk_set(const unsigned char *k, const unsigned char *v) { memcpy(DRBG_ctx.Key, k, 32); memcpy(DRBG_ctx.V, v, 16); }
void vk_get(unsigned char *k, unsigned char *v) { memcpy(k, DRBG_ctx.Key, 32); memcpy(v, DRBG_ctx.V, 16); }
unsigned vk_xsize(void) { return sizeof(KAT_NIST_AES_XOF_struct); }
int vk_xinit(void *c, unsigned char *s, unsigned char *d, unsigned long m) { return KAT_NIST_seedexpander_init(c, s, d, m); }
int vk_x(void *c, unsigned char *x, unsigned long n) { return KAT_NIST_seedexpander(c, x, n); }
