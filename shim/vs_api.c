/* API-level shim: sizes and random-generator control; compiled against the
 * headers of the implementation under test. Only public constants are used. */
#include <string.h>
#include <stdint.h>
#include "api.h"
#include "rng.h"
#include "LESS.h"
#include "parameters.h"

int vs_info(int what)
{
    switch (what) {
    case 0: return N; case 1: return K; case 2: return NUM_KEYPAIRS; case 3: return T; case 4: return W;
    case 5: return SEED_LENGTH_BYTES; case 6: return MAX_PUBLISHED_SEEDS; case 7: return (int)CRYPTO_PUBLICKEYBYTES;
    case 8: return (int)CRYPTO_SECRETKEYBYTES; case 9: return (int)CRYPTO_BYTES; case 10: return SEED_TREE_MAX_PUBLISHED_BYTES;
    case 11: return (int)LESS_CRYPTO_MAX_BYTES; case 12: return (int)LESS_CRYPTO_BYTES(0); case 13: return (int)LESS_CRYPTO_BYTES(5);
    case 14: return RREF_MAT_PACKEDBYTES; case 15: return MONO_ACTION_PACKEDBYTES; case 16: return (int)NUM_LEAVES_OF_SEED_TREE;
    case 17: return (int)NUM_NODES_OF_SEED_TREE; case 18: return HASH_DIGEST_LENGTH; case 19: return PRIVATE_KEY_SEED_LENGTH_BYTES;
    case 20: return Q; case 21: return (int)sizeof(platform_csprng_state); case 22: return (int)sizeof(sign_t);
    case 23: return (int)sizeof(pubkey_t); case 24: return (int)sizeof(prikey_t); case 25: return (int)LESS_CRYPTO_BYTES(MAX_PUBLISHED_SEEDS);
    }
    return -1;
}
void vs_seed(const unsigned char *seed, unsigned n) { initialize_csprng(&platform_csprng_state, seed, n); }
void vs_randombytes(unsigned char *x, unsigned long long n) { randombytes(x, n); }
void vs_state_get(void *o) { memcpy(o, &platform_csprng_state, sizeof platform_csprng_state); }
void vs_state_set(const void *o) { memcpy(&platform_csprng_state, o, sizeof platform_csprng_state); }
int vs_keypair(unsigned char *pk, unsigned char *sk) { return crypto_sign_keypair(pk, sk); }
int vs_sign(unsigned char *sm, unsigned long long *smlen, const unsigned char *m, unsigned long long mlen, const unsigned char *sk)
{ return crypto_sign(sm, smlen, m, mlen, sk); }
int vs_open(unsigned char *m, unsigned long long *mlen, const unsigned char *sm, unsigned long long smlen, const unsigned char *pk)
{ return crypto_sign_open(m, mlen, sm, smlen, pk); }

/* dirty a good part of the stack below the caller, then return */
__attribute__((noinline, optimize("O0"))) void vs_dirty_stack(int pattern, unsigned long bytes)
{
    volatile unsigned char *p = __builtin_alloca(bytes);
    for (unsigned long i = 0; i < bytes; i++) p[i] = pattern < 0 ? (unsigned char)(i * 131 + (i >> 8) * 7 + 1) : (unsigned char)pattern;
}
