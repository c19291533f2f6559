/* AES-256 (FIPS 197), the SP 800-90A CTR_DRBG without derivation function, and the NIST seed expander,
 * written from the standards; straightforward and slow. */
#include <stdint.h>
#include <string.h>
typedef unsigned char u8;
static u8 mulx(u8 a, u8 b) { u8 r = 0; for (int i = 0; i < 8; i++) { if (b >> i & 1) r ^= a; a = (u8)(a << 1) ^ (a & 0x80 ? 0x1b : 0); } return r; }
static u8 SB[256]; static int ready;
static void tables(void) {
    if (ready) return;
    for (int x = 0; x < 256; x++) {
        u8 inv = 0;
        for (int y = 1; y < 256 && x; y++) if (mulx((u8)x, (u8)y) == 1) inv = (u8)y;
        u8 s = 0x63;
        for (int k = 0; k < 5; k++) s ^= (u8)(inv << k | inv >> (8 - k));
        SB[x] = s;
    }
    ready = 1;
}
void ma_aes256(const u8 key[32], const u8 in[16], u8 out[16]) {
    u8 w[60][4], st[16], t[16]; tables();
    for (int i = 0; i < 8; i++) memcpy(w[i], key + 4 * i, 4);
    u8 rc = 1;
    for (int i = 8; i < 60; i++) {
        u8 x[4]; memcpy(x, w[i - 1], 4);
        if (i % 8 == 0) { u8 a = x[0]; x[0] = SB[x[1]] ^ rc; x[1] = SB[x[2]]; x[2] = SB[x[3]]; x[3] = SB[a]; rc = mulx(rc, 2); }
        else if (i % 8 == 4) for (int j = 0; j < 4; j++) x[j] = SB[x[j]];
        for (int j = 0; j < 4; j++) w[i][j] = w[i - 8][j] ^ x[j];
    }
    for (int i = 0; i < 16; i++) st[i] = in[i] ^ w[i / 4][i % 4];
    for (int r = 1; r <= 14; r++) {
        for (int c = 0; c < 4; c++) for (int j = 0; j < 4; j++) t[4 * c + j] = SB[st[4 * ((c + j) % 4) + j]];
        for (int c = 0; c < 4; c++) {
            u8 *a = t + 4 * c;
            for (int j = 0; j < 4; j++)
                st[4 * c + j] = r == 14 ? a[j] : (u8)(mulx(a[j], 2) ^ mulx(a[(j + 1) % 4], 3) ^ a[(j + 2) % 4] ^ a[(j + 3) % 4]);
        }
        for (int i = 0; i < 16; i++) st[i] ^= w[4 * r + i / 4][i % 4];
    }
    memcpy(out, st, 16);
}
static void inc(u8 *v, int from) { for (int j = 15; j >= from; j--) if (++v[j]) break; }
typedef struct { u8 K[32], V[16]; } drbg;
static void upd(drbg *d, const u8 *data) {
    u8 t[48];
    for (int i = 0; i < 3; i++) { inc(d->V, 0); ma_aes256(d->K, d->V, t + 16 * i); }
    if (data) for (int i = 0; i < 48; i++) t[i] ^= data[i];
    memcpy(d->K, t, 32); memcpy(d->V, t + 32, 16);
}
void ma_drbg_init(drbg *d, const u8 *entropy, const u8 *pers) {
    u8 s[48]; for (int i = 0; i < 48; i++) s[i] = entropy[i] ^ (pers ? pers[i] : 0);
    memset(d, 0, sizeof *d); upd(d, s);
}
void ma_drbg_bytes(drbg *d, u8 *x, uint64_t n) {
    u8 b[16];
    for (uint64_t i = 0; i < n; i++) { if (i % 16 == 0) { inc(d->V, 0); ma_aes256(d->K, d->V, b); } x[i] = b[i % 16]; }
    upd(d, 0);
}
/* bytes [0, n) of the expander stream of (seed, diversifier, maxlen), the 32-bit counter starting at c0 */
void ma_expand(const u8 *seed, const u8 *div, uint64_t maxlen, uint32_t c0, u8 *x, uint64_t n) {
    u8 c[16], b[16]; memcpy(c, div, 8);
    for (int i = 0; i < 4; i++) { c[8 + i] = (u8)(maxlen >> (24 - 8 * i)); c[12 + i] = (u8)(c0 >> (24 - 8 * i)); }
    for (uint64_t i = 0; i < n; i++) { if (i % 16 == 0) { ma_aes256(seed, c, b); inc(c, 12); } x[i] = b[i % 16]; }
}
