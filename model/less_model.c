#include "less_model.h"
#include <stdlib.h>
#include <string.h>

/* ------------------------------------------------------------------ parameters */
static const struct { const char *name; int cat, N, K, kp, T, W, S, maxbytes; } TAB[] = {
    {"1_BALANCED",     1, 252, 126, 2,  247, 30, 16, 1472},
    {"1_INTERMEDIATE", 1, 252, 126, 4,  244, 20, 16, 1152},
    {"1_SHORT_SIG",    1, 252, 126, 8,  198, 17, 16, 1056},
    {"3_BALANCED",     3, 400, 200, 2,  759, 33, 24, 3912},
    {"3_SHORT_SIG",    3, 400, 200, 3,  895, 26, 24, 3264},
    {"5_BALANCED",     5, 548, 274, 2, 1352, 40, 32, 7168},
    {"5_SHORT_SIG",    5, 548, 274, 3,  907, 37, 32, 5600},
};
int lm_num_sets(void) { return 7; }
const char *lm_set_name(int s) { return TAB[s].name; }
static int bits_for(unsigned v) { int b = 1; while (v >>= 1) b++; return b; }
int lm_param(int s, lm_par *p)
{
    if (s < 0 || s > 6) return -1;
    memset(p, 0, sizeof *p);
    p->cat = TAB[s].cat; p->N = TAB[s].N; p->K = TAB[s].K; p->kp = TAB[s].kp;
    p->T = TAB[s].T; p->W = TAB[s].W; p->S = TAB[s].S;
    p->maxseeds = TAB[s].maxbytes / p->S;
    p->D = 2 * p->S;
    p->L = 1 << bits_for(p->T);
    p->pos_bits = bits_for(p->N);
    p->rref_bytes = (7 * (p->N - p->K) * p->K + 7) / 8 + (p->N + 7) / 8;
    p->mono_bytes = (7 * p->K + 7) / 8 + (p->pos_bits * p->K + 7) / 8;
    p->pk_bytes = p->S + (p->kp - 1) * p->rref_bytes;
    p->sk_bytes = 3 * p->S;
    p->sig_max = 2 * p->D + p->W * p->mono_bytes + TAB[s].maxbytes + 1;
    return 0;
}

/* ------------------------------------------------------------------ FIPS 202 */
static const uint64_t RC[24] = {
    0x0000000000000001ULL, 0x0000000000008082ULL, 0x800000000000808aULL, 0x8000000080008000ULL,
    0x000000000000808bULL, 0x0000000080000001ULL, 0x8000000080008081ULL, 0x8000000000008009ULL,
    0x000000000000008aULL, 0x0000000000000088ULL, 0x0000000080008009ULL, 0x000000008000000aULL,
    0x000000008000808bULL, 0x800000000000008bULL, 0x8000000000008089ULL, 0x8000000000008003ULL,
    0x8000000000008002ULL, 0x8000000000000080ULL, 0x000000000000800aULL, 0x800000008000000aULL,
    0x8000000080008081ULL, 0x8000000000008080ULL, 0x0000000080000001ULL, 0x8000000080008008ULL};
static inline uint64_t rotl(uint64_t v, int n) { return n ? (v << n) | (v >> (64 - n)) : v; }
static void keccak_p(uint64_t a[25])
{
    /* rho offsets and pi destinations indexed by lane x+5y */
    static const int RHO[25] = {0, 1, 62, 28, 27, 36, 44, 6, 55, 20, 3, 10, 43, 25, 39, 41, 45, 15, 21, 8, 18, 2, 61, 56, 14};
    uint64_t b[25], c[5], d;
    for (int r = 0; r < 24; r++) {
        for (int x = 0; x < 5; x++) c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
        for (int x = 0; x < 5; x++) {
            d = c[(x + 4) % 5] ^ rotl(c[(x + 1) % 5], 1);
            for (int y = 0; y < 5; y++) a[x + 5 * y] ^= d;
        }
        for (int y = 0; y < 5; y++)
            for (int x = 0; x < 5; x++)
                b[y + 5 * ((2 * x + 3 * y) % 5)] = rotl(a[x + 5 * y], RHO[x + 5 * y]);
        for (int y = 0; y < 5; y++)
            for (int x = 0; x < 5; x++)
                a[x + 5 * y] = b[x + 5 * y] ^ (~b[(x + 1) % 5 + 5 * y] & b[(x + 2) % 5 + 5 * y]);
        a[0] ^= RC[r];
    }
}
void lm_init(lm_sponge *c, unsigned rate, unsigned char ds)
{ memset(c, 0, sizeof *c); c->rate = rate; c->ds = ds; }
static inline void xbyte(lm_sponge *c, unsigned i, uint8_t v) { c->s[i >> 3] ^= (uint64_t)v << (8 * (i & 7)); }
void lm_absorb(lm_sponge *c, const uint8_t *in, size_t n)
{
    while (n) {
        if (c->pos == 0 && n >= c->rate) {
            for (unsigned i = 0; i < c->rate / 8; i++) { uint64_t w; memcpy(&w, in + 8 * i, 8); c->s[i] ^= w; }
            keccak_p(c->s); in += c->rate; n -= c->rate; continue;
        }
        xbyte(c, c->pos++, *in++); n--;
        if (c->pos == c->rate) { keccak_p(c->s); c->pos = 0; }
    }
}
/* chosen bytes in place of the beginning of the stream of the next sponge, or of a running one from here on */
static const uint8_t *scr; static size_t scrn, scrpos; static lm_sponge *scrfor; static int scrwait;
void lm_script(const uint8_t *s, size_t n, lm_sponge *running) { scr = s; scrn = n; scrpos = 0; scrfor = s ? running : 0; scrwait = s && !running; }
void lm_squeeze(lm_sponge *c, uint8_t *out, size_t n)
{
    uint8_t *first = out; size_t want = n;
    if (!c->sq) {
        if (scrwait) { scrwait = 0; scrfor = c; scrpos = 0; } else if (scrfor == c) scrfor = 0;
        xbyte(c, c->pos, c->ds); xbyte(c, c->rate - 1, 0x80);
        c->sq = 1; c->pos = c->rate;
    }
    while (n--) {
        if (c->pos == c->rate) { keccak_p(c->s); c->pos = 0; }
        *out++ = (uint8_t)(c->s[c->pos >> 3] >> (8 * (c->pos & 7))); c->pos++;
    }
    if (scr && scrfor == c) {
        if (scrpos < scrn) memcpy(first, scr + scrpos, scrn - scrpos < want ? scrn - scrpos : want);
        scrpos += want;
    }
}
void lm_hash(unsigned rate, unsigned char ds, const uint8_t *in, size_t n, uint8_t *out, size_t outlen)
{ lm_sponge c; lm_init(&c, rate, ds); lm_absorb(&c, in, n); lm_squeeze(&c, out, outlen); }
void lm_rng_init(const lm_par *p, lm_sponge *c, const uint8_t *seed, size_t n)
{ lm_init(c, p->cat == 1 ? 168 : 136, 0x1f); lm_absorb(c, seed, n); }
static void sha3_for(const lm_par *p, lm_sponge *c) { lm_init(c, 200 - 2 * p->D, 0x06); }

/* ------------------------------------------------------------------ field */
static uint8_t INV[127]; static int tabs;
static void mk(void)
{ if (tabs) return; for (int a = 1; a < 127; a++) for (int b = 1; b < 127; b++) if (a * b % 127 == 1) INV[a] = b; tabs = 1; }
__attribute__((constructor)) static void ctor(void) { mk(); }
int lm_inv(int x) { return INV[x % 127]; }

/* rejection sampling of `bits`-bit fields of consecutive little-endian 64-bit words */
void lm_sample(lm_sponge *c, uint8_t *out, size_t n, int lo, int hi)
{
    int span = hi - lo, bits = bits_for(span); size_t k = 0;
    for (;;) {
        uint8_t b[8]; uint64_t w = 0; lm_squeeze(c, b, 8);
        for (int i = 7; i >= 0; i--) w = (w << 8) | b[i];
        for (int i = 0; i < 64 / bits; i++) {
            int v = (int)((w >> (i * bits)) & ((1u << bits) - 1));
            if (v <= span) out[k++] = (uint8_t)(v + lo);
            if (k >= n) return;
        }
    }
}
void lm_monomial(const lm_par *p, lm_sponge *c, uint8_t *coef, uint16_t *perm)
{
    int N = p->N; uint8_t *r = malloc(4 * (size_t)N);
    lm_sample(c, coef, N, 1, 126);
    for (int i = 0; i < N; i++) perm[i] = (uint16_t)i;
    lm_squeeze(c, r, 4 * (size_t)N);
    for (int i = 0; i + 1 < N; i++) {
        uint32_t u = (uint32_t)r[4 * i] | (uint32_t)r[4 * i + 1] << 8 | (uint32_t)r[4 * i + 2] << 16 | (uint32_t)r[4 * i + 3] << 24;
        int j = i + (int)(u % (uint32_t)(N - i));
        uint16_t t = perm[i]; perm[i] = perm[j]; perm[j] = t;
    }
    free(r);
}
void lm_monomial_salted(const lm_par *p, const uint8_t *seed, const uint8_t *salt, unsigned round, uint8_t *coef, uint16_t *perm)
{
    uint8_t buf[32 + 64 + 2]; lm_sponge c;
    memcpy(buf, seed, p->S); memcpy(buf + p->S, salt, p->D);
    buf[p->S + p->D] = round & 255; buf[p->S + p->D + 1] = round >> 8;
    lm_rng_init(p, &c, buf, p->S + p->D + 2); lm_monomial(p, &c, coef, perm);
}
void lm_monomial_prikey(const lm_par *p, const uint8_t *seed, uint8_t *coef, uint16_t *perm)
{ lm_sponge c; lm_rng_init(p, &c, seed, p->D); lm_monomial(p, &c, coef, perm); }

void lm_challenge(const lm_par *p, const uint8_t *digest, uint8_t *x)
{
    lm_sponge c; lm_rng_init(p, &c, digest, p->D);
    int vb = bits_for(p->kp - 1), pb = bits_for(p->T - 1), placed = 0;
    memset(x, 0, p->T);
    while (placed < p->W) {
        uint8_t b[2]; lm_squeeze(&c, b, 2);
        unsigned u = b[0] | b[1] << 8, v = u & ((1u << vb) - 1), pos = (u >> vb) & ((1u << pb) - 1);
        if (v >= (unsigned)p->kp || pos >= (unsigned)p->T || x[pos]) continue;
        x[pos] = v; if (v) placed++;
    }
}

/* ------------------------------------------------------------------ seed tree */
static void expand_node(const lm_par *p, const uint8_t *salt, uint8_t *tree, uint32_t i)
{
    uint8_t buf[96]; lm_sponge c;
    memcpy(buf, salt, p->D); memcpy(buf + p->D, tree + (size_t)i * p->S, p->S);
    lm_rng_init(p, &c, buf, p->D + p->S);
    lm_squeeze(&c, tree + (size_t)(2 * i + 1) * p->S, 2 * p->S);
}
void lm_tree(const lm_par *p, const uint8_t *root, const uint8_t *salt, uint8_t *tree)
{
    memcpy(tree, root, p->S);
    for (int i = 0; i < p->L - 1; i++) expand_node(p, salt, tree, i);
}
int lm_cover(const lm_par *p, const uint8_t *hidden, uint32_t *nodes)
{
    /* count hidden leaves under each node with prefix sums, level by level */
    int L = p->L, n = 0; int *pre = calloc(L + 1, sizeof(int));
    for (int i = 0; i < L; i++) pre[i + 1] = pre[i] + (i < p->T && hidden[i] ? 1 : 0);
    for (int width = L, base = 0, cnt = 1; width >= 1; base += cnt, cnt *= 2, width /= 2)
        for (int j = 0; j < cnt; j++) {
            if (pre[(j + 1) * width] - pre[j * width]) continue;
            if (width < L) { int pj = j / 2, pw = 2 * width; if (!(pre[(pj + 1) * pw] - pre[pj * pw])) continue; }
            if (nodes) nodes[n] = base + j;
            n++;
        }
    free(pre); return n;
}

/* ------------------------------------------------------------------ linear algebra */
#define ST(p) (((p)->N + 63) / 64 * 64)
static int rref_s(const lm_par *p, uint8_t *M, int st, uint8_t *piv)
{
    int r = 0, N = p->N, K = p->K;
    memset(piv, 0, N);
    for (int c = 0; c < N && r < K; c++) {
        int q = r; while (q < K && !M[(size_t)q * st + c]) q++;
        if (q == K) continue;
        piv[c] = 1;
        uint8_t *R = M + (size_t)r * st;
        if (q != r) { uint8_t *Qr = M + (size_t)q * st; for (int j = 0; j < st; j++) { uint8_t t = R[j]; R[j] = Qr[j]; Qr[j] = t; } }
        int inv = INV[R[c]];
        for (int j = 0; j < st; j++) R[j] = (uint8_t)((R[j] * inv) % 127);
        int j0 = c / 64 * 64;
        for (int i = 0; i < K; i++) {
            uint8_t *X = M + (size_t)i * st; unsigned g;
            if (i == r || !X[c]) continue;
            g = 127 - X[c];
            for (int j = j0; j < st; j++) {
                uint16_t x = (uint16_t)(X[j] + g * R[j]);
                x = (uint16_t)((x & 127) + (x >> 7)); x = (uint16_t)((x & 127) + (x >> 7));
                X[j] = (uint8_t)((x + ((x + 1) >> 7)) & 127);
            }
        }
        r++;
    }
    return r;
}
static uint8_t *wide(const lm_par *p) { void *q = NULL; if (posix_memalign(&q, 64, (size_t)p->K * ST(p))) abort(); memset(q, 0, (size_t)p->K * ST(p)); return q; }
int lm_rref(const lm_par *p, uint8_t *full, uint8_t *piv)
{
    uint8_t *w = wide(p); int st = ST(p);
    for (int i = 0; i < p->K; i++) memcpy(w + (size_t)i * st, full + (size_t)i * p->N, p->N);
    int r = rref_s(p, w, st, piv);
    for (int i = 0; i < p->K; i++) memcpy(full + (size_t)i * p->N, w + (size_t)i * st, p->N);
    free(w); return r;
}
static __thread int cmpK;
static int colcmp(const void *a, const void *b) { return memcmp(a, b, cmpK); }
void lm_normal(const lm_par *p, const uint8_t *full, const uint8_t *piv, uint8_t *out)
{
    int K = p->K, N = p->N, n = 0, C = N - K;
    uint8_t *cols = malloc((size_t)C * K);
    for (int c = 0; c < N; c++) {
        if (piv[c]) continue;
        uint8_t *d = cols + (size_t)n * K; int f = 0;
        for (int i = 0; i < K; i++) { d[i] = full[(size_t)i * N + c]; if (!f && d[i]) f = INV[d[i]]; }
        for (int i = 0; i < K; i++) d[i] = (uint8_t)((d[i] * f) % 127);
        if (++n == C) break;
    }
    cmpK = K; qsort(cols, n, K, colcmp);
    for (int i = 0; i < K; i++) for (int c = 0; c < C; c++) out[(size_t)i * C + c] = cols[(size_t)c * K + i];
    free(cols);
}
void lm_g0(const lm_par *p, const uint8_t *seed, uint8_t *full)
{
    lm_sponge c; int K = p->K, N = p->N; lm_rng_init(p, &c, seed, p->S);
    memset(full, 0, (size_t)K * N);
    for (int i = 0; i < K; i++) { full[(size_t)i * N + i] = 1; lm_sample(&c, full + (size_t)i * N + K, N - K, 0, 126); }
}

/* little-endian bit strings */
static void put(uint8_t *o, size_t *bit, unsigned v, int n)
{ for (int i = 0; i < n; i++, (*bit)++) if ((v >> i) & 1) o[*bit >> 3] |= 1u << (*bit & 7); }
static unsigned get(const uint8_t *in, size_t *bit, int n)
{ unsigned v = 0; for (int i = 0; i < n; i++, (*bit)++) v |= (unsigned)((in[*bit >> 3] >> (*bit & 7)) & 1) << i; return v; }

void lm_pack_rref(const lm_par *p, const uint8_t *full, const uint8_t *piv, uint8_t *out)
{
    size_t b = 0; memset(out, 0, p->rref_bytes);
    for (int c = 0; c < p->N; c++) put(out, &b, piv[c] != 0, 1);
    b = 8 * (size_t)((p->N + 7) / 8);
    for (int i = 0; i < p->K; i++) for (int c = 0; c < p->N; c++) if (!piv[c]) put(out, &b, full[(size_t)i * p->N + c], 7);
}
int lm_unpack_rref(const lm_par *p, const uint8_t *in, uint8_t *full)
{
    size_t b = 0; int n = 0, ok = 1; uint8_t piv[640];
    for (int c = 0; c < p->N; c++) { piv[c] = get(in, &b, 1); n += piv[c]; }
    if (n != p->K) return 0;
    b = 8 * (size_t)((p->N + 7) / 8);
    for (int i = 0; i < p->K; i++) {
        int k = 0;
        for (int c = 0; c < p->N; c++) {
            uint8_t v;
            if (piv[c]) v = (k++ == i); else { v = get(in, &b, 7); if (v >= 127) ok = 0; }
            full[(size_t)i * p->N + c] = v;
        }
    }
    return ok;
}
void lm_pack_action(const lm_par *p, const uint16_t *perm, const uint8_t *coef, uint8_t *out)
{
    /* positions then coefficients form one contiguous bit string in every set */
    size_t b = 0; memset(out, 0, p->mono_bytes);
    for (int i = 0; i < p->K; i++) put(out, &b, perm[i], p->pos_bits);
    for (int i = 0; i < p->K; i++) put(out, &b, coef[i], 7);
}
void lm_unpack_action(const lm_par *p, const uint8_t *in, uint16_t *perm, uint8_t *coef)
{
    size_t b = 0;
    for (int i = 0; i < p->K; i++) perm[i] = (uint16_t)get(in, &b, p->pos_bits);
    for (int i = 0; i < p->K; i++) coef[i] = (uint8_t)get(in, &b, 7);
}
int lm_action_valid(const lm_par *p, const uint16_t *perm, const uint8_t *coef)
{
    uint8_t seen[1024] = {0};
    for (int i = 0; i < p->K; i++) {
        if (coef[i] < 1 || coef[i] > 126 || perm[i] >= p->N || seen[perm[i]]) return 0;
        seen[perm[i]] = 1;
    }
    return 1;
}
int lm_round(const lm_par *p, const uint8_t *full, const uint8_t *coef, const uint16_t *perm, uint8_t *V, uint16_t *aperm, uint8_t *acoef)
{
    int K = p->K, N = p->N, st = ST(p); uint8_t *w = wide(p), piv[640], *u; uint16_t src[640];
    for (int i = 0; i < K; i++) for (int j = 0; j < N; j++)
        w[(size_t)i * st + perm[j]] = (uint8_t)((full[(size_t)i * N + j] * coef[j]) % 127);
    int r = rref_s(p, w, st, piv);
    u = malloc((size_t)K * N);
    for (int i = 0; i < K; i++) memcpy(u + (size_t)i * N, w + (size_t)i * st, N);
    if (V && r == K) lm_normal(p, u, piv, V);
    for (int j = 0; j < N; j++) src[perm[j]] = (uint16_t)j;
    if (aperm) for (int c = 0, k = 0; c < N && k < K; c++) if (piv[c]) { aperm[k] = src[c]; acoef[k] = coef[src[c]]; k++; }
    free(u); free(w); return r;
}
void lm_apply_action(const lm_par *p, const uint8_t *full, const uint16_t *perm, const uint8_t *coef, uint8_t *out)
{
    int K = p->K, N = p->N, d = K; uint8_t used[640] = {0};
    for (int c = 0; c < K; c++) {
        used[perm[c]] = 1;
        for (int i = 0; i < K; i++) out[(size_t)i * N + c] = (uint8_t)((full[(size_t)i * N + perm[c]] * coef[c]) % 127);
    }
    for (int c = 0; c < N; c++) if (!used[c]) { for (int i = 0; i < K; i++) out[(size_t)i * N + d] = full[(size_t)i * N + c]; d++; }
}

/* ------------------------------------------------------------------ scheme */
static void priv_seeds(const lm_par *p, const uint8_t *sk, uint8_t *out)
{ lm_sponge c; lm_rng_init(p, &c, sk, p->D); lm_squeeze(&c, out, (size_t)(p->kp - 1) * p->D); }

void lm_keygen(const lm_par *p, lm_sponge *rng, uint8_t *pk, uint8_t *sk)
{
    int N = p->N, K = p->K; uint8_t seeds[8 * 64];
    lm_squeeze(rng, sk, p->D);
    lm_squeeze(rng, sk + p->D, p->S);
    memcpy(pk, sk + p->D, p->S);
    priv_seeds(p, sk, seeds);
    uint8_t *g = malloc((size_t)K * N), *h = malloc((size_t)K * N), piv[640], coef[640]; uint16_t perm[640];
    lm_g0(p, pk, g);
    for (int k = 0; k < p->kp - 1; k++) {
        lm_monomial_prikey(p, seeds + (size_t)k * p->D, coef, perm);      /* this is the inverse Q^-1 */
        /* Q maps column perm[j] to column j scaled by coef[j]^-1 */
        for (int i = 0; i < K; i++) for (int j = 0; j < N; j++)
            h[(size_t)i * N + j] = (uint8_t)((g[(size_t)i * N + perm[j]] * INV[coef[j]]) % 127);
        lm_rref(p, h, piv);
        lm_pack_rref(p, h, piv, pk + p->S + (size_t)k * p->rref_bytes);
    }
    free(g); free(h);
}

void lm_sign(const lm_par *p, lm_sponge *rng, const uint8_t *m, uint64_t mlen, const uint8_t *sk,
             uint8_t *sm, uint64_t *smlen, const uint8_t *force, lm_trace *tr)
{
    int K = p->K, N = p->N, T = p->T; size_t vlen = (size_t)K * (N - K);
    uint8_t root[32], seeds[8 * 64], x[1400], *tree = malloc((size_t)(2 * p->L - 1) * p->S);
    uint8_t *sig = sm + mlen, *g = malloc((size_t)K * N), *V = malloc(vlen), coef[640], qcoef[640];
    uint16_t perm[640], qperm[640];
    uint16_t *ap = malloc((size_t)T * K * 2); uint8_t *ac = malloc((size_t)T * K);
    uint32_t nodes[1400]; lm_sponge h;
    memmove(sm, m, mlen);
    priv_seeds(p, sk, seeds);
    lm_squeeze(rng, root, p->S); lm_squeeze(rng, sig, p->D);
    lm_tree(p, root, sig, tree);
    lm_g0(p, sk + p->D, g);
    sha3_for(p, &h);
    for (int i = 0; i < T; i++) {
        lm_monomial_salted(p, tree + (size_t)(p->L - 1 + i) * p->S, sig, i, coef, perm);
        lm_round(p, g, coef, perm, V, ap + (size_t)i * K, ac + (size_t)i * K);
        lm_absorb(&h, V, vlen);
    }
    lm_absorb(&h, m, mlen); lm_absorb(&h, sig, p->D);
    uint8_t *act = sig + p->D, *dig = act + (size_t)p->W * p->mono_bytes, *sto = dig + p->D;
    lm_squeeze(&h, dig, p->D);
    if (force) memcpy(x, force, T); else lm_challenge(p, dig, x);
    int n = lm_cover(p, x, nodes), e = 0;
    for (int i = 0; i < n; i++) memcpy(sto + (size_t)i * p->S, tree + (size_t)nodes[i] * p->S, p->S);
    for (int i = 0; i < T; i++) {
        if (!x[i]) continue;
        lm_monomial_prikey(p, seeds + (size_t)(x[i] - 1) * p->D, qcoef, qperm);
        uint16_t inv[640], op[640]; uint8_t oc[640];
        for (int j = 0; j < N; j++) inv[qperm[j]] = (uint16_t)j;
        for (int k = 0; k < K; k++) {
            int s = inv[ap[(size_t)i * K + k]];
            op[k] = (uint16_t)s; oc[k] = (uint8_t)((ac[(size_t)i * K + k] * qcoef[s]) % 127);
        }
        if (e < p->W) lm_pack_action(p, op, oc, act + (size_t)e * p->mono_bytes);
        e++;
    }
    sto[(size_t)n * p->S] = (uint8_t)n;
    *smlen = mlen + 2 * p->D + (size_t)p->W * p->mono_bytes + (size_t)n * p->S + 1;
    if (tr) {
        memcpy(tr->root, root, p->S); memcpy(tr->salt, sig, p->D); memcpy(tr->digest, dig, p->D);
        memcpy(tr->x, x, T); tr->nseeds = n;
        for (int i = 0; i < n && i < 256; i++) tr->nodes[i] = nodes[i];
        if (tr->tree) memcpy(tr->tree, tree, (size_t)(2 * p->L - 1) * p->S);
    }
    free(tree); free(g); free(V); free(ap); free(ac);
}

int lm_open_rec(const lm_par *p, const uint8_t *sm, uint64_t smlen, const uint8_t *pk, uint64_t *mlen, const uint8_t *force, uint8_t *recomputed)
{
    int K = p->K, N = p->N, T = p->T, rc = 0; size_t vlen = (size_t)K * (N - K);
    size_t fixed = 2 * p->D + (size_t)p->W * p->mono_bytes + 1;
    uint8_t x[1400]; uint32_t nodes[1400];
    *mlen = 0;
    if (smlen < fixed) return 1;
    unsigned cnt = sm[smlen - 1];
    if (cnt > (unsigned)p->maxseeds) return 2;
    if (smlen < fixed + (size_t)cnt * p->S) return 1;
    *mlen = smlen - fixed - (size_t)cnt * p->S;
    const uint8_t *salt = sm + *mlen, *act = salt + p->D, *dig = act + (size_t)p->W * p->mono_bytes, *sto = dig + p->D;
    if (force) memcpy(x, force, T); else lm_challenge(p, dig, x);
    int n = lm_cover(p, x, nodes);
    if ((unsigned)n != cnt) return 3;
    uint8_t *G = malloc((size_t)K * N * p->kp);
    for (int k = 1; k < p->kp; k++)
        if (!lm_unpack_rref(p, pk + p->S + (size_t)(k - 1) * p->rref_bytes, G + (size_t)K * N * k)) { free(G); return 4; }
    lm_g0(p, pk, G);
    uint16_t perm[640]; uint8_t coef[640], piv[640], rec[64];
    for (int e = 0; e < p->W; e++) {
        lm_unpack_action(p, act + (size_t)e * p->mono_bytes, perm, coef);
        if (!lm_action_valid(p, perm, coef)) { free(G); return 5; }
    }
    uint8_t *tree = calloc(2 * p->L - 1, p->S), *V = malloc(vlen), *w = malloc((size_t)K * N);
    for (int i = 0; i < n; i++) memcpy(tree + (size_t)nodes[i] * p->S, sto + (size_t)i * p->S, p->S);
    { /* expand below published nodes */
        uint8_t *known = calloc(2 * p->L - 1, 1);
        for (int i = 0; i < n; i++) known[nodes[i]] = 1;
        for (int i = 0; i < p->L - 1; i++) if (known[i]) { expand_node(p, salt, tree, i); known[2 * i + 1] = known[2 * i + 2] = 1; }
        free(known);
    }
    lm_sponge h; sha3_for(p, &h);
    for (int i = 0, e = 0; i < T; i++) {
        if (!x[i]) {
            lm_monomial_salted(p, tree + (size_t)(p->L - 1 + i) * p->S, salt, i, coef, perm);
            lm_round(p, G, coef, perm, V, NULL, NULL);
        } else {
            lm_unpack_action(p, act + (size_t)e++ * p->mono_bytes, perm, coef);
            lm_apply_action(p, G + (size_t)K * N * x[i], perm, coef, w);
            lm_rref(p, w, piv);
            lm_normal(p, w, piv, V);
        }
        lm_absorb(&h, V, vlen);
    }
    lm_absorb(&h, sm, *mlen); lm_absorb(&h, salt, p->D);
    lm_squeeze(&h, rec, p->D);
    if (memcmp(rec, dig, p->D)) rc = 6;
    if (recomputed) memcpy(recomputed, rec, p->D);
    free(G); free(tree); free(V); free(w);
    return rc;
}
int lm_open(const lm_par *p, const uint8_t *sm, uint64_t smlen, const uint8_t *pk, uint64_t *mlen, const uint8_t *force)
{ return lm_open_rec(p, sm, smlen, pk, mlen, force, NULL); }
