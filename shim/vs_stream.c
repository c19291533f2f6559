/* Stream injection: the output of the next extendable-output function (or of the running system generator) is overlaid
 * with chosen bytes, so that events of vanishing probability (long runs of rejections, extreme shuffles) are driven through the
 * real sampling code. The overlay is by position in the stream, whatever the sizes of the requests. */
#include <stdint.h>
#include <string.h>
#include <stddef.h>
#include "fips202.h"
static const uint8_t *script; static size_t len, pos, given; static int mode;      /* 0 off, 1 waiting for the next start, 2 running */
void __real_shake128_inc_squeeze(uint8_t *o, size_t n, shake128incctx *s);
void __real_shake256_inc_squeeze(uint8_t *o, size_t n, shake256incctx *s);
void __real_shake128_inc_finalize(shake128incctx *s);
void __real_shake256_inc_finalize(shake256incctx *s);
static void started(void) { if (mode == 2) mode = 0; else if (mode == 1) { mode = 2; pos = 0; } }
static void overlay(uint8_t *o, size_t n)
{
    if (mode != 2) return;
    if (pos < len) { size_t k = len - pos < n ? len - pos : n; memcpy(o, script + pos, k); given += k; }
    pos += n;
}
void __wrap_shake128_inc_finalize(shake128incctx *s) { __real_shake128_inc_finalize(s); if (mode) started(); }
void __wrap_shake256_inc_finalize(shake256incctx *s) { __real_shake256_inc_finalize(s); if (mode) started(); }
void __wrap_shake128_inc_squeeze(uint8_t *o, size_t n, shake128incctx *s) { __real_shake128_inc_squeeze(o, n, s); if (mode) overlay(o, n); }
void __wrap_shake256_inc_squeeze(uint8_t *o, size_t n, shake256incctx *s) { __real_shake256_inc_squeeze(o, n, s); if (mode) overlay(o, n); }
/* running != 0: starting with the next request of whatever is being drawn from */
void vs_stream(const uint8_t *s, size_t n, int running) { script = s; len = n; pos = 0; given = 0; mode = s ? (running ? 2 : 1) : 0; }
size_t vs_stream_given(void) { return given; }
