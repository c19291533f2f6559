/* The NEON intrinsics, on vectors of the compiler: lets a little-endian machine of any
 * architecture execute the NEON sources. Each one follows its definition in the Arm C
 * Language Extensions lane by lane. Vectors convert freely (-flax-vector-conversions). */
#pragma once
#include <stdint.h>
#include <string.h>
typedef uint8_t  __Uint8x8_t  __attribute__((vector_size(8)));
typedef uint8_t  __Uint8x16_t __attribute__((vector_size(16)));
typedef uint16_t __Uint16x4_t __attribute__((vector_size(8)));
typedef uint16_t __Uint16x8_t __attribute__((vector_size(16)));
typedef uint32_t __Uint32x2_t __attribute__((vector_size(8)));
typedef uint32_t __Uint32x4_t __attribute__((vector_size(16)));
typedef uint64_t __Uint64x1_t __attribute__((vector_size(8)));
typedef uint64_t __Uint64x2_t __attribute__((vector_size(16)));
typedef int8_t   __Int8x16_t  __attribute__((vector_size(16)));
typedef int16_t  __Int16x8_t  __attribute__((vector_size(16)));
typedef __Uint8x8_t uint8x8_t; typedef __Uint8x16_t uint8x16_t; typedef __Uint16x4_t uint16x4_t; typedef __Uint16x8_t uint16x8_t;
typedef __Uint32x2_t uint32x2_t; typedef __Uint32x4_t uint32x4_t; typedef __Uint64x1_t uint64x1_t; typedef __Uint64x2_t uint64x2_t;
typedef __Int8x16_t int8x16_t; typedef __Int16x8_t int16x8_t;
#define VN static inline __attribute__((always_inline, unused))
#define VN_LANES(W, T, V, n) \
VN V vld1q_##W(const T *p) { V r; memcpy(&r, p, 16); return r; } \
VN void vst1q_##W(T *p, V a) { memcpy(p, &a, 16); } \
VN V vaddq_##W(V a, V b) { return a + b; } \
VN V vsubq_##W(V a, V b) { return a - b; } \
VN V vandq_##W(V a, V b) { return a & b; } \
VN V vorrq_##W(V a, V b) { return a | b; } \
VN V veorq_##W(V a, V b) { return a ^ b; } \
VN V vbicq_##W(V a, V b) { return a & ~b; } \
VN V vdupq_n_##W(T x) { V r; for (int i = 0; i < n; i++) r[i] = x; return r; } \
VN V vmovq_n_##W(T x) { return vdupq_n_##W(x); } \
VN V vzip1q_##W(V a, V b) { V r; for (int i = 0; i < n / 2; i++) { r[2 * i] = a[i]; r[2 * i + 1] = b[i]; } return r; } \
VN V vzip2q_##W(V a, V b) { V r; for (int i = 0; i < n / 2; i++) { r[2 * i] = a[n / 2 + i]; r[2 * i + 1] = b[n / 2 + i]; } return r; } \
VN V vuzp1q_##W(V a, V b) { V r; for (int i = 0; i < n / 2; i++) { r[i] = a[2 * i]; r[n / 2 + i] = b[2 * i]; } return r; } \
VN V vuzp2q_##W(V a, V b) { V r; for (int i = 0; i < n / 2; i++) { r[i] = a[2 * i + 1]; r[n / 2 + i] = b[2 * i + 1]; } return r; } \
VN V vshrq_n_##W(V a, int s) { V r; for (int i = 0; i < n; i++) r[i] = s >= (int) (8 * sizeof(T)) ? 0 : a[i] >> s; return r; } \
VN V vshlq_n_##W(V a, int s) { V r; for (int i = 0; i < n; i++) r[i] = (T) (a[i] << s); return r; } \
VN V vceqq_##W(V a, V b) { V r; for (int i = 0; i < n; i++) r[i] = a[i] == b[i] ? (T) -1 : 0; return r; } \
VN V vcgtq_##W(V a, V b) { V r; for (int i = 0; i < n; i++) r[i] = a[i] > b[i] ? (T) -1 : 0; return r; } \
VN V vcgeq_##W(V a, V b) { V r; for (int i = 0; i < n; i++) r[i] = a[i] >= b[i] ? (T) -1 : 0; return r; }
VN_LANES(u8, uint8_t, uint8x16_t, 16)
VN_LANES(u16, uint16_t, uint16x8_t, 8)
VN_LANES(u32, uint32_t, uint32x4_t, 4)
VN_LANES(u64, uint64_t, uint64x2_t, 2)
#define VN_NARROW(W, T, V, n) \
VN V vmulq_##W(V a, V b) { V r; for (int i = 0; i < n; i++) r[i] = (T) ((uint32_t) a[i] * b[i]); return r; } \
VN V vmlaq_##W(V c, V a, V b) { return c + vmulq_##W(a, b); } \
VN V vmlsq_##W(V c, V a, V b) { return c - vmulq_##W(a, b); } \
VN V vminq_##W(V a, V b) { V r; for (int i = 0; i < n; i++) r[i] = a[i] < b[i] ? a[i] : b[i]; return r; } \
VN V vmaxq_##W(V a, V b) { V r; for (int i = 0; i < n; i++) r[i] = a[i] > b[i] ? a[i] : b[i]; return r; }
VN_NARROW(u8, uint8_t, uint8x16_t, 16)
VN_NARROW(u16, uint16_t, uint16x8_t, 8)
VN_NARROW(u32, uint32_t, uint32x4_t, 4)
VN uint8x8_t vget_low_u8(uint8x16_t a) { uint8x8_t r; memcpy(&r, &a, 8); return r; }
VN uint8x8_t vget_high_u8(uint8x16_t a) { uint8x8_t r; memcpy(&r, (uint8_t *) &a + 8, 8); return r; }
VN uint8x16_t vcombine_u8(uint8x8_t a, uint8x8_t b) { uint8x16_t r; memcpy(&r, &a, 8); memcpy((uint8_t *) &r + 8, &b, 8); return r; }
VN uint16x8_t vmovl_u8(uint8x8_t a) { uint16x8_t r; for (int i = 0; i < 8; i++) r[i] = a[i]; return r; }
VN uint8x8_t vmovn_u16(uint16x8_t a) { uint8x8_t r; for (int i = 0; i < 8; i++) r[i] = (uint8_t) a[i]; return r; }
VN uint16x8_t vmull_u8(uint8x8_t a, uint8x8_t b) { uint16x8_t r; for (int i = 0; i < 8; i++) r[i] = (uint16_t) (a[i] * b[i]); return r; }
VN uint16x8_t vmull_high_u8(uint8x16_t a, uint8x16_t b) { return vmull_u8(vget_high_u8(a), vget_high_u8(b)); }
VN uint8x16_t vqtbl1q_u8(uint8x16_t t, uint8x16_t i) { uint8x16_t r; for (int k = 0; k < 16; k++) r[k] = i[k] < 16 ? t[i[k]] : 0; return r; }
VN int8x16_t vqtbl1q_s8(int8x16_t t, uint8x16_t i) { return (int8x16_t) vqtbl1q_u8((uint8x16_t) t, i); }
