// Emulation of NEON intrinsics with compiler vector extensions, to run the NEON code path of the library on x86
#pragma once
#include <stdint.h>
#include <string.h>
typedef float float32_t;
typedef float float32x4_t __attribute__ ((vector_size (16)));
typedef float float32x2_t __attribute__ ((vector_size (8)));
typedef uint32_t uint32x4_t __attribute__ ((vector_size (16)));
#define NEON_FN static inline __attribute__ ((always_inline, unused))
NEON_FN float32x4_t vmulq_f32 (float32x4_t a, float32x4_t b) { return a * b; }
NEON_FN float32x4_t vaddq_f32 (float32x4_t a, float32x4_t b) { return a + b; }
NEON_FN float32x4_t vsubq_f32 (float32x4_t a, float32x4_t b) { return a - b; }
NEON_FN float32x4_t vmlaq_f32 (float32x4_t a, float32x4_t b, float32x4_t c) { return a + b * c; }
NEON_FN float32x4_t vfmaq_f32 (float32x4_t a, float32x4_t b, float32x4_t c) { return a + b * c; }
NEON_FN float32x4_t vmlsq_f32 (float32x4_t a, float32x4_t b, float32x4_t c) { return a - b * c; }
NEON_FN float32x4_t vdupq_n_f32 (float32_t x) { return (float32x4_t) { x, x, x, x }; }
NEON_FN float32x4_t vmovq_n_f32 (float32_t x) { return vdupq_n_f32 (x); }
NEON_FN float32x4_t vmulq_n_f32 (float32x4_t a, float32_t b) { return a * vdupq_n_f32 (b); }
NEON_FN float32x4_t vld1q_f32 (const float32_t *p) { float32x4_t v; memcpy (&v, p, 16); return v; }
NEON_FN void vst1q_f32 (float32_t *p, float32x4_t v) { memcpy (p, &v, 16); }
NEON_FN float32x2_t vld1_f32 (const float32_t *p) { float32x2_t v; memcpy (&v, p, 8); return v; }
NEON_FN void vst1_f32 (float32_t *p, float32x2_t v) { memcpy (p, &v, 8); }
NEON_FN float32x2_t vget_low_f32 (float32x4_t v) { return (float32x2_t) { v[0], v[1] }; }
NEON_FN float32x2_t vget_high_f32 (float32x4_t v) { return (float32x2_t) { v[2], v[3] }; }
NEON_FN float32x4_t vcombine_f32 (float32x2_t a, float32x2_t b) { return (float32x4_t) { a[0], a[1], b[0], b[1] }; }
NEON_FN float32x2_t vadd_f32 (float32x2_t a, float32x2_t b) { return a + b; }
NEON_FN float32x2_t vpadd_f32 (float32x2_t a, float32x2_t b) { return (float32x2_t) { a[0] + a[1], b[0] + b[1] }; }
NEON_FN float32x4_t vpaddq_f32 (float32x4_t a, float32x4_t b) { return (float32x4_t) { a[0] + a[1], a[2] + a[3], b[0] + b[1], b[2] + b[3] }; }
NEON_FN float32_t vaddvq_f32 (float32x4_t v) { return (v[0] + v[1]) + (v[2] + v[3]); }
#define vgetq_lane_f32(v, n) ((v)[n])
#define vget_lane_f32(v, n) ((v)[n])
