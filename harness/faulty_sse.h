/* included before every source of the 'fault' builds: SSE arithmetic with a switchable fault */
#ifdef __SSE__
#include <xmmintrin.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
#define SSE_FAULT
/* op: 0 none, 1 mul, 2 add, 3 both; lane 0..3, 4: all; every n-th operation of its kind is faulty, which starts with number phase */
struct SseFault { int op, lane, kind; float amount; unsigned every, phase, count[2]; };
extern volatile struct SseFault sse_fault;
#ifdef __cplusplus
}
#endif
static inline __m128
sse_fault_apply (__m128 v, int op)
{
  if (__builtin_expect (sse_fault.op & op, 0))
    {
      unsigned number = sse_fault.count[op - 1];
      sse_fault.count[op - 1] = number + 1 == sse_fault.every ? 0 : number + 1;
      if (number != sse_fault.phase)
        return v;
      union { __m128 v; float f[4]; } u;
      float old[4];
      int   i;
      u.v = v;
      for (i = 0; i < 4; i++)
        old[i] = u.f[i];
      for (i = 0; i < 4; i++)
        if (sse_fault.lane == i || sse_fault.lane == 4)
          switch (sse_fault.kind)
            {
              case 0: u.f[i] *= 1 + sse_fault.amount; break;
              case 1: u.f[i] = 0; break;
              case 2: u.f[i] = -u.f[i]; break;
              case 3: u.f[i] = old[(i + 1) & 3]; break;
              case 4: u.f[i] += sse_fault.amount; break;
              case 5: u.f[i] = __builtin_nanf (""); break;
              case 6: u.f[i] = __builtin_inff(); break;
            }
      return u.v;
    }
  return v;
}
static inline __m128 sse_fault_mul (__m128 a, __m128 b) { return sse_fault_apply (_mm_mul_ps (a, b), 1); }
static inline __m128 sse_fault_add (__m128 a, __m128 b) { return sse_fault_apply (_mm_add_ps (a, b), 2); }
#define _mm_mul_ps(a, b) sse_fault_mul (a, b)
#define _mm_add_ps(a, b) sse_fault_add (a, b)
#endif
