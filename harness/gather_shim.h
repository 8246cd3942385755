/* Forced into sanitizer builds of the AVX2 configuration: sanitizers do not
   look inside the gather instruction, so its 32-bit loads are spelled out. */
#ifndef GATHER_SHIM_H
#define GATHER_SHIM_H
#include <immintrin.h>
#include <string.h>
static inline __m256i shim_gather_epi32(const void *base, __m256i vi, int scale)
{
  int idx[8], out[8];
  const char *b = (const char *)base;
  memcpy(idx, &vi, sizeof idx);
  for (int i = 0; i < 8; i++)
    {
      /* byte loads: the instruction has no alignment requirement */
      const volatile unsigned char *p = (const volatile unsigned char *)(b + (long)idx[i] * scale);
      out[i] = (int)(p[0] | (unsigned)p[1] << 8 | (unsigned)p[2] << 16 | (unsigned)p[3] << 24);
    }
  __m256i r;
  memcpy(&r, out, sizeof r);
  return r;
}
#undef _mm256_i32gather_epi32
#define _mm256_i32gather_epi32(b, i, s) shim_gather_epi32((b), (i), (s))
#endif
