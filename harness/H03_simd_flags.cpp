// @configs none, sse, avx2, use_mmx, use_sse, use_sse2, use_sse3, use_ssse3, use_sse41, use_avx, use_avx512f, has_sse3, has_ssse3, has_sse41, has_sse42, has_avx, has_avx2, full, full_mmx, full_sse, full_sse2, full_sse3, full_ssse3, full_sse41, full_sse42, full_avx, full_avx2
// @bounds every pair of 32-bit flag sets for the operators; the build configurations: x86-64 baseline; each of SSE3, SSSE3, SSE4.1, SSE4.2, AVX and AVX2 as the target without a switch; each XME_SIMD_ENABLE switch MMX to AVX512F with a target that has it, and with a target that has everything; no switch and everything (AVX512F through its predefined macro only)
// which extension the build asked for, before the header derives the ones it builds on
#if defined(XME_SIMD_ENABLE_AVX512F)
#define ASKED 9
#elif defined(XME_SIMD_ENABLE_AVX2)
#define ASKED 8
#elif defined(XME_SIMD_ENABLE_AVX)
#define ASKED 7
#elif defined(XME_SIMD_ENABLE_SSE42)
#define ASKED 6
#elif defined(XME_SIMD_ENABLE_SSE41)
#define ASKED 5
#elif defined(XME_SIMD_ENABLE_SSSE3)
#define ASKED 4
#elif defined(XME_SIMD_ENABLE_SSE3)
#define ASKED 3
#elif defined(XME_SIMD_ENABLE_SSE2)
#define ASKED 2
#elif defined(XME_SIMD_ENABLE_SSE)
#define ASKED 1
#elif defined(XME_SIMD_ENABLE_MMX)
#define ASKED 0
#else
#define ASKED -1
#endif
#include "xs.h"
#include <cstdint>
#include <xme/hal/simd_detection.hpp>
using u32 = std::uint32_t; using xme::hal::ESimd;
XS_ENTRY(e_operators) { u32 a = xs_u32("a"), b = xs_u32("b"); ESimd x{a}, y{b}; xs_check((u32)(x | y) == (a | b), "| is the union of the flags"); xs_check((u32)(x & y) == (a & b), "& is the intersection of the flags"); xs_obs_u64("or", (u32)(x | y)); }
XS_ENTRY(e_flags) { // distinct single bits, ordered as the extensions build on each other
  const ESimd f[] = {ESimd::mmx, ESimd::sse, ESimd::sse2, ESimd::sse3, ESimd::ssse3, ESimd::sse41, ESimd::sse42, ESimd::avx, ESimd::avx2, ESimd::avx512f}; int i = xs_choice(0, 9, "i"), j = xs_choice(0, 9, "j"); u32 v = (u32)f[i]; xs_check(v && !(v & (v - 1)), "every flag is one bit"); xs_check(((u32)(f[i] & f[j]) != 0) == (i == j), "the flags are distinct");
}
XS_ENTRY(e_configuration) {
  const u32 sup = (u32)xme::hal::supported_simd, en = (u32)xme::hal::enabled_simd; const ESimd f[] = {ESimd::mmx, ESimd::sse, ESimd::sse2, ESimd::sse3, ESimd::ssse3, ESimd::sse41, ESimd::sse42, ESimd::avx, ESimd::avx2, ESimd::avx512f};
  const bool have[] = {
#ifdef __MMX__
    true,
#else
    false,
#endif
#ifdef __SSE__
    true,
#else
    false,
#endif
#ifdef __SSE2__
    true,
#else
    false,
#endif
#ifdef __SSE3__
    true,
#else
    false,
#endif
#ifdef __SSSE3__
    true,
#else
    false,
#endif
#ifdef __SSE4_1__
    true,
#else
    false,
#endif
#ifdef __SSE4_2__
    true,
#else
    false,
#endif
#ifdef __AVX__
    true,
#else
    false,
#endif
#ifdef __AVX2__
    true,
#else
    false,
#endif
#ifdef __AVX512F__
    true,
#else
    false,
#endif
  };
  const int top = ASKED;
  int i = xs_choice(0, 9, "extension"); xs_check(((sup & (u32)f[i]) != 0) == have[i], "supported_simd is what the compiler targets"); xs_check(((en & (u32)f[i]) != 0) == (i <= top), "enabling an extension enables those it builds on, and no other"); xs_check(!(sup >> 10) && !(en >> 10), "no other bits"); xs_check((en & ~sup) == 0 || top < 0, "enabled extensions are supported in these configurations");
}
