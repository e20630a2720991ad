// Helpers of the math harnesses.
#pragma once
#include "track.hpp"
#include <xme/math/math.hpp>
#include <xme/math/glsl_mapping.hpp>
#include <type_traits>
namespace mx {
using namespace xme::math;
using hx::u32;
constexpr double Wide = 1048576; // components as real numbers: any magnitude an algebraic law could depend on
// Bit-exact symbolic scalars.
template <typename T> T sym(const char *n = "x") {
  if constexpr (std::is_same_v<T, float>) return xs_f32(n); else if constexpr (std::is_same_v<T, double>) return xs_f64(n);
  else if constexpr (std::is_same_v<T, bool>) return xs_u8(n) & 1;
  else if constexpr (std::is_same_v<T, long double>) return (T)xs_r64(n, -24, 24) / 3; // only as a real number
  else if constexpr (sizeof(T) == 1) return (T)xs_u8(n); else if constexpr (sizeof(T) == 2) return (T)xs_u16(n); else if constexpr (sizeof(T) == 4) return (T)xs_u32(n); else return (T)xs_u64(n);
}
// Symbolic scalars whose sums and products cannot overflow a signed type.
template <typename T> T ssym(const char *n = "x") {
  T v = sym<T>(n);
  if constexpr (std::is_signed_v<T> && std::is_integral_v<T> && sizeof(T) >= 4) xs_assume(v > -20000 && v < 20000);
  return v;
}
template <typename T> bool same(T a, T b) { if constexpr (std::is_same_v<T, float>) return xs_same_f32(a, b); else if constexpr (std::is_same_v<T, double>) return xs_same_f64(a, b); else if constexpr (std::is_same_v<T, long double>) return xs_approx_ld(a, b, 512); else return a == b; }
// Real-valued symbolic scalars: comparisons are between real functions of the inputs, not between rounded results.
template <typename T> T real(const char *n = "r", double lo = -Wide, double hi = Wide) { if constexpr (std::is_same_v<T, float>) return xs_r32(n, (float)lo, (float)hi); else if constexpr (std::is_same_v<T, long double>) return (T)xs_r64(n, 3 * lo, 3 * hi) / 3; /* uses all the bits of the type */ else return (T)xs_r64(n, lo, hi); }
template <typename T> bool near(T a, std::type_identity_t<T> b, double scale = 64) { if constexpr (std::is_same_v<T, float>) return xs_approx_f32(a, b, (float)scale); else if constexpr (std::is_same_v<T, long double>) return xs_approx_ld(a, b, scale); else return xs_approx_f64(a, b, scale); }
template <typename T, std::size_t N> Vector<T, N> rvec(double lo = -Wide, double hi = Wide) { Vector<T, N> v; for (std::size_t i = 0; i < N; i++) v[i] = real<T>("r", lo, hi); return v; }
template <typename T, std::size_t N> Vector<T, N> svec() { Vector<T, N> v; for (std::size_t i = 0; i < N; i++) v[i] = ssym<T>(); return v; }
template <typename T, std::size_t N> Vector<T, N> bvec() { Vector<T, N> v; for (std::size_t i = 0; i < N; i++) v[i] = sym<T>(); return v; }
template <typename T, std::size_t C, std::size_t R> Matrix<T, C, R> rmat(double lo = -Wide, double hi = Wide) { Matrix<T, C, R> m; for (std::size_t i = 0; i < C; i++) for (std::size_t j = 0; j < R; j++) m[i][j] = real<T>("m", lo, hi); return m; }
template <typename T, std::size_t C, std::size_t R> Matrix<T, C, R> bmat() { Matrix<T, C, R> m; for (std::size_t i = 0; i < C; i++) for (std::size_t j = 0; j < R; j++) m[i][j] = sym<T>("m"); return m; }
// Calls f with the compile-time pair of dimensions of the grid Lo..Hi that the solver picks.
template <std::size_t C, std::size_t R, std::size_t Hi, typename F> void grid_row(std::size_t r, F &f) { if (r == R) f.template operator()<C, R>(); else if constexpr (R < Hi) grid_row<C, R + 1, Hi>(r, f); }
template <std::size_t C, std::size_t Lo, std::size_t Hi, typename F> void grid_column(std::size_t c, std::size_t r, F &f) { if (c == C) grid_row<C, Lo, Hi>(r, f); else if constexpr (C < Hi) grid_column<C + 1, Lo, Hi>(c, r, f); }
template <std::size_t Lo, std::size_t Hi, typename F> void grid(F f) { std::size_t c = xs_choice(Lo, Hi, "columns"), r = xs_choice(Lo, Hi, "rows"); grid_column<Lo, Lo, Hi>(c, r, f); }
}
