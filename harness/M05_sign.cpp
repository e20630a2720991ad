// @bounds every value of int8, int16, int32, int64, float and double (NaN, infinities, both zeros), every long double below 2^20 as a real number, also scaled by 2^-600 and 2^600; vectors of 1 to 5 components, one free component in vectors of 8, 9, 17 and 40
#include "mathx.hpp"
using namespace mx;
template <typename T> static void one() { T n = sym<T>("n"); auto s = mx::sign(n); static_assert(std::is_same_v<decltype(s), T>); if (n > 0) { xs_check(s == T(1), "1 for positive"); xs_reach("positive"); } else if (n < 0) { xs_check(s == T(-1), "-1 for negative"); xs_reach("negative"); } else if (n == 0) { xs_check(s == T(0), "0 for zero"); xs_reach("zero"); } }
XS_ENTRY(e_i8) { one<int8_t>(); } XS_ENTRY(e_i16) { one<int16_t>(); } XS_ENTRY(e_i32) { one<int32_t>(); } XS_ENTRY(e_i64) { one<int64_t>(); } XS_ENTRY(e_f) { one<float>(); } XS_ENTRY(e_d) { one<double>(); }
template <typename T, size_t N> static void vec() { const auto v = bvec<T, N>(); auto s = mx::sign(v); static_assert(std::is_same_v<decltype(s), Vector<T, N>>); for (size_t i = 0; i < N; i++) { T n = v[i]; if (n == n) xs_check(s[i] == (n > 0 ? T(1) : n < 0 ? T(-1) : T(0)), "each component is the sign of that component"); } xs_reach("vector"); }
XS_ENTRY(e_v2) { vec<float, 2>(); } XS_ENTRY(e_v3) { vec<int32_t, 3>(); } XS_ENTRY(e_v4) { vec<float, 4>(); } XS_ENTRY(e_v5) { vec<double, 5>(); } XS_ENTRY(e_v2i) { vec<int8_t, 2>(); } XS_ENTRY(e_v4i) { vec<int64_t, 4>(); } XS_ENTRY(e_v5i) { vec<int16_t, 5>(); }
// one free component among fixed ones
template <typename T, size_t N> static void wide() { Vector<T, N> v; for (size_t i = 0; i < N; i++) v[i] = T((int)(i % 3) - 1); size_t k = xs_choice(0, N - 1, "component"); v[k] = sym<T>("n"); auto s = mx::sign(v); for (size_t i = 0; i < N; i++) { T n = v[i]; if (n == n) xs_check(s[i] == (n > 0 ? T(1) : n < 0 ? T(-1) : T(0)), "each component is the sign of that component"); } }
template <typename T> static void sizes() { switch (xs_choice(0, 8, "N")) { case 0: vec<T, 2>(); break; case 1: vec<T, 3>(); break; case 2: vec<T, 4>(); break; case 3: vec<T, 5>(); break; case 4: wide<T, 8>(); break; case 5: wide<T, 9>(); break; case 6: wide<T, 17>(); break; case 7: wide<T, 40>(); break; default: vec<T, 1>(); } }
XS_ENTRY(e_sizes_f) { sizes<float>(); } XS_ENTRY(e_sizes_d) { sizes<double>(); } XS_ENTRY(e_sizes_i) { sizes<int32_t>(); } XS_ENTRY(e_sizes_i8) { sizes<int8_t>(); } XS_ENTRY(et_sizes_i64) { sizes<int64_t>(); } XS_ENTRY(et_sizes_i16) { sizes<int16_t>(); }
XS_ENTRY(e_ld) { using L = long double; L n = real<L>("n"); int k = xs_choice(0, 2, "unit"); if (k == 1) n *= L(0x1p-600); if (k == 2) n *= L(0x1p600); L s = mx::sign(n); static_assert(std::is_same_v<decltype(mx::sign(n)), L>); xs_check(near<L>(s, n > 0 ? L(1) : n < 0 ? L(-1) : L(0)), "the sign of an extended number"); Vector<L, 3> v(n, L(0), -n); auto r = mx::sign(v); xs_check(near<L>(r.x, s) && near<L>(r.y, 0) && near<L>(r.z, -s), "each component is the sign of that component"); }
