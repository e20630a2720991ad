// @bounds vectors of 2, 3, 4, 5, 8, 9, 17, 40 (thorough also 1, 7) components of float and double; every component within +-2^20 as a real number (sqrt as the exact non-negative root), also scaled by 2^-26 and by 2^22
// @assume normalize: the vector is not zero
#include "mathx.hpp"
using namespace mx;
// the unit of length: nothing depends on it
template <typename T> static T unit() { int k = xs_choice(0, 2, "unit"); return k == 0 ? T(1) : k == 1 ? T(1.0 / (1 << 26)) : T(1 << 22); }
template <typename T, size_t N> static void len() {
  const auto v = rvec<T, N>(); T q = 0; for (size_t i = 0; i < N; i++) q += v[i] * v[i]; T s = N <= 5 ? unit<T>() : T(1); const auto w = v * s; T l = w.length() / s, m = mx::length(w) / s; xs_check(l >= 0 && m >= 0, "a length is not negative"); xs_check(near<T>(l * l, q, 1024) && near<T>(m * m, q, 1024), "the square of the length is the sum of the squares"); xs_obs_f("length", l);
  static_assert(std::is_same_v<decltype(v.length()), T> && std::is_same_v<decltype(mx::length(v)), T>);
}
XS_ENTRY(e_len_2) { len<float, 2>(); } XS_ENTRY(e_len_3) { len<float, 3>(); } XS_ENTRY(e_len_4) { len<float, 4>(); } XS_ENTRY(e_len_5) { len<double, 5>(); } XS_ENTRY(e_len_2d) { len<double, 2>(); } XS_ENTRY(e_len_4d) { len<double, 4>(); } XS_ENTRY(et_len_7) { len<float, 7>(); } XS_ENTRY(et_len_1) { len<double, 1>(); }
template <typename T, size_t N> static void dist() { const auto a = rvec<T, N>(), b = rvec<T, N>(); T q = 0; for (size_t i = 0; i < N; i++) q += (a[i] - b[i]) * (a[i] - b[i]); T s = N <= 5 ? unit<T>() : T(1); T d = distance(a * s, b * s) / s; xs_check(d >= 0, "a distance is not negative"); xs_check(near<T>(d * d, q, 4096), "the square of the distance is the sum of the squared differences"); xs_obs_f("distance", d); }
XS_ENTRY(e_dist_2) { dist<float, 2>(); } XS_ENTRY(e_dist_3) { dist<float, 3>(); } XS_ENTRY(e_dist_4) { dist<float, 4>(); } XS_ENTRY(e_dist_5) { dist<double, 5>(); } XS_ENTRY(et_dist_7) { dist<float, 7>(); }
template <typename T, size_t N> static void norm() {
  const auto v = rvec<T, N>(); T q = 0; for (size_t i = 0; i < N; i++) q += v[i] * v[i]; xs_assume(q > T(0.01)); T s = N <= 5 ? unit<T>() : T(1); auto w = v * s; T l = w.length() / s; auto a = w.normalize(), b = mx::normalize(w);
  for (size_t i = 0; i < N; i++) { xs_check(near<T>(a[i] * l, v[i]), "normalize divides every component by the length"); xs_check(near<T>(b[i] * l, v[i]), "normalize divides every component by the length"); xs_obs_f("n", a[i]); }
  xs_reach("normalized");
}
XS_ENTRY(e_norm_2) { norm<float, 2>(); } XS_ENTRY(e_norm_3) { norm<float, 3>(); } XS_ENTRY(e_norm_4) { norm<float, 4>(); } XS_ENTRY(e_norm_5) { norm<double, 5>(); } XS_ENTRY(et_norm_3d) { norm<double, 3>(); } XS_ENTRY(et_norm_7) { norm<float, 7>(); }
#define W(n, ...) XS_ENTRY(e_##n) { __VA_ARGS__; }
W(len_3d, (len<double, 3>())) W(len_5f, (len<float, 5>())) W(len_8, (len<float, 8>())) W(len_9d, (len<double, 9>())) W(len_17, (len<float, 17>())) W(len_40, (len<float, 40>())) W(dist_40, (dist<float, 40>())) W(norm_40, (norm<double, 40>()))
W(dist_2d, (dist<double, 2>())) W(dist_3d, (dist<double, 3>())) W(dist_4d, (dist<double, 4>())) W(dist_5f, (dist<float, 5>())) W(dist_8, (dist<float, 8>())) W(dist_9, (dist<double, 9>()))
W(norm_2d, (norm<double, 2>())) W(norm_4d, (norm<double, 4>())) W(norm_5f, (norm<float, 5>())) W(norm_8, (norm<float, 8>())) W(norm_9, (norm<double, 9>())) W(norm_3dq, (norm<double, 3>()))
// The extended type: the same functions, with no step of less precision.
XS_ENTRY(e_ld) { using L = long double; switch (xs_choice(2, 5, "N")) { case 2: len<L, 2>(); dist<L, 2>(); break; case 3: len<L, 3>(); dist<L, 3>(); break; case 4: len<L, 4>(); dist<L, 4>(); break; default: len<L, 5>(); dist<L, 5>(); } }
XS_ENTRY(e_norm_ld) { using L = long double; switch (xs_choice(2, 5, "N")) { case 2: norm<L, 2>(); break; case 3: norm<L, 3>(); break; case 4: norm<L, 4>(); break; default: norm<L, 5>(); } }
