// @bounds every argument in +-1000 as a real number, off the poles (the denominator at least 0.0001 in magnitude); sin, cos, tan, asin, acos and atan are functions constrained by sin^2 + cos^2 = 1 and tan = sin / cos; float, double and int arguments
#include "mathx.hpp"
using namespace mx;
template <typename T> static T off(T v) { xs_assume(v > T(1e-4) || v < T(-1e-4)); return v; }
template <typename T> static void rec() {
  T x = real<T>("x", -1000, 1000); static_assert(std::is_same_v<decltype(sec(x)), T> && std::is_same_v<decltype(csc(x)), T> && std::is_same_v<decltype(cot(x)), T> && std::is_same_v<decltype(arcsin(x)), T> && std::is_same_v<decltype(arccos(x)), T> && std::is_same_v<decltype(arctan(x)), T>);
  switch (xs_choice(0, 2, "function")) {
  case 0: { T c = off<T>(std::cos(x)); xs_check(near<T>(sec(x) * c, 1), "sec is 1 / cos"); xs_obs_f("sec", sec(x)); break; }
  case 1: { T s = off<T>(std::sin(x)); xs_check(near<T>(csc(x) * s, 1), "csc is 1 / sin"); xs_obs_f("csc", csc(x)); break; }
  default: { T t = off<T>(std::tan(x)); xs_check(near<T>(cot(x) * t, 1), "cot is 1 / tan"); xs_obs_f("cot", cot(x)); }
  }
}
XS_ENTRY(e_reciprocal_f) { rec<float>(); } XS_ENTRY(e_reciprocal_d) { rec<double>(); }
template <typename T> static void arc() { T x = real<T>("x", -0.99, 0.99), y = real<T>("y", -1000, 1000); xs_check(near<T>(arcsin(x), std::asin(x)), "arcsin"); xs_check(near<T>(arccos(x), std::acos(x)), "arccos"); xs_check(near<T>(arctan(y), std::atan(y)), "arctan"); xs_obs_f("asin", arcsin(x)); xs_obs_f("acos", arccos(x)); xs_obs_f("atan", arctan(y)); }
XS_ENTRY(e_inverse_f) { arc<float>(); } XS_ENTRY(e_inverse_d) { arc<double>(); }
// Bit-exact: the inverse functions are the library functions for every IEEE argument, NaN and infinities included.
XS_ENTRY(e_inverse_bits) { float x = xs_f32("x"); double y = xs_f64("y"); xs_check(same(arcsin(x), std::asin(x)) && same(arccos(x), std::acos(x)) && same(arctan(x), std::atan(x)), "float"); xs_check(same(arcsin(y), std::asin(y)) && same(arccos(y), std::acos(y)) && same(arctan(y), std::atan(y)), "double"); }
// On fixed arguments the results are rounded numbers: compared within a few roundings of the type.
static bool within(double a, double b) { double d = a - b, m = b < 0 ? -b : b; return d <= 2e-15 * m && -d <= 2e-15 * m; }
XS_ENTRY(e_int) { int n = xs_choice(-3, 3, "n"); if (n) { static_assert(std::is_same_v<decltype(cot(n)), double>); xs_check(within(cot(n), 1 / std::tan((double)n)) && within(csc(n), 1 / std::sin((double)n)), "an integer argument is taken as a double"); } xs_check(within(sec(n), 1 / std::cos((double)n)) && within(arctan(n), std::atan((double)n)), "an integer argument is taken as a double"); }
// The extended type: the same functions, with no step of less precision.
XS_ENTRY(e_ld) { if (xs_choice(0, 1, "which")) rec<long double>(); else arc<long double>(); }
// Every finite argument, however large: the reciprocals of the library functions' values (bit-exact, or within a few roundings).
template <typename T> static bool close(T a, T b) { T d = a - b, m = b < 0 ? -b : b, e = 4 * std::numeric_limits<T>::epsilon(); return d <= e * m && -d <= e * m; }
template <typename T> static bool recip(T got, T den) { T want = 1 / den; return same(got, want) || close(got, want); }
template <typename T> static void rec_bits() {
  T x = sym<T>("x"); xs_assume(x > -std::numeric_limits<T>::infinity() && x < std::numeric_limits<T>::infinity());
  switch (xs_choice(0, 2, "function")) { case 0: xs_check(recip<T>(sec(x), std::cos(x)), "sec is 1 / cos"); break; case 1: xs_check(recip<T>(csc(x), std::sin(x)), "csc is 1 / sin"); break; default: xs_check(recip<T>(cot(x), std::tan(x)), "cot is 1 / tan"); }
}
XS_ENTRY(e_reciprocal_bits_f) { rec_bits<float>(); } XS_ENTRY(e_reciprocal_bits_d) { rec_bits<double>(); }
