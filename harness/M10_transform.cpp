// @bounds every matrix element and vector component within +-2^20 and every angle in +-100 as real numbers (sin and cos as functions of the angle with sin^2 + cos^2 = 1); float and double; vectors and angles of another element type, integral axes included
#include "mathx.hpp"
using namespace mx;
template <typename T> static Vector<T, 4> ext(const Vector<T, 3> &p, T w) { return {p.x, p.y, p.z, w}; }
template <typename T, typename U> static void tr() { const auto m = rmat<T, 4, 4>(); const auto v = rvec<U, 3>(); auto r = translate(m, v); for (int i = 0; i < 3; i++) for (int j = 0; j < 4; j++) xs_check(near<T>(r[i][j], m[i][j]), "translation keeps the first three columns"); const auto p = rvec<T, 4>(); auto a = r * p; auto b = m * Vector<T, 4>(p.x + p.w * (T)v.x, p.y + p.w * (T)v.y, p.z + p.w * (T)v.z, p.w); for (int j = 0; j < 4; j++) { xs_check(near<T>(a[j], b[j], 65536), "translate(m, v) applied to p is m applied to p moved by v"); xs_obs_f("t", r[3][j]); } }
XS_ENTRY(e_translate_f) { tr<float, float>(); } XS_ENTRY(e_translate_d) { tr<double, double>(); } XS_ENTRY(e_translate_fd) { tr<float, double>(); }
template <typename T, typename U> static void sc() { const auto m = rmat<T, 4, 4>(); const auto v = rvec<U, 3>(); auto r = scale(m, v); const auto p = rvec<T, 4>(); auto a = r * p; auto b = m * Vector<T, 4>(p.x * (T)v.x, p.y * (T)v.y, p.z * (T)v.z, p.w); for (int j = 0; j < 4; j++) { xs_check(near<T>(a[j], b[j], 65536), "scale(m, v) applied to p is m applied to p scaled by v"); for (int i = 0; i < 3; i++) xs_check(near<T>(r[i][j], m[i][j] * (T)v[i], 512), "column i is scaled by v[i]"); xs_check(near<T>(r[3][j], m[3][j]), "the last column stays"); xs_obs_f("s", a[j]); } }
XS_ENTRY(e_scale_f) { sc<float, float>(); } XS_ENTRY(e_scale_d) { sc<double, double>(); } XS_ENTRY(e_scale_df) { sc<double, float>(); }
XS_ENTRY(e_int_vectors) { const auto m = rmat<float, 4, 4>(); int x = xs_choice(-2, 3, "x"), y = xs_choice(0, 1, "y"), z = xs_choice(-1, 0, "z"); ivec3 v(x, y, z); auto t = translate(m, v), s = scale(m, v); for (int j = 0; j < 4; j++) { xs_check(near<float>(t[3][j], m[0][j] * v.x + m[1][j] * v.y + m[2][j] * v.z + m[3][j], 512), "translation by an integer vector"); for (int i = 0; i < 3; i++) xs_check(near<float>(s[i][j], m[i][j] * v[i], 512), "scaling by an integer vector"); } }
// rotate(m, a, n) applied to p is m applied to p rotated: p cos a + (n x p) sin a + n (n.p) (1 - cos a), right-handed.
template <typename T, typename U, typename A> static void rot(const Vector<U, 3> &n, A angle, T s, T c) {
  const auto m = rmat<T, 4, 4>(); auto r = rotate(m, angle, n); Vector<T, 3> k((T)n.x, (T)n.y, (T)n.z), p = rvec<T, 3>(); T w = real<T>("w", -4, 4); T d = k.x * p.x + k.y * p.y + k.z * p.z;
  Vector<T, 3> q; q.x = p.x * c + (k.y * p.z - k.z * p.y) * s + k.x * d * (1 - c); q.y = p.y * c + (k.z * p.x - k.x * p.z) * s + k.y * d * (1 - c); q.z = p.z * c + (k.x * p.y - k.y * p.x) * s + k.z * d * (1 - c);
  auto a = r * ext(p, w), b = m * ext(q, w); for (int j = 0; j < 4; j++) { xs_check(near<T>(a[j], b[j], 1e6), "rotate(m, angle, n) applied to p is m applied to p rotated about n by the angle, counterclockwise"); xs_check(near<T>(r[3][j], m[3][j]), "the last column stays"); xs_obs_f("r", a[j]); }
}
template <typename T, typename U> static void rots() { auto n = rvec<U, 3>(-2, 2); T a = real<T>("angle", -100, 100); rot<T>(n, a, (T)std::sin(a), (T)std::cos(a)); }
XS_ENTRY(e_rotate_f) { rots<float, float>(); } XS_ENTRY(e_rotate_d) { rots<double, double>(); } XS_ENTRY(e_rotate_df) { rots<double, float>(); }
XS_ENTRY(e_rotate_fd) { dvec3 n; for (int i = 0; i < 3; i++) n[i] = (double)real<float>("n", -2, 2); float a = real<float>("angle", -100, 100); rot<float>(n, a, std::sin(a), std::cos(a)); }
XS_ENTRY(e_rotate_int_axis) { ivec3 n(0, 0, 0); n[xs_choice(0, 2, "axis")] = xs_choice(0, 1, "sign") ? 1 : -1; float a = real<float>("angle", -100, 100); rot<float>(n, a, std::sin(a), std::cos(a)); }
// The sine and cosine of a fixed angle are rounded numbers: compared within a rounding error, column by column.
XS_ENTRY(e_rotate_int_angle) {
  int x = xs_choice(-1, 2, "x"), y = xs_choice(0, 2, "y"), z = xs_choice(-1, 0, "z"); vec3 n(x * 0.5f, y * 0.5f, z * 0.75f); int a = xs_choice(-3, 3, "angle"); const auto m = rmat<float, 4, 4>(); auto r = rotate(m, a, n); float s = std::sin((float)a), c = std::cos((float)a);
  for (int i = 0; i < 3; i++) { vec3 e(0); e[i] = 1; float d = n[i] * (1 - c); vec3 q(e.x * c + (n.y * e.z - n.z * e.y) * s + n.x * d, e.y * c + (n.z * e.x - n.x * e.z) * s + n.y * d, e.z * c + (n.x * e.y - n.y * e.x) * s + n.z * d); for (int j = 0; j < 4; j++) { float t = r[i][j] - (m[0][j] * q.x + m[1][j] * q.y + m[2][j] * q.z); xs_check(t < 2e-4f && t > -2e-4f, "an integer angle rotates like that angle"); } }
  for (int j = 0; j < 4; j++) xs_check(near<float>(r[3][j], m[3][j]), "the last column stays");
}
// About a coordinate axis the rotation is orthogonal with determinant 1, keeps the axis, and angles add up in the inverse sense: a and -a cancel.
template <typename T> static void ortho_laws() {
  T a = real<T>("angle", -100, 100); size_t k = xs_choice(0, 2, "axis"); Vector<T, 3> n(0); n[k] = 1; auto r = rotate(Matrix<T, 4, 4>(), a, n); auto q = r * transpose(r); for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) { T e = q[i][j] - T(i == j); xs_check(e < T(0.001) && e > T(-0.001), "a rotation is orthogonal"); } T d = determinant(r) - 1; xs_check(d < T(0.001) && d > T(-0.001), "a rotation has determinant 1");
  auto x = r * ext(n, T(0)); for (int j = 0; j < 4; j++) xs_check(near<T>(x[j], j < 3 ? n[j] : T(0)), "a rotation keeps its axis"); size_t i1 = (k + 1) % 3, i2 = (k + 2) % 3; xs_check(near<T>(r[i1][i1], std::cos(a)) && near<T>(r[i1][i2], std::sin(a)) && near<T>(r[i2][i1], -std::sin(a)) && near<T>(r[i2][i2], std::cos(a)), "counterclockwise seen from the tip of the axis");
}
XS_ENTRY(e_axis_f) { ortho_laws<float>(); } XS_ENTRY(e_axis_d) { ortho_laws<double>(); }
XS_ENTRY(e_zero_angle) { auto m = rmat<float, 4, 4>(); auto n = rvec<float, 3>(-2, 2); auto r = rotate(m, 0.f, n); for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) xs_check(near<float>(r[i][j], m[i][j], 512), "a rotation by zero changes nothing"); }
// The extended type: the same matrices, with no step of less precision.
XS_ENTRY(e_ld) { using L = long double; switch (xs_choice(0, 2, "which")) { case 0: tr<L, L>(); break; case 1: sc<L, L>(); break; default: rots<L, L>(); } }
