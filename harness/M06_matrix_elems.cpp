// @bounds matrices 2x2, 3x3, 4x4, 2x3, 3x2, 4x3, 2x4, 3x4, 4x2, 5x5, 6x6, 8x3, 2x17, 17x2, 8x8, 9x9, 40x2, 3x35 and others with one free element, and every pair of 1 to 4 (5) of float and double; every element and operand value (IEEE bit-exact, NaN and infinities included); operands of another element type
#include "mathx.hpp"
using namespace mx;
enum { ADD, SUB, MUL, DIV };
template <typename T> static T ref(int op, T a, T b) { switch (op) { case ADD: return a + b; case SUB: return a - b; case MUL: return a * b; default: return a / b; } }
template <typename U> static U in() { U u = sym<U>("s"); if constexpr (std::is_integral_v<U> && sizeof(U) >= 4) xs_assume(u > -20000 && u < 20000); return u; }
template <typename M, typename F> static void each(const M &m, F f) { for (size_t i = 0; i < M::columns; i++) for (size_t j = 0; j < M::rows; j++) f(i, j, m[i][j]); }
template <typename T, size_t C, size_t R, typename U> static void ops() {
  const auto a = bmat<T, C, R>(); auto m = a; Matrix<T, C, R> r; Matrix<U, C, R> b; U s{}; int op = xs_choice(0, 3, "operator"), form = xs_choice(op < 2 ? 0 : 1, op < 2 ? 3 : 2, "form");
  bool mat = form == 0 || form == 3, self = form >= 2; if (mat) b = bmat<U, C, R>(); else s = in<U>();
  if (!self) { if (mat) r = op == ADD ? a + b : a - b; else r = op == ADD ? a + s : op == SUB ? a - s : op == MUL ? a * s : a / s; }
  else { Matrix<T, C, R> *q; if (mat) q = op == ADD ? &(m += b) : &(m -= b); else q = op == ADD ? &(m += s) : op == SUB ? &(m -= s) : op == MUL ? &(m *= s) : &(m /= s); xs_check(q == &m, "compound assignment returns its left operand"); r = m; }
  bool ok = true; each(r, [&](size_t i, size_t j, T x) { ok &= same<T>(x, ref<T>(op, a[i][j], static_cast<T>(mat ? b[i][j] : s))); }); xs_check(ok, "each element is the operation on the elements, the right operand converted to the element type"); xs_reach("operation");
}
template <typename T, size_t C, size_t R> static void neg() { const auto a = bmat<T, C, R>(); auto r = -a; bool ok = true; each(r, [&](size_t i, size_t j, T x) { ok &= same<T>(x, -a[i][j]); }); xs_check(ok, "unary minus negates every element"); }
template <typename T, size_t C, size_t R, typename U> static void make() {
  T k = sym<T>("k"); U s = in<U>(); { Matrix<T, C, R> d(s); bool ok = true; each(d, [&](size_t i, size_t j, T x) { ok &= i == j ? same<T>(x, static_cast<T>(s)) : same<T>(x, T(0)); }); xs_check(ok, "a scalar fills the diagonal, zero elsewhere"); }
  { Matrix<T, C, R> d; bool ok = true; each(d, [&](size_t i, size_t j, T x) { ok &= x == T(i == j); }); xs_check(ok, "default construction is the identity"); }
  const auto a = bmat<T, C, R>(); const auto b = bmat<U, C, R>(); { Matrix<T, C, R> c(b), d(k); auto &q = d = b; xs_check(&q == &d, "assignment returns the target"); bool ok = true, ok2 = true; each(c, [&](size_t i, size_t j, T x) { ok &= same<T>(x, static_cast<T>(b[i][j])); }); each(d, [&](size_t i, size_t j, T x) { ok2 &= same<T>(x, static_cast<T>(b[i][j])); }); xs_check(ok, "converting construction keeps every element"); xs_check(ok2, "converting assignment keeps every element"); }
  { Matrix<T, C, R> c(a); bool ok = true; each(c, [&](size_t i, size_t j, T x) { ok &= same<T>(x, a[i][j]); }); xs_check(ok, "a copy has the same elements"); }
  static_assert(Matrix<T, C, R>::columns == C && Matrix<T, C, R>::rows == R);
  for (size_t j = 0; j < R; j++) { auto v = a.row(j); static_assert(decltype(v)::size == C); for (size_t i = 0; i < C; i++) xs_check(same<T>(v[i], a[i][j]), "row(j) holds element j of every column"); }
  for (size_t i = 0; i < C; i++) { auto v = a.column(i); static_assert(decltype(v)::size == R); for (size_t j = 0; j < R; j++) xs_check(same<T>(v[j], a[i][j]), "column(i) is column i"); }
  { auto m = a; size_t ci = xs_choice(0, C - 1, "column"), rj = xs_choice(0, R - 1, "row"); m[ci][rj] = k; bool ok = true; each(m, [&](size_t i, size_t j, T x) { ok &= same<T>(x, i == ci && j == rj ? k : a[i][j]); }); xs_check(ok, "writing an element changes that element only"); }
}
template <typename T, size_t C, size_t R> static void cmp() { const auto a = bmat<T, C, R>(), b = bmat<T, C, R>(); bool eq = true; for (size_t i = 0; i < C; i++) for (size_t j = 0; j < R; j++) eq &= a[i][j] == b[i][j]; xs_check((a == b) == eq && (a != b) == !eq, "equal exactly when every element is equal"); bool own = true; for (size_t i = 0; i < C; i++) for (size_t j = 0; j < R; j++) own &= a[i][j] == a[i][j]; const auto &t = a; xs_check((a == t) == own && (a != t) == !own, "a matrix equals itself exactly when each element equals itself"); }
#define DIMS(name, T, C, R, U) XS_ENTRY(e_ops_##name) { ops<T, C, R, U>(); } XS_ENTRY(e_make_##name) { make<T, C, R, U>(); } XS_ENTRY(e_neg_##name) { neg<T, C, R>(); } XS_ENTRY(e_cmp_##name) { cmp<T, C, R>(); }
DIMS(2x2f, float, 2, 2, float) DIMS(3x3f, float, 3, 3, double) DIMS(4x4f, float, 4, 4, float) DIMS(4x4d, double, 4, 4, float) DIMS(2x3f, float, 2, 3, float) DIMS(3x2d, double, 3, 2, double) DIMS(4x3f, float, 4, 3, double) DIMS(2x4f, float, 2, 4, float) DIMS(5x5f, float, 5, 5, float)
#define TDIMS(name, T, C, R, U) XS_ENTRY(et_ops_##name) { ops<T, C, R, U>(); } XS_ENTRY(et_make_##name) { make<T, C, R, U>(); } XS_ENTRY(et_neg_##name) { neg<T, C, R>(); } XS_ENTRY(et_cmp_##name) { cmp<T, C, R>(); }
TDIMS(3x4d, double, 3, 4, float) TDIMS(4x2f, float, 4, 2, float) TDIMS(4x4fd, float, 4, 4, double) TDIMS(1x2f, float, 1, 2, float)
XS_ENTRY(e_scalar_int) { int32_t s = xs_u32("s"); xs_assume(s > -20000 && s < 20000); mat4 m(s); mat3 n(s); mat4 p(2); p *= s; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) { xs_check(m[i][j] == (i == j ? (float)s : 0.f), "an integer diagonal"); xs_check(p[i][j] == (i == j ? 2.f * (float)s : 0.f), "an integer factor"); if (i < 3 && j < 3) xs_check(n[i][j] == (i == j ? (float)s : 0.f), "an integer diagonal"); } }
template <typename T, size_t R, typename U> static void columns4() { const auto a = bvec<U, R>(), b = bvec<U, R>(), c = bvec<U, R>(), d = bvec<U, R>(); Matrix<T, 4, R> m(a, b, c, d); bool ok = true; for (size_t j = 0; j < R; j++) ok &= same<T>(m[0][j], (T)a[j]) && same<T>(m[1][j], (T)b[j]) && same<T>(m[2][j], (T)c[j]) && same<T>(m[3][j], (T)d[j]); xs_check(ok, "construction from columns, in order"); }
XS_ENTRY(e_columns) {
  switch (xs_choice(0, 4, "case")) {
  case 0: columns4<float, 4, float>(); break; case 1: columns4<float, 3, float>(); break; case 2: columns4<float, 4, double>(); break;
  case 3: { const auto a = bvec<float, 3>(), b = bvec<float, 3>(); mat2x3 m(a, b); for (int j = 0; j < 3; j++) xs_check(same(m[0][j], a[j]) && same(m[1][j], b[j]), "construction from columns, in order"); break; }
  default: { const auto a = bvec<float, 2>(); const auto b = bvec<double, 2>(), c = bvec<double, 2>(); Matrix m(a, b, c); static_assert(std::is_same_v<decltype(m), Matrix<double, 3, 2>>); for (int j = 0; j < 2; j++) xs_check(same(m[0][j], (double)a[j]) && same(m[1][j], b[j]) && same(m[2][j], c[j]), "deduced element type, columns in order"); }
  }
}
XS_ENTRY(e_from3) { const auto a = bmat<float, 3, 3>(); const auto d = bmat<double, 3, 3>(); mat4 m(a), n(d); dmat4 o(a); for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) { bool in = i < 3 && j < 3; xs_check(same(m[i][j], in ? a[i][j] : (float)(i == j)), "a 3x3 matrix becomes the upper left block of a 4x4 identity"); xs_check(same(n[i][j], in ? (float)d[i][j] : (float)(i == j)), "a 3x3 matrix of another type"); xs_check(same(o[i][j], in ? (double)a[i][j] : (double)(i == j)), "a 3x3 matrix of another type"); } }
DIMS(2x2d, double, 2, 2, double) DIMS(3x3d, double, 3, 3, float) DIMS(3x4f, float, 3, 4, float) DIMS(4x2d, double, 4, 2, double) DIMS(6x6f, float, 6, 6, float) DIMS(8x3f, float, 8, 3, float)
// the GLSL names: matCxR has C columns of R rows, vecN N components, of the stated element type
template <typename M, typename T, size_t C, size_t R> static void alias() {
  M m(0); xs_check(std::is_same_v<std::remove_cvref_t<decltype(m[0][0])>, T> && M::columns == C && M::rows == R && sizeof(M) == C * R * sizeof(T), "matCxR has C columns of R elements"); T e[C * R]; for (auto &x : e) x = sym<T>("e");
  for (size_t c = 0; c < C; c++) for (size_t r = 0; r < R; r++) m[c][r] = e[c * R + r]; bool ok = true; for (size_t c = 0; c < C; c++) for (size_t r = 0; r < R; r++) ok &= same<T>(m[c][r], e[c * R + r]) && same<T>(m.row(r)[c], e[c * R + r]); xs_check(ok, "elements are addressed by column, then row");
}
template <typename V, typename T, size_t N> static void valias() { V v; xs_check(std::is_same_v<std::remove_cvref_t<decltype(v[0])>, T> && sizeof(V) == N * sizeof(T), "vecN has N components of its type"); T e[N]; for (size_t i = 0; i < N; i++) v[i] = e[i] = sym<T>("e"); bool ok = true; for (size_t i = 0; i < N; i++) ok &= same<T>(v[i], e[i]); xs_check(ok, "components are addressed by index"); }
XS_ENTRY(e_glsl_names) {
  switch (xs_choice(0, 23, "name")) {
  case 0: alias<mat2, float, 2, 2>(); break; case 1: alias<mat3, float, 3, 3>(); break; case 2: alias<mat4, float, 4, 4>(); break; case 3: alias<mat2x2, float, 2, 2>(); break; case 4: alias<mat2x3, float, 2, 3>(); break; case 5: alias<mat2x4, float, 2, 4>(); break; case 6: alias<mat3x2, float, 3, 2>(); break; case 7: alias<mat3x3, float, 3, 3>(); break; case 8: alias<mat3x4, float, 3, 4>(); break; case 9: alias<mat4x2, float, 4, 2>(); break; case 10: alias<mat4x3, float, 4, 3>(); break; case 11: alias<mat4x4, float, 4, 4>(); break;
  case 12: alias<dmat2, double, 2, 2>(); break; case 13: alias<dmat3, double, 3, 3>(); break; case 14: alias<dmat4, double, 4, 4>(); break; case 15: alias<dmat2x2, double, 2, 2>(); break; case 16: alias<dmat2x3, double, 2, 3>(); break; case 17: alias<dmat2x4, double, 2, 4>(); break; case 18: alias<dmat3x2, double, 3, 2>(); break; case 19: alias<dmat3x3, double, 3, 3>(); break; case 20: alias<dmat3x4, double, 3, 4>(); break; case 21: alias<dmat4x2, double, 4, 2>(); break; case 22: alias<dmat4x3, double, 4, 3>(); break; default: alias<dmat4x4, double, 4, 4>();
  }
  switch (xs_choice(0, 14, "vector")) {
  case 0: valias<bvec2, bool, 2>(); break; case 1: valias<bvec3, bool, 3>(); break; case 2: valias<bvec4, bool, 4>(); break; case 3: valias<ivec2, int32_t, 2>(); break; case 4: valias<ivec3, int32_t, 3>(); break; case 5: valias<ivec4, int32_t, 4>(); break; case 6: valias<uvec2, uint32_t, 2>(); break; case 7: valias<uvec3, uint32_t, 3>(); break; case 8: valias<uvec4, uint32_t, 4>(); break; case 9: valias<vec2, float, 2>(); break; case 10: valias<vec3, float, 3>(); break; case 11: valias<vec4, float, 4>(); break; case 12: valias<dvec2, double, 2>(); break; case 13: valias<dvec3, double, 3>(); break; default: valias<dvec4, double, 4>();
  }
}
// every pair of dimensions
XS_ENTRY(e_ops_grid) { grid<1, QT(4, 5)>([]<size_t C, size_t R>() { if constexpr (C + R > 2) ops<float, C, R, double>(); }); } XS_ENTRY(e_make_grid) { grid<1, QT(4, 5)>([]<size_t C, size_t R>() { if constexpr (C + R > 2) make<float, C, R, double>(); }); } XS_ENTRY(e_neg_grid) { grid<1, 5>([]<size_t C, size_t R>() { if constexpr (C + R > 2) neg<float, C, R>(); }); } XS_ENTRY(e_cmp_grid) { grid<1, QT(4, 5)>([]<size_t C, size_t R>() { if constexpr (C + R > 2) cmp<float, C, R>(); }); }
DIMS(2x17f, float, 2, 17, float) DIMS(17x2d, double, 17, 2, double)
// the right operand is the matrix itself or one of its elements
template <typename T, size_t C, size_t R> static void aliased() {
  auto m = rmat<T, C, R>(); const auto o = m; int op = xs_choice(0, 3, "operator"), what = xs_choice(op < 2 ? 0 : 1, 3, "operand"); size_t k = xs_choice(0, 1, "column") * (C - 1), l = xs_choice(0, 1, "row") * (R - 1); T s = o[k][l]; if (op == DIV) xs_assume(s > T(0.5)); Matrix<T, C, R> r(0);
  if (what == 0) { if (k || l) xs_stop_path(); op == ADD ? m += m : m -= m; r = m; }
  else if (what == 1) { op == ADD ? m += m[k][l] : op == SUB ? m -= m[k][l] : op == MUL ? m *= m[k][l] : m /= m[k][l]; r = m; }
  else if (what == 2) { m = op == ADD ? m + m[k][l] : op == SUB ? m - m[k][l] : op == MUL ? m * m[k][l] : m / m[k][l]; r = m; }
  else { const T &e = m[k][l]; op == ADD ? m += e : op == SUB ? m -= e : op == MUL ? m *= e : m /= e; r = m; }
  each(r, [&](size_t i, size_t j, T x) { xs_check(near(x, ref<T>(op, o[i][j], what ? s : o[i][j])), "the operands are the old elements"); }); xs_reach("aliased");
}
XS_ENTRY(e_aliased) { switch (xs_choice(0, 3, "type")) { case 0: aliased<float, 2, 2>(); break; case 1: aliased<float, 4, 4>(); break; case 2: aliased<double, 2, 3>(); break; case 3: aliased<float, 3, 2>(); break; } }
// The extended type: the same operators, with no step of less precision.
XS_ENTRY(e_ld) { switch (xs_choice(0, 1, "shape")) { case 0: aliased<long double, 4, 4>(); break; default: aliased<long double, 2, 3>(); } }
// matrices with many columns, many rows or both: conversions and assignments reach every column
template <typename T, size_t C, size_t R, typename U> static void wide() {
  Matrix<U, C, R> b{0}; for (size_t i = 0; i < C; i++) for (size_t j = 0; j < R; j++) b[i][j] = U((int)(i * 3 + j)); const size_t ci[] = {0, 1, C > 4 ? 4 : 0, C / 2, C - 2, C - 1}; size_t cc = ci[xs_choice(0, 5, "column")], rr = xs_choice(0, 1, "row") ? R - 1 : 0; U k = sym<U>("k"); b[cc][rr] = k;
  { Matrix<T, C, R> c(b), d(3); d = b; bool ok = true, ok2 = true; each(c, [&](size_t i, size_t j, T x) { ok &= same<T>(x, static_cast<T>(b[i][j])); }); each(d, [&](size_t i, size_t j, T x) { ok2 &= same<T>(x, static_cast<T>(b[i][j])); }); xs_check(ok, "converting construction keeps every element"); xs_check(ok2, "converting assignment keeps every element"); Matrix<T, C, R> e(c), g(2); g = c; xs_check(same<T>(e[cc][rr], (T)k) && same<T>(g[cc][rr], (T)k), "copies"); }
  { const Matrix<T, C, R> a(b); bool ok = true; auto n = -a; each(n, [&](size_t i, size_t j, T x) { ok &= same<T>(x, -a[i][j]); }); Matrix<T, C, R> s(7); s += b; each(s, [&](size_t i, size_t j, T x) { ok &= same<T>(x, T(i == j ? 7 : 0) + (T)b[i][j]); }); s = Matrix<T, C, R>(7) - b; each(s, [&](size_t i, size_t j, T x) { ok &= same<T>(x, T(i == j ? 7 : 0) - (T)b[i][j]); }); s = a * 2; each(s, [&](size_t i, size_t j, T x) { ok &= same<T>(x, a[i][j] * T(2)); }); s /= 2; each(s, [&](size_t i, size_t j, T x) { ok &= same<T>(x, a[i][j] * T(2) / T(2)); }); xs_check(ok, "operators work on every element"); auto r = a.row(rr); auto c = a.column(cc); xs_check(same<T>(r[cc], (T)k) && same<T>(c[rr], (T)k), "rows and columns"); for (size_t i = 0; i < C; i++) xs_check(i == cc || r[i] == a[i][rr], "rows"); }
  xs_reach("wide");
}
XS_ENTRY(e_wide_f) { switch (xs_choice(0, 3, "shape")) { case 0: wide<float, 8, 8, double>(); break; case 1: wide<float, 17, 2, float>(); break; case 2: wide<float, 2, 18, double>(); break; default: wide<float, 40, 2, double>(); } }
XS_ENTRY(e_wide_d) { switch (xs_choice(0, 3, "shape")) { case 0: wide<double, 9, 9, float>(); break; case 1: wide<double, 7, 3, double>(); break; case 2: wide<double, 3, 35, float>(); break; default: wide<double, 34, 2, float>(); } }
