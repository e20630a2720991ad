// @bounds products of matrices and vectors with 1 to 5 rows and columns in every combination and some of 6, 8, 9, 17 and 34, of float and double and mixed; every element within +-2^20, compared as real functions
#include "mathx.hpp"
using namespace mx;
template <typename T, size_t C, size_t R, typename U = T> static void mv() { const auto m = rmat<T, C, R>(); const auto v = rvec<U, C>(); auto r = m * v; static_assert(std::is_same_v<decltype(r), Vector<T, R>>); for (size_t j = 0; j < R; j++) { T s = 0; for (size_t i = 0; i < C; i++) s += m[i][j] * (T)v[i]; xs_check(near<T>(r[j], s, 1024), "component j of m * v is the product of row j and v"); xs_obs_f("v", r[j]); } }
#define MV(n, ...) XS_ENTRY(e_mv_##n) { mv<__VA_ARGS__>(); }
MV(2x2, float, 2, 2) MV(3x3, float, 3, 3) MV(4x4, float, 4, 4) MV(4x4d, double, 4, 4) MV(2x3, float, 2, 3) MV(3x2, float, 3, 2) MV(4x3, float, 4, 3) MV(2x4, double, 2, 4) MV(5x5, float, 5, 5) MV(mixed3, float, 3, 3, double) MV(mixed4, float, 4, 4, double) MV(mixed4d, double, 4, 4, float) MV(5x2, float, 5, 2)
template <typename T, size_t C, size_t R, size_t C2, typename U = T> static void mm() { const auto a = rmat<T, C, R>(); const auto b = rmat<U, C2, C>(); auto r = a * b; static_assert(std::is_same_v<decltype(r), Matrix<T, C2, R>>); for (size_t i = 0; i < C2; i++) for (size_t j = 0; j < R; j++) { T s = 0; for (size_t k = 0; k < C; k++) s += a[k][j] * (T)b[i][k]; xs_check(near<T>(r[i][j], s, 1024), "element (i, j) of a * b is the product of row j of a and column i of b"); xs_obs_f("m", r[i][j]); } }
#define MM(n, ...) XS_ENTRY(e_mm_##n) { mm<__VA_ARGS__>(); }
MM(2x2, float, 2, 2, 2) MM(3x3, float, 3, 3, 3) MM(4x4, float, 4, 4, 4) MM(4x4d, double, 4, 4, 4) MM(2x3_4, float, 2, 3, 4) MM(3x2_2, float, 3, 2, 2) MM(4x4_2, float, 4, 4, 2) MM(4x3_5, float, 4, 3, 5) MM(4x2_4, double, 4, 2, 4) MM(5x5, float, 5, 5, 5) MM(mixed3, float, 3, 3, 3, double) MM(mixed4, double, 4, 4, 4, float)
// Composition: (a * b) * v is a * (b * v), the identity is neutral, and transposition reverses a product.
template <typename T, size_t C, size_t R, size_t C2> static void laws() { const auto a = rmat<T, C, R>(); const auto b = rmat<T, C2, C>(); const auto v = rvec<T, C2>(); auto x = (a * b) * v, y = a * (b * v); for (size_t j = 0; j < R; j++) xs_check(near<T>(x[j], y[j], 8192), "(a b) v = a (b v)"); auto t = transpose(a * b), u = transpose(b) * transpose(a); for (size_t i = 0; i < R; i++) for (size_t j = 0; j < C2; j++) xs_check(near<T>(t[i][j], u[i][j], 2048), "the transpose of a product is the product of the transposes, reversed"); auto i1 = a * Matrix<T, C, C>(), i2 = Matrix<T, R, R>() * a; for (size_t i = 0; i < C; i++) for (size_t j = 0; j < R; j++) xs_check(near<T>(i1[i][j], a[i][j]) && near<T>(i2[i][j], a[i][j]), "the identity is neutral"); }
XS_ENTRY(e_laws_2) { laws<float, 2, 2, 2>(); } XS_ENTRY(e_laws_3) { laws<float, 3, 3, 3>(); } XS_ENTRY(e_laws_4) { laws<float, 4, 4, 4>(); } XS_ENTRY(e_laws_232) { laws<double, 2, 3, 2>(); } XS_ENTRY(e_laws_423) { laws<float, 4, 2, 3>(); } XS_ENTRY(et_laws_5) { laws<double, 5, 5, 5>(); } XS_ENTRY(et_laws_444d) { laws<double, 4, 4, 4>(); }
MV(2x2d, double, 2, 2) MV(3x3d, double, 3, 3) MV(5x5d, double, 5, 5) MV(3x4, float, 3, 4) MV(4x2, float, 4, 2) MV(6x6, float, 6, 6) MV(8x8, float, 8, 8) MV(9x2, double, 9, 2) MV(mixed2, double, 2, 2, float) MV(mixed43, float, 4, 3, double)
MM(2x2d, double, 2, 2, 2) MM(3x3d, double, 3, 3, 3) MM(5x5d, double, 5, 5, 5) MM(3x4_3, float, 3, 4, 3) MM(2x4_4, float, 2, 4, 4) MM(6x6, float, 6, 6, 6) MM(8x8, float, 8, 8, 8) MM(9x2_3, double, 9, 2, 3) MM(mixed2, float, 2, 2, 2, double) MM(mixed43, double, 4, 3, 2, float)
// More columns on the right than the square on the left has, and fewer: the products special sizes take must cover every column.
MM(4x4_1, float, 4, 4, 1) MM(4x4_3, float, 4, 4, 3) MM(4x4_5, float, 4, 4, 5) MM(4x4_8, float, 4, 4, 8) MM(4x4d_6, double, 4, 4, 6) MM(4x4d_2, double, 4, 4, 2) MM(3x3_1, float, 3, 3, 1) MM(3x3_2, float, 3, 3, 2) MM(3x3_4, float, 3, 3, 4) MM(3x3_5, double, 3, 3, 5) MM(2x2_1, double, 2, 2, 1) MM(2x2_3, float, 2, 2, 3) MM(2x2_5, float, 2, 2, 5) MM(3x4_4, float, 3, 4, 4) MM(4x3_4, float, 4, 3, 4) MM(2x4_2, float, 2, 4, 2) MM(4x2_2, double, 4, 2, 2) MM(3x4_5, double, 3, 4, 5)
// every pair of dimensions
XS_ENTRY(e_mv_grid) { grid<1, QT(5, 6)>([]<size_t C, size_t R>() { if constexpr (C + R > 2) mv<float, C, R>(); }); } XS_ENTRY(e_mm_grid_2) { grid<1, 5>([]<size_t C, size_t R>() { if constexpr (C + R > 2) mm<float, C, R, 2>(); }); } XS_ENTRY(e_mm_grid_3) { grid<2, QT(4, 5)>([]<size_t C, size_t R>() { mm<double, C, R, 3>(); }); } XS_ENTRY(et_mm_grid_4) { grid<2, 5>([]<size_t C, size_t R>() { mm<float, C, R, 4>(); }); } XS_ENTRY(et_mm_grid_5) { grid<2, 5>([]<size_t C, size_t R>() { mm<float, C, R, 5>(); }); }
MV(2x17, float, 2, 17) MV(17x2, double, 17, 2) MM(2x9_2, float, 2, 9, 2) MM(17x2_2, double, 17, 2, 2)
// The extended type: the same products, with no step of less precision.
XS_ENTRY(e_ld) { using L = long double; switch (xs_choice(0, 3, "which")) { case 0: mv<L, 4, 4>(); break; case 1: mv<L, 2, 3>(); break; case 2: mm<L, 4, 4, 4>(); break; default: mm<L, 3, 2, 3>(); } }
// many columns on the right
MM(2x2_9, float, 2, 2, 9) MM(2x2_17, double, 2, 2, 17) MM(3x2_34, float, 3, 2, 34) MM(4x4_17, float, 4, 4, 17) MM(2x34_2, float, 2, 34, 2) MM(34x2_2, float, 34, 2, 2) MV(2x34, float, 2, 34) MV(34x2, float, 34, 2)
