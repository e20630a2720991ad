// @bounds matrices of 1 to 5 (7) rows and columns in every combination (outer products 1 to 6 (8)), and some of 6, 8, 9, 17 and 40, square and not, of float and double; every element value (IEEE bit-exact)
#include "mathx.hpp"
using namespace mx;
template <typename T, size_t C, size_t R> static void tr() { const auto m = bmat<T, C, R>(); auto t = transpose(m); static_assert(std::is_same_v<decltype(t), Matrix<T, R, C>>); bool ok = true; for (size_t i = 0; i < C; i++) for (size_t j = 0; j < R; j++) ok &= same<T>(t[j][i], m[i][j]); xs_check(ok, "element (i, j) of the transpose is element (j, i)"); auto u = transpose(t); ok = true; for (size_t i = 0; i < C; i++) for (size_t j = 0; j < R; j++) ok &= same<T>(u[i][j], m[i][j]); xs_check(ok, "transposing twice restores the matrix"); if constexpr (C == 4 && R == 4) { auto w = m.transpose(); ok = true; for (size_t i = 0; i < 4; i++) for (size_t j = 0; j < 4; j++) ok &= same<T>(w[j][i], m[i][j]); xs_check(ok, "the member transposes too"); } }
XS_ENTRY(e_tr_2x2) { tr<float, 2, 2>(); } XS_ENTRY(e_tr_3x3) { tr<float, 3, 3>(); } XS_ENTRY(e_tr_4x4) { tr<float, 4, 4>(); } XS_ENTRY(e_tr_4x4d) { tr<double, 4, 4>(); } XS_ENTRY(e_tr_2x3) { tr<float, 2, 3>(); } XS_ENTRY(e_tr_3x2) { tr<float, 3, 2>(); } XS_ENTRY(e_tr_4x2) { tr<double, 4, 2>(); } XS_ENTRY(e_tr_3x4) { tr<float, 3, 4>(); } XS_ENTRY(e_tr_5x5) { tr<float, 5, 5>(); } XS_ENTRY(e_tr_5x2) { tr<float, 5, 2>(); }
template <typename T, size_t A, size_t B> static void outer() { const auto a = bvec<T, A>(); const auto b = bvec<T, B>(); auto m = outer_product(a, b); static_assert(std::is_same_v<decltype(m), Matrix<T, B, A>>); bool ok = true; for (size_t i = 0; i < B; i++) for (size_t j = 0; j < A; j++) ok &= same<T>(m[i][j], a[j] * b[i]); xs_check(ok, "element (i, j) of the outer product is a[j] * b[i]"); }
XS_ENTRY(e_outer_22) { outer<float, 2, 2>(); } XS_ENTRY(e_outer_33) { outer<float, 3, 3>(); } XS_ENTRY(e_outer_44) { outer<float, 4, 4>(); } XS_ENTRY(e_outer_23) { outer<float, 2, 3>(); } XS_ENTRY(e_outer_32) { outer<double, 3, 2>(); } XS_ENTRY(e_outer_42) { outer<float, 4, 2>(); } XS_ENTRY(e_outer_34) { outer<float, 3, 4>(); } XS_ENTRY(e_outer_55) { outer<float, 5, 5>(); }
template <typename T, size_t C, size_t R> static void had() { const auto a = bmat<T, C, R>(), b = bmat<T, C, R>(); auto m = hadamard_product(a, b); static_assert(std::is_same_v<decltype(m), Matrix<T, C, R>>); bool ok = true; for (size_t i = 0; i < C; i++) for (size_t j = 0; j < R; j++) ok &= same<T>(m[i][j], a[i][j] * b[i][j]); xs_check(ok, "the Hadamard product multiplies element by element"); }
XS_ENTRY(e_had_22) { had<float, 2, 2>(); } XS_ENTRY(e_had_33) { had<float, 3, 3>(); } XS_ENTRY(e_had_44) { had<float, 4, 4>(); } XS_ENTRY(e_had_23) { had<double, 2, 3>(); } XS_ENTRY(e_had_42) { had<float, 4, 2>(); } XS_ENTRY(e_had_55) { had<float, 5, 5>(); }
#define W(n, ...) XS_ENTRY(e_##n) { __VA_ARGS__; }
W(tr_2x2d, (tr<double, 2, 2>())) W(tr_3x3d, (tr<double, 3, 3>())) W(tr_4x3, (tr<float, 4, 3>())) W(tr_2x4, (tr<float, 2, 4>())) W(tr_6x6, (tr<float, 6, 6>())) W(tr_8x8, (tr<float, 8, 8>())) W(tr_9x3, (tr<double, 9, 3>())) W(tr_1x4, (tr<float, 1, 4>()))
W(outer_22d, (outer<double, 2, 2>())) W(outer_33d, (outer<double, 3, 3>())) W(outer_44d, (outer<double, 4, 4>())) W(outer_24, (outer<float, 2, 4>())) W(outer_43, (outer<float, 4, 3>())) W(outer_88, (outer<float, 8, 8>())) W(outer_92, (outer<float, 9, 2>()))
W(had_22d, (had<double, 2, 2>())) W(had_33d, (had<double, 3, 3>())) W(had_44d, (had<double, 4, 4>())) W(had_32, (had<float, 3, 2>())) W(had_34, (had<float, 3, 4>())) W(had_43, (had<float, 4, 3>())) W(had_24, (had<float, 2, 4>())) W(had_88, (had<float, 8, 8>()))
// every pair of dimensions, and long thin ones
XS_ENTRY(e_tr_grid) { grid<1, QT(5, 7)>([]<size_t C, size_t R>() { if constexpr (C + R > 2) tr<float, C, R>(); }); } XS_ENTRY(e_outer_grid) { grid<1, QT(6, 8)>([]<size_t C, size_t R>() { if constexpr (C + R > 2) outer<float, C, R>(); }); } XS_ENTRY(e_had_grid) { grid<1, QT(5, 7)>([]<size_t C, size_t R>() { if constexpr (C + R > 2) had<float, C, R>(); }); }
W(tr_2x17, (tr<float, 2, 17>())) W(tr_17x2, (tr<double, 17, 2>())) W(outer_2_17, (outer<float, 2, 17>())) W(outer_17_2, (outer<double, 17, 2>())) W(had_2_17, (had<float, 2, 17>())) W(had_17_2, (had<double, 17, 2>())) W(tr_2x40, (tr<float, 2, 40>())) W(tr_40x2, (tr<double, 40, 2>())) W(outer_2_40, (outer<float, 2, 40>())) W(outer_40_2, (outer<double, 40, 2>())) W(had_2_40, (had<float, 2, 40>())) W(had_40_2, (had<double, 40, 2>()))
// The extended type: the same functions, with no step of less precision.
XS_ENTRY(e_ld) { using L = long double; switch (xs_choice(0, 4, "which")) { case 0: outer<L, 4, 4>(); break; case 1: outer<L, 2, 3>(); break; case 2: had<L, 4, 4>(); break; case 3: had<L, 3, 2>(); break; default: had<L, 5, 5>(); } }
