// @bounds 2x2, 3x3 and 4x4 matrices of float and double; every element within +-2^20, compared as real functions
#include "mathx.hpp"
using namespace mx;
template <typename T> static T leibniz(const T *e, int n, int row, unsigned used) { if (row == n) return 1; T s = 0; int sign = 1; for (int c = 0; c < n; c++) if (!(used >> c & 1)) { T m = leibniz(e, n, row + 1, used | 1u << c); s = sign > 0 ? s + e[c * n + row] * m : s - e[c * n + row] * m; sign = -sign; } return s; }
template <typename T, size_t N> static T ref(const Matrix<T, N, N> &m) { T e[N * N]; for (size_t c = 0; c < N; c++) for (size_t r = 0; r < N; r++) e[c * N + r] = m[c][r]; return leibniz(e, (int)N, 0, 0); }
template <typename T, size_t N> static void det() {
  const auto m = rmat<T, N, N>(); T d = determinant(m); xs_obs_f("det", d); xs_check(near<T>(d, ref(m), 65536), "the determinant is the signed sum over all permutations"); if constexpr (N == 4) xs_check(near<T>(m.determinant(), d, 65536), "the member gives the same value");
  xs_check(near<T>(determinant(transpose(m)), d, 65536), "a transposed matrix has the same determinant"); T k = real<T>("k"); auto s = m; size_t a = xs_choice(0, N - 1, "column"), b = (a + 1) % N; s[a] = m[a] + m[b] * k; xs_check(near<T>(determinant(s), d, 1e6), "adding a multiple of a column to another one changes nothing"); s = m; s[a] = m[b]; s[b] = m[a]; xs_check(near<T>(determinant(s), -d, 65536), "swapping two columns negates the determinant");
}
XS_ENTRY(e_2f) { det<float, 2>(); } XS_ENTRY(e_3f) { det<float, 3>(); } XS_ENTRY(e_4f) { det<float, 4>(); } XS_ENTRY(e_2d) { det<double, 2>(); } XS_ENTRY(e_3d) { det<double, 3>(); } XS_ENTRY(e_4d) { det<double, 4>(); }
template <typename T, size_t N> static void mul() { const auto a = rmat<T, N, N>(-2, 2), b = rmat<T, N, N>(-2, 2); xs_check(near<T>(determinant(a * b), determinant(a) * determinant(b), 1e6), "the determinant of a product is the product of the determinants"); }
XS_ENTRY(e_mul_2) { mul<float, 2>(); } XS_ENTRY(e_mul_3) { mul<double, 3>(); } XS_ENTRY(et_mul_4) { mul<double, 4>(); }
template <typename T, size_t N> static void diag() { T k = real<T>("k"), p = 1; for (size_t i = 0; i < N; i++) p = p * k; xs_check(near<T>(determinant(Matrix<T, N, N>(k)), p, 4096), "a diagonal matrix has the product of its diagonal as determinant"); }
XS_ENTRY(e_diag) { switch (xs_choice(2, 4, "N")) { case 2: diag<float, 2>(); break; case 3: diag<float, 3>(); break; default: diag<double, 4>(); } }
// The extended type: the same determinants, with no step of less precision.
XS_ENTRY(e_ld) { switch (xs_choice(2, 4, "N")) { case 2: det<long double, 2>(); break; case 3: det<long double, 3>(); break; default: det<long double, 4>(); } }
