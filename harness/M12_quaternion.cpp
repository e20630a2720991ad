// @bounds every quaternion component within +-2^20 as real numbers for the algebra, bit-exact for construction, access, comparison, + and -; float and double and mixed
#include "mathx.hpp"
using namespace mx;
template <typename T> static Quaternion<T> rq() { T w = real<T>("w"), x = real<T>("x"), y = real<T>("y"), z = real<T>("z"); return {w, x, y, z}; }
template <typename T> static Quaternion<T> bq() { T w = sym<T>("w"), x = sym<T>("x"), y = sym<T>("y"), z = sym<T>("z"); return {w, x, y, z}; }
template <typename T> static T norm(const Quaternion<T> &q) { return q.w * q.w + q.x * q.x + q.y * q.y + q.z * q.z; }
template <typename T> static void eqq(const Quaternion<T> &a, const Quaternion<T> &b, const char *m, double sc = 65536) { xs_check(near<T>(a.w, b.w, sc) && near<T>(a.x, b.x, sc) && near<T>(a.y, b.y, sc) && near<T>(a.z, b.z, sc), m); }
template <typename T, typename U> static void mul() {
  const auto p = rq<T>(); const auto q = rq<U>(); auto r = p * q; static_assert(std::is_same_v<decltype(r), Quaternion<T>>); T w = (T)q.w, x = (T)q.x, y = (T)q.y, z = (T)q.z;
  xs_check(near<T>(r.w, p.w * w - p.x * x - p.y * y - p.z * z, 1024), "w of the Hamilton product"); xs_check(near<T>(r.x, p.w * x + p.x * w + p.y * z - p.z * y, 1024), "x of the Hamilton product"); xs_check(near<T>(r.y, p.w * y - p.x * z + p.y * w + p.z * x, 1024), "y of the Hamilton product"); xs_check(near<T>(r.z, p.w * z + p.x * y - p.y * x + p.z * w, 1024), "z of the Hamilton product"); for (int i = 0; i < 4; i++) xs_obs_f("q", r[i]);
}
XS_ENTRY(e_mul_f) { mul<float, float>(); } XS_ENTRY(e_mul_d) { mul<double, double>(); } XS_ENTRY(e_mul_fd) { mul<float, double>(); } XS_ENTRY(e_mul_df) { mul<double, float>(); }
template <typename T> static void laws() { const auto a = rq<T>(), b = rq<T>(), c = rq<T>(); eqq<T>((a * b) * c, a * (b * c), "the product is associative", 1e6); eqq<T>(a * (b + c), a * b + a * c, "the product distributes over the sum"); eqq<T>((b - c) * a, b * a - c * a, "the product distributes over the difference"); xs_check(near<T>(norm<T>(a * b), norm<T>(a) * norm<T>(b), 1e7), "norms multiply"); Quaternion<T> one(1, 0, 0, 0), conj(a.w, -a.x, -a.y, -a.z); eqq<T>(one * a, a, "1 is neutral"); eqq<T>(a * one, a, "1 is neutral"); eqq<T>(a * conj, Quaternion<T>(norm<T>(a), 0, 0, 0), "a quaternion times its conjugate is its norm"); }
XS_ENTRY(e_laws_f) { laws<float>(); } XS_ENTRY(e_laws_d) { laws<double>(); }
XS_ENTRY(e_units) { using Q = Quaternion<float>; Q i(0, 1, 0, 0), j(0, 0, 1, 0), k(0, 0, 0, 1), m(-1, 0, 0, 0); xs_check(i * i == m && j * j == m && k * k == m && i * j * k == m && i * j == k && j * k == i && k * i == j, "i j k identities"); }
template <typename T, typename U> static void addsub() { const auto p = bq<T>(); const auto q = bq<U>(); auto s = p + q, d = p - q; for (int i = 0; i < 4; i++) { xs_check(same<T>(s[i], (T)(p[i] + q[i])), "+ adds component by component"); xs_check(same<T>(d[i], (T)(p[i] - q[i])), "- subtracts component by component"); } }
XS_ENTRY(e_addsub_f) { addsub<float, float>(); } XS_ENTRY(e_addsub_d) { addsub<double, double>(); } XS_ENTRY(e_addsub_df) { addsub<double, float>(); }
XS_ENTRY(e_access) {
  float w = xs_f32("w"), x = xs_f32("x"), y = xs_f32("y"), z = xs_f32("z"), n = xs_f32("n"); Quaternion<float> q(w, x, y, z); const auto &c = q; xs_check(same(q.w, w) && same(q.x, x) && same(q.y, y) && same(q.z, z), "components in order w, x, y, z"); xs_check(&q[0] == &q.w && &q[1] == &q.x && &q[2] == &q.y && &q[3] == &q.z && &c[0] == &q.w && &c[1] == &q.x && &c[2] == &q.y && &c[3] == &q.z, "q[0..3] are w, x, y, z"); size_t i = xs_choice(0, 3, "i"); q[i] = n; const float o[] = {w, x, y, z}; for (size_t k = 0; k < 4; k++) xs_check(same(q[k], k == i ? n : o[k]), "writing through an index changes that component only");
  int32_t a = xs_u32("a"); Quaternion<double> d(a, w, a, a); xs_check(d.w == (double)a && same(d.x, (double)w) && d.y == (double)a, "arguments are converted to the element type"); static_assert(std::is_same_v<decltype(Quaternion(1, 2, 3, 4)), Quaternion<float>> && std::is_same_v<decltype(Quaternion(1, 2.0, 3, 4)), Quaternion<double>>);
}
template <typename T> static void cmp() { const auto a = bq<T>(), b = bq<T>(); bool eq = true; int c = 0; for (int i = 0; i < 4; i++) { eq &= a[i] == b[i]; if (!c) c = a[i] < b[i] ? -1 : b[i] < a[i] ? 1 : a[i] == b[i] ? 0 : 2; } xs_check((a == b) == eq && (a != b) == !eq, "equal exactly when every component is equal"); bool own = true; for (int i = 0; i < 4; i++) own &= a[i] == a[i]; const auto &t = a; xs_check((a == t) == own && (a != t) == !own && (a <= t) == own && !(a < t), "a quaternion compares to itself as its components do"); xs_check((a < b) == (c == -1) && (a > b) == (c == 1), "ordering is lexicographic in w, x, y, z"); }
XS_ENTRY(e_cmp_f) { cmp<float>(); } XS_ENTRY(et_cmp_d) { cmp<double>(); }
// The extended type: the same products and sums, with no step of less precision.
XS_ENTRY(e_ld) { using L = long double; if (xs_choice(0, 1, "which")) mul<L, L>(); else addsub<L, L>(); }
