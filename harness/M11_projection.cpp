// @configs none, lh
// @bounds every frustum with 0.1 <= near <= 4, 0.1 <= far <= 16, edges in +-8, opposite ones at least 0.1 apart in either order (flipped and reversed volumes; near and far from -16 for ortho), 0.1 <= aspect <= 4, every field of view in 0.125..3; each box also scaled by 1/512 and by 128; float and double; real functions
#include "mathx.hpp"
using namespace mx;
template <typename T> struct Box { T l, r, b, t, n, f, s; };
// the unit of length: nothing depends on it
template <typename T> static T unit() { int k = xs_choice(0, 2, "unit"); return k == 0 ? T(1) : k == 1 ? T(1.0 / 512) : T(128); }
// apart, in either order: a flipped volume maps its edges all the same
template <typename T> static void apart(T a, T b) { T d = a - b; xs_assume((d > T(0.125)) | (d < T(-0.125))); }
template <typename T> static Box<T> box(double lo = 0.125) { Box<T> x{real<T>("left", -8, 8), real<T>("right", -8, 8), real<T>("bottom", -8, 8), real<T>("top", -8, 8), real<T>("near", lo, 4), real<T>("far", lo, 16), T(1)}; apart<T>(x.r, x.l); apart<T>(x.t, x.b); apart<T>(x.f, x.n); x.s = unit<T>(); x.l *= x.s; x.r *= x.s; x.b *= x.s; x.t *= x.s; x.n *= x.s; x.f *= x.s; return x; }
template <typename T> static void at(const Matrix<T, 4, 4> &m, T x, T y, T z, T cx, T cy, T cz, T s, const char *what) { auto p = m * Vector<T, 4>(x, y, z, T(1)); xs_check(p.w > 0, "the visible volume is in front of the eye"); T w = p.w / s; xs_check(near<T>(p.x / s, cx * w, 4096), what); xs_check(near<T>(p.y / s, cy * w, 4096), what); xs_check(near<T>(p.z / s, cz * w, 4096), what); xs_obs_f("w", p.w); }
#if defined(XME_MATH_CLIP_LH)
static constexpr int dir = 1;
#else
static constexpr int dir = -1;
#endif
// kind: 0 rh, 1 lh, 2 default
template <typename T> static void frustum(int kind) {
  auto x = box<T>(); int z = kind == 0 ? -1 : kind == 1 ? 1 : dir; auto m = kind == 0 ? perspective_rh(x.l, x.r, x.b, x.t, x.n, x.f) : kind == 1 ? perspective_lh(x.l, x.r, x.b, x.t, x.n, x.f) : perspective(x.l, x.r, x.b, x.t, x.n, x.f);
  int cx = xs_choice(0, 1, "right") ? 1 : -1, cy = xs_choice(0, 1, "top") ? 1 : -1; bool far = xs_choice(0, 1, "far"); T X = cx > 0 ? x.r : x.l, Y = cy > 0 ? x.t : x.b;
  if (!far) at<T>(m, X, Y, T(z) * x.n, T(cx), T(cy), T(-1), x.s, "a near corner of the frustum maps to the near corner of the clip cube"); else { T k = x.f; auto p = m * Vector<T, 4>(X * k, Y * k, T(z) * x.f * x.n, x.n); xs_check(p.w > 0, "the far plane is in front of the eye"); T q = x.s * x.s, w = p.w / q; xs_check(near<T>(p.x / q, T(cx) * w, 65536) && near<T>(p.y / q, T(cy) * w, 65536) && near<T>(p.z / q, w, 65536), "a far corner of the frustum maps to the far corner of the clip cube"); }
}
template <typename T> static void fov(int kind) {
  T f = real<T>("fov", 0.125, 3), a = real<T>("aspect", 0.125, 4), n = real<T>("near", 0.125, 4), g = real<T>("far", 0.125, 16); apart<T>(g, n); T s = unit<T>(); n *= s; g *= s; T h = std::tan(f / 2); xs_assume(h > T(0.0626)); xs_assume(h < T(14.1)); int z = kind == 0 ? -1 : kind == 1 ? 1 : dir; auto m = kind == 0 ? perspective_rh(f, a, n, g) : kind == 1 ? perspective_lh(f, a, n, g) : perspective(f, a, n, g);
  int cx = xs_choice(0, 1, "right") ? 1 : -1, cy = xs_choice(0, 1, "top") ? 1 : -1; bool far = xs_choice(0, 1, "far"); T d = far ? g : n; at<T>(m, T(cx) * a * h * d, T(cy) * h * d, T(z) * d, T(cx), T(cy), far ? T(1) : T(-1), s, "a corner of the field of view maps to the corner of the clip cube");
}
template <typename T> static void orth(int kind) {
  auto x = box<T>(-16); int z = kind == 0 ? -1 : kind == 1 ? 1 : dir; auto m = kind == 0 ? ortho_rh(x.l, x.r, x.b, x.t, x.n, x.f) : kind == 1 ? ortho_lh(x.l, x.r, x.b, x.t, x.n, x.f) : ortho(x.l, x.r, x.b, x.t, x.n, x.f);
  int cx = xs_choice(0, 1, "right") ? 1 : -1, cy = xs_choice(0, 1, "top") ? 1 : -1; bool far = xs_choice(0, 1, "far"); auto p = m * Vector<T, 4>(cx > 0 ? x.r : x.l, cy > 0 ? x.t : x.b, T(z) * (far ? x.f : x.n), T(1)); xs_check(near<T>(p.w, 1), "an orthographic projection keeps w"); xs_check(near<T>(p.x, T(cx), 4096) && near<T>(p.y, T(cy), 4096) && near<T>(p.z, far ? T(1) : T(-1), 4096), "a corner of the box maps to the corner of the clip cube"); xs_obs_f("z", p.z);
}
XS_ENTRY(e_frustum_f) { frustum<float>(xs_choice(0, 2, "kind")); } XS_ENTRY(e_fov_f) { fov<float>(xs_choice(0, 2, "kind")); } XS_ENTRY(e_ortho_f) { orth<float>(xs_choice(0, 2, "kind")); }
XS_ENTRY(e_frustum_d) { frustum<double>(xs_choice(0, 2, "kind")); } XS_ENTRY(e_fov_d) { fov<double>(xs_choice(0, 2, "kind")); } XS_ENTRY(e_ortho_d) { orth<double>(xs_choice(0, 2, "kind")); }
// Depth is monotonic between the planes, and the view axis stays on the axis.
template <typename T> static void depth(int kind) {
  T f = real<T>("fov", 0.125, 3), n = real<T>("near", 0.125, 4), g = real<T>("far", 0.125, 16), d = real<T>("depth", 0.125, 16); xs_assume(g - n > T(0.125)); xs_assume(d > n); xs_assume(d < g); T h = std::tan(f / 2); xs_assume(h > T(0.0626)); xs_assume(h < T(14.1)); int z = kind ? 1 : -1; auto m = kind ? perspective_lh(f, T(1), n, g) : perspective_rh(f, T(1), n, g); auto p = m * Vector<T, 4>(T(0), T(0), T(z) * d, T(1)); xs_check(near<T>(p.x, 0) && near<T>(p.y, 0), "the view axis stays on the axis"); xs_check(near<T>(p.w, d), "w is the distance along the view axis"); T e = p.z * (g - n); xs_check(near<T>(e, (g + n) * d - 2 * g * n, 65536), "depth is (far + near) - 2 far near / distance, over far - near");
}
XS_ENTRY(e_depth) { depth<float>(xs_choice(0, 1, "lh")); }
// The extended type: the same matrices, with no step of less precision.
XS_ENTRY(e_ld) { using L = long double; int k = xs_choice(0, 2, "kind"); switch (xs_choice(0, 2, "which")) { case 0: frustum<L>(k); break; case 1: fov<L>(k); break; default: orth<L>(k); } }
