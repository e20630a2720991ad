// @configs none, ndebug
// @bounds vectors of 2, 3, 4, 5 (and 1, 7) components; every argument value; source element types float, double, int32, uint8; every index below 2^64 for operator[]
// @assume a floating value converted to an integral component is within +-1000
#include "assert_expect.hpp"
#include "mathx.hpp"
using namespace mx;
// values at the edges of the types, where a detour through another type would show
static bool pinned = false; static int turn = 0;
template <typename U> static U edge() { static const int64_t v[] = {INT64_MAX, INT64_MIN + 1, (1ll << 53) + 1, -(1ll << 32) - 1, 16777217, 0x7fffffff80000001ll, -1, 1}; return static_cast<U>(v[turn++ & 7]); }
template <typename T, typename U> static U in() { if (pinned) return edge<U>(); U u = sym<U>("a"); if constexpr (std::is_integral_v<T> && std::is_floating_point_v<U>) xs_assume(u > -1000 && u < 1000); return u; }
template <typename T, typename U> static bool eq(T c, U a) { return same<T>(c, static_cast<T>(a)); }
template <typename T, typename U> static void made() {
  U a = in<T, U>(), b = in<T, U>(), c = in<T, U>(), d = in<T, U>(), e = in<T, U>();
  switch (xs_choice(0, 15, "constructor")) {
  case 0: { Vector<T, 2> v(a); xs_check(eq<T>(v.x, a) && eq<T>(v.y, a), "a scalar fills every component"); break; }
  case 1: { Vector<T, 3> v(a); xs_check(eq<T>(v.x, a) && eq<T>(v.y, a) && eq<T>(v.z, a), "a scalar fills every component"); break; }
  case 2: { Vector<T, 4> v(a); xs_check(eq<T>(v.x, a) && eq<T>(v.y, a) && eq<T>(v.z, a) && eq<T>(v.w, a), "a scalar fills every component"); break; }
  case 3: { Vector<T, 5> v(a); bool ok = true; for (int i = 0; i < 5; i++) ok &= eq<T>(v[i], a); xs_check(ok, "a scalar fills every component"); break; }
  case 4: { Vector<T, 2> v(a, b); xs_check(eq<T>(v.x, a) && eq<T>(v.y, b), "components in order"); break; }
  case 5: { Vector<T, 3> v(a, b, c); xs_check(eq<T>(v.x, a) && eq<T>(v.y, b) && eq<T>(v.z, c), "components in order"); break; }
  case 6: { Vector<T, 4> v(a, b, c, d); xs_check(eq<T>(v.x, a) && eq<T>(v.y, b) && eq<T>(v.z, c) && eq<T>(v.w, d), "components in order"); break; }
  case 7: { Vector<T, 5> v(a, b, c, d, e); xs_check(eq<T>(v[0], a) && eq<T>(v[1], b) && eq<T>(v[2], c) && eq<T>(v[3], d) && eq<T>(v[4], e), "components in order"); break; }
  case 8: { Vector<U, 2> p(a, b); Vector<T, 3> v(p, c), w(c, p); xs_check(eq<T>(v.x, a) && eq<T>(v.y, b) && eq<T>(v.z, c), "vector then scalar"); xs_check(eq<T>(w.x, c) && eq<T>(w.y, a) && eq<T>(w.z, b), "scalar then vector"); break; }
  case 9: { Vector<U, 2> p(a, b); Vector<T, 4> v(p, c, d), w(c, p, d), x(c, d, p); xs_check(eq<T>(v.x, a) && eq<T>(v.y, b) && eq<T>(v.z, c) && eq<T>(v.w, d), "vector, scalar, scalar"); xs_check(eq<T>(w.x, c) && eq<T>(w.y, a) && eq<T>(w.z, b) && eq<T>(w.w, d), "scalar, vector, scalar"); xs_check(eq<T>(x.x, c) && eq<T>(x.y, d) && eq<T>(x.z, a) && eq<T>(x.w, b), "scalar, scalar, vector"); break; }
  case 10: { Vector<U, 2> p(a, b); Vector<T, 2> q(c, d); Vector<T, 4> v(p, q), w(q, p); xs_check(eq<T>(v.x, a) && eq<T>(v.y, b) && same<T>(v.z, static_cast<T>(c)) && same<T>(v.w, static_cast<T>(d)), "vector, vector"); xs_check(same<T>(w.x, static_cast<T>(c)) && same<T>(w.y, static_cast<T>(d)) && eq<T>(w.z, a) && eq<T>(w.w, b), "vector, vector"); break; }
  case 11: { Vector<U, 3> p(a, b, c); Vector<T, 4> v(p, d), w(d, p); xs_check(eq<T>(v.x, a) && eq<T>(v.y, b) && eq<T>(v.z, c) && eq<T>(v.w, d), "vector then scalar"); xs_check(eq<T>(w.x, d) && eq<T>(w.y, a) && eq<T>(w.z, b) && eq<T>(w.w, c), "scalar then vector"); break; }
  case 12: { Vector<U, 2> p(a, b); Vector<T, 2> v(p), w(e, e); auto &r = w = p; xs_check(&r == &w, "assignment returns the target"); xs_check(eq<T>(v.x, a) && eq<T>(v.y, b), "conversion keeps the order"); xs_check(eq<T>(w.x, a) && eq<T>(w.y, b), "converting assignment"); break; }
  case 13: { Vector<U, 3> p(a, b, c); Vector<T, 3> v(p), w(e); auto &r = w = p; xs_check(&r == &w, "assignment returns the target"); xs_check(eq<T>(v.x, a) && eq<T>(v.y, b) && eq<T>(v.z, c), "conversion keeps the order"); xs_check(eq<T>(w.x, a) && eq<T>(w.y, b) && eq<T>(w.z, c), "converting assignment"); break; }
  case 14: { Vector<U, 4> p(a, b, c, d); Vector<T, 4> v(p), w(e); auto &r = w = p; xs_check(&r == &w, "assignment returns the target"); xs_check(eq<T>(v.x, a) && eq<T>(v.y, b) && eq<T>(v.z, c) && eq<T>(v.w, d), "conversion keeps the order"); xs_check(eq<T>(w.x, a) && eq<T>(w.y, b) && eq<T>(w.z, c) && eq<T>(w.w, d), "converting assignment"); break; }
  default: { Vector<U, 5> p(a, b, c, d, e); Vector<T, 5> v(p), w(e); auto &r = w = p; xs_check(&r == &w, "assignment returns the target"); const U s[] = {a, b, c, d, e}; bool ok = true, ok2 = true; for (int i = 0; i < 5; i++) { ok &= eq<T>(v[i], s[i]); ok2 &= eq<T>(w[i], s[i]); } xs_check(ok, "conversion keeps the order"); xs_check(ok2, "converting assignment"); }
  }
}
template <typename T, typename U> static void edges() { pinned = true; turn = xs_choice(0, 7, "first"); made<T, U>(); pinned = false; }
XS_ENTRY(e_edges) { switch (xs_choice(0, 7, "types")) { case 0: edges<int64_t, int64_t>(); break; case 1: edges<uint64_t, int64_t>(); break; case 2: edges<int32_t, int64_t>(); break; case 3: edges<int64_t, uint64_t>(); break; case 4: edges<double, int64_t>(); break; case 5: edges<float, int64_t>(); break; case 6: edges<int16_t, uint64_t>(); break; case 7: edges<float, int32_t>(); break; } }
XS_ENTRY(e_ff) { made<float, float>(); } XS_ENTRY(e_fi) { made<float, int32_t>(); } XS_ENTRY(e_if) { made<int32_t, float>(); } XS_ENTRY(e_fd) { made<float, double>(); } XS_ENTRY(e_ii) { made<int32_t, int32_t>(); } XS_ENTRY(e_u8i) { made<uint8_t, int32_t>(); } XS_ENTRY(e_df) { made<double, float>(); } XS_ENTRY(e_du8) { made<double, uint8_t>(); } XS_ENTRY(e_i64d) { made<int64_t, double>(); } XS_ENTRY(e_id) { made<int32_t, double>(); } XS_ENTRY(e_i16f) { made<int16_t, float>(); } XS_ENTRY(e_i8i) { made<int8_t, int64_t>(); } XS_ENTRY(et_u64i8) { made<uint64_t, int8_t>(); }
template <typename T, size_t N> static void index() {
  Vector<T, N> v = bvec<T, N>(); T x = sym<T>("n"); Vector<T, N> o = v; size_t i = xs_u64("i"); bool in = i < N;
  if (xs_choice(0, 1, "const")) { const Vector<T, N> &c = v; if (!in) hx::reject_expected = true; const T &r = c[i]; hx::reject_expected = false; xs_check(in, "an index past the last component is refused"); if (in) { xs_check(&r == &v[i], "both overloads name the same component"); xs_reach("read"); } }
  else { if (!in) hx::reject_expected = true; T &r = v[i]; hx::reject_expected = false; xs_check(in, "an index past the last component is refused"); if (in) { r = x; for (size_t k = 0; k < N; k++) xs_check(same<T>(v[k], k == i ? x : o[k]), "writing through an index changes that component only"); xs_reach("written"); } }
}
XS_ENTRY(e_index_2) { index<float, 2>(); } XS_ENTRY(e_index_3) { index<u32, 3>(); } XS_ENTRY(e_index_4) { index<float, 4>(); } XS_ENTRY(e_index_5) { index<u32, 5>(); } XS_ENTRY(et_index_7) { index<double, 7>(); } XS_ENTRY(et_index_3b) { index<uint8_t, 3>(); }
XS_ENTRY(e_named) {
  float a = xs_f32("a"), b = xs_f32("b"), c = xs_f32("c"), d = xs_f32("d"); Vector<float, 2> p(a, b); Vector<float, 3> q(a, b, c); Vector<float, 4> r(a, b, c, d);
  xs_check(&p[0] == &p.x && &p[1] == &p.y, "v[0], v[1] are x, y"); xs_check(&q[0] == &q.x && &q[1] == &q.y && &q[2] == &q.z, "v[0..2] are x, y, z"); xs_check(&r[0] == &r.x && &r[1] == &r.y && &r[2] == &r.z && &r[3] == &r.w, "v[0..3] are x, y, z, w");
}
XS_ENTRY(e_guides) { // deduction: the common type of the arguments
  static_assert(std::is_same_v<decltype(Vector(1, 2)), Vector<int, 2>> && std::is_same_v<decltype(Vector(1, 2.f, 3)), Vector<float, 3>> && std::is_same_v<decltype(Vector(1, 2.0, 3.f, 4)), Vector<double, 4>> && std::is_same_v<decltype(Vector(1, 2, 3, 4, 5u)), Vector<unsigned, 5>>);
  int32_t a = xs_u32("a"); float b = xs_f32("b"); auto v = Vector(a, b); xs_check(same<float>(v.x, (float)a) && same<float>(v.y, b), "deduced components"); auto w = Vector(b, a, b, a, b); xs_check(same<float>(w[0], b) && same<float>(w[1], (float)a) && same<float>(w[4], b), "deduced components");
}
// scalars and vectors of different element types in one constructor: each component is converted from its own source
template <typename T, typename A, typename B, typename C> static void mixed() {
  A a = in<T, A>(); B b = in<T, B>(), b2 = in<T, B>(), b3 = in<T, B>(); C c = in<T, C>(); Vector<B, 2> p(b, b2); Vector<B, 3> q(b, b2, b3);
  auto is = [](const Vector<T, 4> &v, auto x, auto y, auto z, auto w) { return eq<T>(v.x, x) && eq<T>(v.y, y) && eq<T>(v.z, z) && eq<T>(v.w, w); };
  switch (xs_choice(0, 8, "constructor")) {
  case 0: xs_check(is(Vector<T, 4>(a, p, c), a, b, b2, c), "scalar, vector, scalar"); break;
  case 1: xs_check(is(Vector<T, 4>(p, a, c), b, b2, a, c), "vector, scalar, scalar"); break;
  case 2: xs_check(is(Vector<T, 4>(a, c, p), a, c, b, b2), "scalar, scalar, vector"); break;
  case 3: { Vector<C, 2> r(c, c); xs_check(is(Vector<T, 4>(p, r), b, b2, c, c) && is(Vector<T, 4>(r, p), c, c, b, b2), "two vectors"); break; }
  case 4: xs_check(is(Vector<T, 4>(a, q), a, b, b2, b3) && is(Vector<T, 4>(q, c), b, b2, b3, c), "a three-vector and a scalar"); break;
  case 5: xs_check(is(Vector<T, 4>(a, b, c, b2), a, b, c, b2), "four scalars"); break;
  case 6: { Vector<T, 3> v(a, p), w(p, c), x(a, b, c); xs_check(eq<T>(v.x, a) && eq<T>(v.y, b) && eq<T>(v.z, b2) && eq<T>(w.x, b) && eq<T>(w.y, b2) && eq<T>(w.z, c) && eq<T>(x.x, a) && eq<T>(x.y, b) && eq<T>(x.z, c), "three-vectors"); break; }
  case 7: { Vector<T, 2> v(a, b), w(c, a); xs_check(eq<T>(v.x, a) && eq<T>(v.y, b) && eq<T>(w.x, c) && eq<T>(w.y, a), "two-vectors"); break; }
  default: { Vector<T, 5> v(a, b, c, b2, a); xs_check(eq<T>(v[0], a) && eq<T>(v[1], b) && eq<T>(v[2], c) && eq<T>(v[3], b2) && eq<T>(v[4], a), "five scalars"); } }
  xs_reach("mixed");
}
XS_ENTRY(e_mixed_dif) { mixed<double, double, int32_t, float>(); } XS_ENTRY(e_mixed_ffi) { mixed<float, float, uint8_t, double>(); } XS_ENTRY(e_mixed_iu) { mixed<int32_t, int32_t, uint8_t, float>(); } XS_ENTRY(et_mixed_did) { mixed<double, int64_t, float, double>(); } XS_ENTRY(et_mixed_iii) { mixed<int64_t, int64_t, int8_t, int32_t>(); }
// The extended type, as a real number: no step of less precision.
XS_ENTRY(e_ld) { made<long double, long double>(); }
XS_ENTRY(e_ld_edges) { edges<long double, int64_t>(); }
