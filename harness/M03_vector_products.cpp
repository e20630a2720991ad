// @bounds vectors of 2, 3, 4, 5, 8, 9, 16, 17, 33, 40 (thorough also 1, 7) components; dot, cross, reflect, faceforward, lerp and mix as real functions of every operand within +-2^20 (float, double) and exactly over uint32; the boolean selections bit-exactly for every operand
// @assume faceforward: dot(n, i) is not zero (the documentation leaves that case open)
#include "mathx.hpp"
using namespace mx;
template <typename T, size_t N> static void dots() {
  auto a = rvec<T, N>(), b = rvec<T, N>(), c = rvec<T, N>(); T k = real<T>("k"), s = 0; for (size_t i = 0; i < N; i++) s += a[i] * b[i]; xs_check(near<T>(dot(a, b), s, 512), "dot is the sum of the products of the components"); xs_check(near<T>(dot(a, b), dot(b, a), 512), "dot is symmetric"); xs_check(near<T>(dot(a * k + c, b), k * dot(a, b) + dot(c, b), 8192), "dot is linear"); xs_obs_f("dot", dot(a, b));
}
XS_ENTRY(e_dot_2) { dots<float, 2>(); } XS_ENTRY(e_dot_3) { dots<float, 3>(); } XS_ENTRY(e_dot_4) { dots<float, 4>(); } XS_ENTRY(e_dot_5) { dots<double, 5>(); } XS_ENTRY(et_dot_1) { dots<double, 1>(); } XS_ENTRY(et_dot_7) { dots<float, 7>(); }
template <size_t N> static void doti() { auto a = bvec<u32, N>(), b = bvec<u32, N>(); u32 s = 0; for (size_t i = 0; i < N; i++) s += a[i] * b[i]; xs_check(dot(a, b) == s, "dot is the sum of the products of the components"); xs_obs_u64("dot", s); }
XS_ENTRY(e_dot_int) { switch (xs_choice(2, 5, "N")) { case 2: doti<2>(); break; case 3: doti<3>(); break; case 4: doti<4>(); break; default: doti<5>(); } }
template <typename T> static void crosses() {
  auto a = rvec<T, 3>(), b = rvec<T, 3>(); auto c = cross(a, b);
  xs_check(near<T>(c.x, a.y * b.z - a.z * b.y, 512) && near<T>(c.y, a.z * b.x - a.x * b.z, 512) && near<T>(c.z, a.x * b.y - a.y * b.x, 512), "cross product, right-handed"); xs_check(near<T>(dot(c, a), 0, 8192) && near<T>(dot(c, b), 0, 8192), "the cross product is orthogonal to both operands"); xs_check(near<T>(dot(c, c), dot(a, a) * dot(b, b) - dot(a, b) * dot(a, b), 1e6), "|a x b|^2 = |a|^2 |b|^2 - (a.b)^2"); auto d = cross(b, a); for (int i = 0; i < 3; i++) { xs_check(near<T>(d[i], -c[i], 512), "swapping the operands negates the product"); xs_obs_f("c", c[i]); }
}
XS_ENTRY(e_cross_f) { crosses<float>(); } XS_ENTRY(e_cross_d) { crosses<double>(); }
XS_ENTRY(e_cross_int) { auto a = bvec<u32, 3>(), b = bvec<u32, 3>(); auto c = cross(a, b); xs_check(c.x == a.y * b.z - a.z * b.y && c.y == a.z * b.x - a.x * b.z && c.z == a.x * b.y - a.y * b.x, "cross product"); }
template <typename T, size_t N> static void reflects() {
  auto v = rvec<T, N>(), n = rvec<T, N>(); auto r = reflect(v, n); T d = 0; for (size_t i = 0; i < N; i++) d += v[i] * n[i]; for (size_t i = 0; i < N; i++) { xs_check(near<T>(r[i], v[i] - 2 * d * n[i], 8192), "reflect is v - 2 (v.n) n"); xs_obs_f("r", r[i]); } T nn = dot(n, n); xs_check(near<T>(dot(r, r), dot(v, v) - 4 * d * d + 4 * d * d * nn, 1e8), "reflecting at a unit normal keeps the length");
}
XS_ENTRY(e_reflect_2) { reflects<float, 2>(); } XS_ENTRY(e_reflect_3) { reflects<float, 3>(); } XS_ENTRY(e_reflect_4) { reflects<double, 4>(); } XS_ENTRY(e_reflect_5) { reflects<float, 5>(); }
template <size_t N> static void reflecti() { auto v = bvec<u32, N>(), n = bvec<u32, N>(); auto r = reflect(v, n); u32 d = 0; for (size_t i = 0; i < N; i++) d += v[i] * n[i]; for (size_t i = 0; i < N; i++) xs_check(r[i] == v[i] - n[i] * d * 2, "reflect is v - 2 (v.n) n"); }
XS_ENTRY(e_reflect_int) { reflecti<3>(); }
template <typename T, size_t N> static void faces() {
  auto v = rvec<T, N>(), i = rvec<T, N>(), n = rvec<T, N>(); T d = 0; for (size_t k = 0; k < N; k++) d += i[k] * n[k]; int u = xs_choice(0, 2, "unit"); n = n * (u == 0 ? T(1) : u == 1 ? T(1.0 / (1 << 20)) : T(1 << 16)); bool away = d > T(0.01), toward = d < T(-0.01); xs_assume(away || toward); auto r = faceforward(v, i, n); for (size_t k = 0; k < N; k++) { xs_check(near<T>(r[k], toward ? v[k] : -v[k]), "v when the incident vector opposes the normal, -v when it follows it"); xs_obs_f("r", r[k]); } if (away) xs_reach("flipped"); else xs_reach("kept");
}
XS_ENTRY(e_face_2) { faces<float, 2>(); } XS_ENTRY(e_face_3) { faces<float, 3>(); } XS_ENTRY(e_face_4) { faces<double, 4>(); } XS_ENTRY(e_face_5) { faces<float, 5>(); }
XS_ENTRY(e_face_int) { auto v = svec<int32_t, 3>(), i = svec<int32_t, 3>(), n = svec<int32_t, 3>(); for (int k = 0; k < 3; k++) xs_assume(i[k] > -100 && i[k] < 100 && n[k] > -100 && n[k] < 100); int d = i.x * n.x + i.y * n.y + i.z * n.z; xs_assume(d != 0); auto r = faceforward(v, i, n); for (int k = 0; k < 3; k++) xs_check(r[k] == (d < 0 ? v[k] : -v[k]), "v when the incident vector opposes the normal, -v when it follows it"); }
// the interpolation may be as coarse as the coarser of the two element types
template <typename T, typename P, size_t N> static void lerps() {
  using C = std::conditional_t<(sizeof(P) < sizeof(T)), P, T>;
  auto a = rvec<T, N>(), b = rvec<T, N>(); bool m = xs_choice(0, 1, "mix"); P p = real<P>("p"); auto r = m ? mix(a, b, p) : lerp(a, b, p); for (size_t i = 0; i < N; i++) { xs_check(near<C>((C)r[i], (C)(a[i] + (b[i] - a[i]) * (T)p), 512), "uniform interpolation from the first vector to the second"); xs_obs_f("r", r[i]); }
  Vector<P, N> q; for (size_t i = 0; i < N; i++) q[i] = real<P>("q"); auto s = m ? mix(a, b, q) : lerp(a, b, q); for (size_t i = 0; i < N; i++) xs_check(near<C>((C)s[i], (C)(a[i] + (b[i] - a[i]) * (T)q[i]), 512), "component i interpolates by percent[i]");
}
XS_ENTRY(e_lerp_2) { lerps<float, float, 2>(); } XS_ENTRY(e_lerp_3) { lerps<float, float, 3>(); } XS_ENTRY(e_lerp_4) { lerps<float, float, 4>(); } XS_ENTRY(e_lerp_5) { lerps<double, double, 5>(); } XS_ENTRY(e_lerp_fd) { lerps<float, double, 3>(); } XS_ENTRY(e_lerp_df) { lerps<double, float, 2>(); }
template <typename T, size_t N> static void lerpi() { // integral percent: 0 and 1 select, others extrapolate
  auto a = rvec<T, N>(), b = rvec<T, N>(); int p = xs_choice(-2, 3, "percent"); auto r = lerp(a, b, p); Vector<int32_t, N> q; for (size_t i = 0; i < N; i++) q[i] = xs_choice(-1, 2, "percent"); auto s = mix(a, b, q); for (size_t i = 0; i < N; i++) { xs_check(near<T>(r[i], a[i] + (b[i] - a[i]) * p, 512), "uniform interpolation by an integer"); xs_check(near<T>(s[i], a[i] + (b[i] - a[i]) * q[i], 512), "interpolation by an integer vector"); }
}
// factors of every integral type, also beyond one
template <typename T, typename P, int LO, size_t N> static void lerpk() {
  auto a = rvec<T, N>(), b = rvec<T, N>(); P p = (P)xs_choice(LO, 3, "percent"); auto r = lerp(a, b, p); auto r2 = mix(a, b, p); Vector<P, N> q; for (size_t i = 0; i < N; i++) q[i] = (P)xs_choice(LO, 3, "percent"); auto s = mix(a, b, q); auto s2 = lerp(a, b, q);
  for (size_t i = 0; i < N; i++) { T w = a[i] + (b[i] - a[i]) * T(p), v = a[i] + (b[i] - a[i]) * T(q[i]); xs_check(near<T>(r[i], w, 512) && near<T>(r2[i], w, 512), "uniform interpolation by an integer"); xs_check(near<T>(s[i], v, 512) && near<T>(s2[i], v, 512), "interpolation by an integer vector"); xs_obs_f("r", r[i]); }
}
XS_ENTRY(e_lerp_u32) { lerpk<float, uint32_t, 0, 2>(); } XS_ENTRY(e_lerp_u64) { lerpk<double, uint64_t, 0, 2>(); } XS_ENTRY(e_lerp_u8) { lerpk<float, uint8_t, 0, 2>(); } XS_ENTRY(e_lerp_i8) { lerpk<double, int8_t, -2, 2>(); } XS_ENTRY(e_lerp_i64) { lerpk<float, int64_t, -2, 2>(); } XS_ENTRY(e_lerp_u32d) { lerpk<double, uint32_t, 0, 2>(); }
XS_ENTRY(e_lerp_int) { lerpi<float, 2>(); } XS_ENTRY(et_lerp_int3) { lerpi<double, 3>(); }
template <typename T, size_t N> static void lerpb() { // a boolean percent selects, whatever the values (NaN and infinities included)
  auto a = bvec<T, N>(), b = bvec<T, N>(); bool m = xs_choice(0, 1, "mix"); bool p = xs_u8("p") & 1; auto r = m ? mix(a, b, p) : lerp(a, b, p); Vector<bool, N> q; for (size_t i = 0; i < N; i++) q[i] = xs_u8("q") & 1; auto s = m ? mix(a, b, q) : lerp(a, b, q); for (size_t i = 0; i < N; i++) { xs_check(same<T>(r[i], p ? b[i] : a[i]), "a bool selects one of the vectors"); xs_check(same<T>(s[i], q[i] ? b[i] : a[i]), "a bool vector selects by component"); }
}
XS_ENTRY(e_lerp_bool_2) { lerpb<float, 2>(); } XS_ENTRY(e_lerp_bool_3) { lerpb<float, 3>(); } XS_ENTRY(e_lerp_bool_4) { lerpb<double, 4>(); } XS_ENTRY(e_lerp_bool_5) { lerpb<float, 5>(); }
// the remaining element types and component counts
#define W(n, ...) XS_ENTRY(e_##n) { __VA_ARGS__; }
W(dot_2d, (dots<double, 2>())) W(dot_3d, (dots<double, 3>())) W(dot_4d, (dots<double, 4>())) W(dot_5f, (dots<float, 5>())) W(dot_8, (dots<float, 8>())) W(dot_9, (dots<double, 9>())) W(dot_16, (dots<float, 16>())) W(dot_17, (dots<float, 17>())) W(dot_33, (dots<double, 33>())) W(dot_40, (dots<float, 40>()))
W(reflect_2d, (reflects<double, 2>())) W(reflect_3d, (reflects<double, 3>())) W(reflect_4f, (reflects<float, 4>())) W(reflect_5d, (reflects<double, 5>())) W(reflect_8, (reflects<float, 8>())) W(reflect_9, (reflects<float, 9>())) W(reflect_17, (reflects<double, 17>())) W(face_40, (faces<float, 40>()))
W(face_2d, (faces<double, 2>())) W(face_3d, (faces<double, 3>())) W(face_4f, (faces<float, 4>())) W(face_5d, (faces<double, 5>())) W(face_8, (faces<float, 8>()))
W(lerp_2d, (lerps<double, double, 2>())) W(lerp_3d, (lerps<double, double, 3>())) W(lerp_4d, (lerps<double, double, 4>())) W(lerp_5f, (lerps<float, float, 5>())) W(lerp_df4, (lerps<double, float, 4>())) W(lerp_fd5, (lerps<float, double, 5>())) W(lerp_8, (lerps<float, float, 8>())) W(lerp_17, (lerps<float, float, 17>())) W(lerp_40, (lerps<double, double, 40>())) W(lerp_34, (lerps<float, float, 34>()))
W(lerp_int4, (lerpi<float, 4>())) W(lerp_int5, (lerpi<double, 5>())) W(lerp_bool_2d, (lerpb<double, 2>())) W(lerp_bool_4f, (lerpb<float, 4>())) W(lerp_bool_8, (lerpb<float, 8>()))
// The extended type: the same functions, with no step of less precision.
XS_ENTRY(e_ld) { using L = long double; switch (xs_choice(0, 9, "which")) { case 0: dots<L, 3>(); break; case 1: dots<L, 5>(); break; case 2: crosses<L>(); break; case 3: reflects<L, 3>(); break; case 4: reflects<L, 5>(); break; case 5: faces<L, 2>(); break; case 6: faces<L, 5>(); break; case 7: lerps<L, L, 2>(); break; case 8: lerps<L, L, 4>(); break; default: lerps<L, L, 5>(); } }
XS_ENTRY(e_ld4) { using L = long double; switch (xs_choice(0, 4, "which")) { case 0: dots<L, 2>(); break; case 1: dots<L, 4>(); break; case 2: reflects<L, 4>(); break; case 3: faces<L, 4>(); break; default: lerps<L, L, 3>(); } }
// boolean selection and integral factors in long vectors, one free component
template <typename T, size_t N> static void lerpbw() { Vector<T, N> a, b; Vector<bool, N> q; for (size_t i = 0; i < N; i++) { a[i] = T(i); b[i] = T(100 + i); q[i] = i % 3 == 1; } size_t k = xs_choice(0, N - 1, "component"); a[k] = sym<T>("a"); b[k] = sym<T>("b"); q[k] = xs_u8("q") & 1; auto s = lerp(a, b, q), s2 = mix(a, b, q); bool p = xs_u8("p") & 1; auto r = lerp(a, b, p); for (size_t i = 0; i < N; i++) { xs_check(same<T>(s[i], q[i] ? b[i] : a[i]) && same<T>(s2[i], q[i] ? b[i] : a[i]), "a bool vector selects by component"); xs_check(same<T>(r[i], p ? b[i] : a[i]), "a bool selects one of the vectors"); } }
XS_ENTRY(e_lerp_bool_wide) { switch (xs_choice(0, 4, "N")) { case 0: lerpbw<float, 7>(); break; case 1: lerpbw<float, 9>(); break; case 2: lerpbw<double, 17>(); break; case 3: lerpbw<float, 34>(); break; default: lerpbw<float, 40>(); } }
