// @bounds vectors of 1, 2, 3, 4, 5, 7, 8, 9 and 16, 17 components, and of 33, 40 and 66 with one free component, over float, double, int32, uint32, uint64, uint8, int8, int16; every operand value (IEEE bit-exact, NaN, infinities and zeros included; int32 operands below 20000 in magnitude so that the reference itself has no signed overflow); right-hand operands of the same and of other element types
// @assume integral divisors are not zero; a floating operand used with an integral vector is within +-1000 (conversion defined)
#include "mathx.hpp"
using namespace mx;
template <typename T, typename U> static U rhs(bool div) { U u = ssym<U>("y"); if constexpr (std::is_integral_v<T> && std::is_floating_point_v<U>) xs_assume(u > -1000 && u < 1000); if constexpr (std::is_integral_v<T>) { if (div) { xs_assume((T)u != 0); if constexpr (std::is_signed_v<T> && sizeof(T) < 4) xs_assume((T)u != -1); } } if constexpr (std::is_same_v<U, long double>) xs_assume(!div || u != 0); return u; }
enum { ADD, SUB, MUL, DIV };
template <typename T> static T ref(int op, T a, T b) { switch (op) { case ADD: return (T)(a + b); case SUB: return (T)(a - b); case MUL: return (T)(a * b); default: return (T)(a / b); } }
template <typename T, size_t N, typename U> static void one(int op, int form) {
  Vector<T, N> a = svec<T, N>(), a0 = a, r; Vector<U, N> v; U s = rhs<T, U>(op == DIV); for (size_t i = 0; i < N; i++) v[i] = form & 1 ? rhs<T, U>(op == DIV) : s; const Vector<U, N> cv = v; const Vector<T, N> ca = a;
  switch (form) {
  case 0: r = op == ADD ? ca + s : op == SUB ? ca - s : op == MUL ? ca * s : ca / s; break;
  case 1: r = op == ADD ? ca + cv : op == SUB ? ca - cv : op == MUL ? ca * cv : ca / cv; break;
  case 2: { auto &q = op == ADD ? a += s : op == SUB ? a -= s : op == MUL ? a *= s : a /= s; xs_check(&q == &a, "compound assignment returns its left operand"); r = a; break; }
  default: { auto &q = op == ADD ? a += cv : op == SUB ? a -= cv : op == MUL ? a *= cv : a /= cv; xs_check(&q == &a, "compound assignment returns its left operand"); r = a; }
  }
  for (size_t i = 0; i < N; i++) { xs_check(same<T>(r[i], ref<T>(op, a0[i], static_cast<T>(v[i]))), "each component is the operation on the components, the right operand converted to the element type"); xs_check(same<T>(ca[i], a0[i]) && same<U>(cv[i], v[i]), "the operands keep their values"); }
  xs_reach("operation");
}
template <typename T, size_t N, typename U> static void all() { int op = xs_choice(0, 3, "operator"); int form = xs_choice(0, 3, "form"); one<T, N, U>(op, form); }
#define E5(name, T, U) XS_ENTRY(e_##name##_2) { all<T, 2, U>(); } XS_ENTRY(e_##name##_3) { all<T, 3, U>(); } XS_ENTRY(e_##name##_4) { all<T, 4, U>(); } XS_ENTRY(e_##name##_5) { all<T, 5, U>(); } XS_ENTRY(et_##name##_1) { all<T, 1, U>(); } XS_ENTRY(et_##name##_7) { all<T, 7, U>(); }
E5(f, float, float) E5(i, int32_t, int32_t) E5(fi, float, int32_t) E5(ifl, int32_t, float)
#define E4(name, T, U) XS_ENTRY(e_##name##_2) { all<T, 2, U>(); } XS_ENTRY(e_##name##_3) { all<T, 3, U>(); } XS_ENTRY(e_##name##_4) { all<T, 4, U>(); } XS_ENTRY(e_##name##_5) { all<T, 5, U>(); }
E4(u, u32, u32) E4(fd, float, double) E4(df, double, float) E4(u8, uint8_t, uint8_t)
#define T4(name, T, U) XS_ENTRY(et_##name##_2) { all<T, 2, U>(); } XS_ENTRY(et_##name##_3) { all<T, 3, U>(); } XS_ENTRY(et_##name##_4) { all<T, 4, U>(); } XS_ENTRY(et_##name##_5) { all<T, 5, U>(); }
T4(d, double, double) T4(i16, int16_t, int16_t) T4(u64, uint64_t, u32)
// An operand that is a component of the left-hand vector itself, and v op= v.
template <typename T, size_t N> static void alias(int op) {
  Vector<T, N> a = svec<T, N>(), o = a; if constexpr (std::is_integral_v<T>) if (op == DIV) for (size_t i = 0; i < N; i++) xs_assume(a[i] != 0);
  if (xs_choice(0, 1, "whole")) { op == ADD ? a += a : op == SUB ? a -= a : op == MUL ? a *= a : a /= a; for (size_t i = 0; i < N; i++) xs_check(same<T>(a[i], ref<T>(op, o[i], o[i])), "v op= v works on the old components"); }
  else { size_t k = xs_choice(0, N - 1, "component"); op == ADD ? a += a[k] : op == SUB ? a -= a[k] : op == MUL ? a *= a[k] : a /= a[k]; for (size_t i = 0; i < N; i++) xs_check(same<T>(a[i], ref<T>(op, o[i], o[k])), "v op= v[k] uses the old value of the component"); }
}
XS_ENTRY(e_alias_f) { int op = xs_choice(0, 3, "operator"); switch (xs_choice(2, 5, "N")) { case 2: alias<float, 2>(op); break; case 3: alias<float, 3>(op); break; case 4: alias<float, 4>(op); break; default: alias<float, 5>(op); } }
XS_ENTRY(e_alias_u) { int op = xs_choice(0, 3, "operator"); switch (xs_choice(2, 5, "N")) { case 2: alias<u32, 2>(op); break; case 3: alias<u32, 3>(op); break; case 4: alias<u32, 4>(op); break; default: alias<u32, 5>(op); } }
template <typename T, size_t N> static void neg() { const Vector<T, N> a = svec<T, N>(); Vector<T, N> o = a, r = -a; for (size_t i = 0; i < N; i++) { xs_check(same<T>(r[i], (T)(-o[i])), "unary minus negates every component"); xs_check(same<T>(a[i], o[i]), "the operand keeps its value"); } }
XS_ENTRY(e_neg) { switch (xs_choice(0, 7, "type")) { case 0: neg<float, 2>(); break; case 1: neg<float, 3>(); break; case 2: neg<float, 4>(); break; case 3: neg<float, 5>(); break; case 4: neg<int32_t, 2>(); break; case 5: neg<int32_t, 3>(); break; case 6: neg<int32_t, 4>(); break; default: neg<int32_t, 5>(); } }
template <typename T, size_t N> static void cmp() {
  const Vector<T, N> a = bvec<T, N>(), b = bvec<T, N>(); bool eq = true; for (size_t i = 0; i < N; i++) eq &= a[i] == b[i]; xs_check((a == b) == eq, "vectors are equal exactly when every component is equal"); xs_check((a != b) == !eq, "!= is the negation of ==");
  bool own = true; for (size_t i = 0; i < N; i++) own &= a[i] == a[i]; const auto &t = a; xs_check((a == t) == own && (a != t) == !own && (a <= t) == own && (a >= t) == own && !(a < t) && !(a > t), "a vector compares to itself as its components do");
  int c = 0; for (size_t i = 0; i < N && !c; i++) c = a[i] < b[i] ? -1 : b[i] < a[i] ? 1 : a[i] == b[i] ? 0 : 2;
  auto o = a <=> b; xs_check((o < 0) == (c == -1) && (o > 0) == (c == 1) && (o == 0) == (c == 0), "ordering is lexicographic in component order"); xs_check((a < b) == (c == -1) && (a > b) == (c == 1) && (a <= b) == (c == -1 || c == 0) && (a >= b) == (c == 1 || c == 0), "relational operators follow the ordering"); if (c == 2) xs_reach("unordered"); else xs_reach("ordered");
}
XS_ENTRY(e_cmp_2) { cmp<float, 2>(); } XS_ENTRY(e_cmp_3) { cmp<float, 3>(); } XS_ENTRY(e_cmp_4) { cmp<int32_t, 4>(); } XS_ENTRY(e_cmp_4f) { cmp<float, 4>(); } XS_ENTRY(e_cmp_5) { cmp<u32, 5>(); } XS_ENTRY(et_cmp_5f) { cmp<double, 5>(); } XS_ENTRY(et_cmp_2i) { cmp<int16_t, 2>(); } XS_ENTRY(et_cmp_3i) { cmp<uint8_t, 3>(); }
#define W2(name, N, T, U) XS_ENTRY(e_##name##_##N) { all<T, N, U>(); }
W2(f, 8, float, float) W2(f, 9, float, float) W2(f, 17, float, float) W2(u, 8, u32, u32) W2(u, 16, u32, u32) W2(dq, 2, double, double) W2(dq, 3, double, double) W2(dq, 4, double, double) W2(dq, 5, double, double) W2(dq, 8, double, double) W2(i16q, 3, int16_t, int16_t) W2(i16q, 5, int16_t, int16_t) W2(i8, 4, int8_t, int8_t) W2(u64q, 2, uint64_t, uint64_t) W2(fu, 3, float, uint8_t) W2(du, 4, double, u32)
template <typename T> static void cmps() { switch (xs_choice(0, 5, "N")) { case 0: cmp<T, 2>(); break; case 1: cmp<T, 3>(); break; case 2: cmp<T, 4>(); break; case 3: cmp<T, 5>(); break; case 4: cmp<T, 1>(); break; default: cmp<T, QT(6, 8)>(); } }
XS_ENTRY(e_cmp_f) { cmps<float>(); } XS_ENTRY(e_cmp_d) { cmps<double>(); } XS_ENTRY(e_cmp_i) { cmps<int32_t>(); } XS_ENTRY(e_cmp_u) { cmps<u32>(); } XS_ENTRY(e_cmp_u8) { cmps<uint8_t>(); }
template <typename T> static void negs() { switch (xs_choice(0, 5, "N")) { case 0: neg<T, 2>(); break; case 1: neg<T, 3>(); break; case 2: neg<T, 4>(); break; case 3: neg<T, 5>(); break; case 4: neg<T, 1>(); break; default: neg<T, 9>(); } }
XS_ENTRY(e_neg_d) { negs<double>(); } XS_ENTRY(e_neg_f) { negs<float>(); } XS_ENTRY(e_neg_i) { negs<int32_t>(); } XS_ENTRY(e_neg_i8) { negs<int8_t>(); } XS_ENTRY(e_neg_u) { negs<u32>(); }
// The extended type, as a real number: no step of less precision.
XS_ENTRY(e_ld) { using L = long double; switch (xs_choice(2, 5, "N")) { case 2: all<L, 2, L>(); break; case 3: all<L, 3, L>(); break; case 4: all<L, 4, L>(); break; default: all<L, 5, L>(); } }
XS_ENTRY(e_ld_neg) { using L = long double; switch (xs_choice(2, 5, "N")) { case 2: neg<L, 2>(); break; case 3: neg<L, 3>(); break; case 4: neg<L, 4>(); break; default: neg<L, 5>(); } }
// long vectors, one free component among fixed ones: every component takes part
template <typename T, size_t N, typename U> static void longv() {
  Vector<T, N> a; Vector<U, N> v; for (size_t i = 0; i < N; i++) { a[i] = T(5 + i % 60); v[i] = U(1 + i % 7); } const size_t at[] = {0, 4, 8, N / 2, N - 2, N - 1}; size_t k = at[xs_choice(0, 5, "component")]; int op = xs_choice(0, 3, "operator"), form = xs_choice(0, 3, "form"); a[k] = ssym<T>("x"); v[k] = rhs<T, U>(op == DIV); if (!(form & 1)) for (size_t i = 0; i < N; i++) if (i != k) v[i] = v[k]; const Vector<T, N> a0 = a; const Vector<U, N> cv = v; U s = v[k]; Vector<T, N> r;
  if (form == 0) r = op == ADD ? a0 + s : op == SUB ? a0 - s : op == MUL ? a0 * s : a0 / s; else if (form == 1) r = op == ADD ? a0 + cv : op == SUB ? a0 - cv : op == MUL ? a0 * cv : a0 / cv; else if (form == 2) { op == ADD ? a += s : op == SUB ? a -= s : op == MUL ? a *= s : a /= s; r = a; } else { op == ADD ? a += cv : op == SUB ? a -= cv : op == MUL ? a *= cv : a /= cv; r = a; }
  for (size_t i = 0; i < N; i++) xs_check(same<T>(r[i], ref<T>(op, a0[i], static_cast<T>(v[i]))), "each component is the operation on the components, the right operand converted to the element type");
  Vector<T, N> b = a0, n = -a0; for (size_t i = 0; i < N; i++) xs_check(same<T>(n[i], (T)(-a0[i])), "unary minus negates every component"); b[k] = (T)v[k]; bool eq = a0[k] == b[k]; xs_check((a0 == b) == eq && (a0 != b) == !eq && (a0 < b) == (a0[k] < b[k]) && (a0 > b) == (b[k] < a0[k]), "every component takes part in comparisons"); xs_reach("long");
}
XS_ENTRY(e_long_f) { switch (xs_choice(0, 1, "N")) { case 0: longv<float, 33, float>(); break; default: longv<float, 40, float>(); } } XS_ENTRY(e_long_d) { longv<double, 40, float>(); } XS_ENTRY(e_long_i) { longv<int16_t, 40, int16_t>(); } XS_ENTRY(e_long_u) { longv<u32, 66, u32>(); } XS_ENTRY(et_long_df) { longv<float, 66, double>(); }
