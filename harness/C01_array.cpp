// @configs none, ndebug
// @opt maxsteps=40000000
// @bounds every (size, capacity) state with size <= 3 (thorough: 4) and capacity - size <= 2, then any one operation with any position, source and range length <= 2 (3); and every 3-step history from the empty array; arrays of 9 to 130 (300) elements with one operation at the start, in the middle and at the end, ranges of 67 and 260 (520) elements inserted, appended and erased; arrays of 66000 elements, growth, insertion and range insertion past 65536; values are symbolic 32-bit
#include <span>
#include "array_ops.hpp"
using namespace hx;
template <typename T> static void step(int lo, int hi) {
  xme::Array<T> a; Model m;
  any_state(a, m, QT(3, 4), 2);
  one_op(a, m, lo, hi, QT(2, 3));
  same(a, m);
  // the result is usable: one more element at the end and at the front
  u32 x = fresh(), y = fresh();
  a.push_back(T(x)); m.push(x); a.insert(a.begin(), T(y)); m.insert(0, y);
  same(a, m);
  for (int i = 0; i < m.n; i++) xs_obs_u64("e", raw(a[i]));
}
XS_ENTRY(e_int_push) { step<u32>(OP_PUSH, OP_PUSH_INPUT); }
XS_ENTRY(e_int_insert) { step<u32>(OP_INSERT, OP_INSERT_INPUT); }
XS_ENTRY(e_int_other) { step<u32>(OP_ERASE, OP_LAST); }
XS_ENTRY(e_val_push) { step<Val>(OP_PUSH, OP_PUSH_INPUT); }
XS_ENTRY(e_val_insert) { step<Val>(OP_INSERT, OP_INSERT_INPUT); }
XS_ENTRY(e_val_other) { step<Val>(OP_ERASE, OP_LAST); }
static const int hist[] = {OP_PUSH, OP_INSERT_SELF, OP_INSERT_RANGE, OP_ERASE, OP_POP, OP_CLEAR, OP_RESIZE, OP_PUSH_ITERS};
template <typename T> static void history(int steps) {
  xme::Array<T> a; Model m;
  for (int s = 0; s < steps; s++) { int o = hist[xs_choice(0, 7, "kind")]; one_op(a, m, o, o, 2); }
  same(a, m);
}
XS_ENTRY(e_hist) { history<Val>(QT(3, 4)); }
// construction
template <typename T> static void ctor() {
  Model m; u32 src[3]; int k = xs_choice(0, 3, "length");
  for (int i = 0; i < 3; i++) src[i] = fresh();
  for (int i = 0; i < k; i++) m.push(src[i]);
  typename InIt<T>::Src s{src, src + k};
  switch (xs_choice(0, 6, "constructor")) {
  case 0: { xme::Array<T> a((std::size_t)k, T(src[0])); Model f; for (int i = 0; i < k; i++) f.push(src[0]); same(a, f); xs_reach("fill"); break; }
  case 1: { xme::Array<T> a(src + 0, src + k); same(a, m); break; }
  case 2: { xme::Array<T> a(InIt<T>{&s}, std::default_sentinel); same(a, m); break; }
  case 3: { xme::Array<T> a{T(src[0]), T(src[1]), T(src[2])}; Model f; f.insert(0, src, 3); same(a, f); break; }
  case 4: { std::array<T, 3> r{T(src[0]), T(src[1]), T(src[2])}; xme::Array<T> a(r); Model f; f.insert(0, src, 3); same(a, f); break; }
  case 5: { xme::Array<T> a((std::size_t)k); Model f; same(a, f); xs_check(a.capacity() == (std::size_t)k, "capacity constructor"); a.push_back(T(src[0])); f.push(src[0]); same(a, f); break; }
  case 6: { xme::Array<T> a; Model f; same(a, f); xs_check(a.capacity() == 0, "default construction allocates nothing"); break; }
  }
}
XS_ENTRY(e_ctor_int) { ctor<u32>(); }
XS_ENTRY(e_ctor_val) { ctor<Val>(); }
static const int longs[] = {9, 16, 17, 33, 64, 65, 128, 130, 257, 300};
XS_ENTRY(e_long_int) { int n = longs[xs_choice(0, QT(7, 9), "length")]; long_op<u32>(n, xs_choice(0, 1, "tight"), [](int) {}); }
XS_ENTRY(e_long_val) { int n = longs[xs_choice(QT(3, 0), QT(5, 9), "length")]; long_op<Val>(n, xs_choice(0, 1, "tight"), [](int) {}); }
// long sources and counts
template <typename T> static void long_source(int n) {
  static T src[600]; u32 s = fresh(), x = fresh(); for (int i = 0; i < n; i++) src[i] = T(s + 5 * (u32)i); xme::Array<T> a; LongModel<600> m;
  int k = xs_choice(0, 7, "operation"), p = xs_choice(0, 3, "position"); auto pre = [&] { for (int i = 0; i < 3; i++) { a.push_back(T(x)); m.insert(i, x); } }; auto put = [&](int at) { m.splice(at, n, [&](int i) { return s + 5 * (u32)i; }); };
  switch (k) {
  case 0: { if (p) xs_stop_path(); a.push_back(src, src + n); put(0); break; }
  case 1: { pre(); if (p < 2) a.reserve(p ? n + 3 : 8); auto it = a.insert(a.begin() + p, src, src + n); xs_check(it - a.begin() == p, "position"); put(p); break; }
  case 2: { if (p) xs_stop_path(); pre(); a.push_back(std::span<T>(src, n)); put(3); break; }
  case 3: { if (p) xs_stop_path(); xme::Array<T> b(src, src + n); put(0); xs_check(b.size() == (std::size_t)n, "size"); a = b; break; }
  case 4: { if (p) xs_stop_path(); xme::Array<T> b(std::span<T>(src, n)); put(0); a = std::move(b); break; }
  case 5: { a = xme::Array<T>(src, src + n); put(0); int c = n - 3; auto it = a.erase(a.begin() + p, a.begin() + p + c); m.erase(p, c); xs_check(it - a.begin() == p, "position"); break; }
  case 6: { if (p) xs_stop_path(); a.reserve(n); for (int i = 0; i < n; i++) a.emplace_back(src[i]); put(0); while (a.size() > 2) a.pop_back(); m.n = 2; break; }
  default: { if (p) xs_stop_path(); a = xme::Array<T>(src, src + n); put(0); a.insert(a.begin() + 1, a[n - 1]); m.insert(1, s + 5 * (u32)(n - 1)); break; }
  }
  same_long(a, m); a.push_back(T(x)); m.insert(m.n, x); same_long(a, m); xs_reach("long source");
}
XS_ENTRY(e_long_source) { long_source<u32>(xs_choice(0, 1, "length") ? QT(260, 520) : 67); } XS_ENTRY(e_long_source_val) { long_source<Val>(QT(67, 260)); }
// beyond sixteen bits
XS_ENTRY(e_huge) {
  static u32 src[70000]; const int n = 66000; u32 s = fresh(), x = fresh(); int k = xs_choice(0, 7, "operation"); for (int i = 0; i < n; i++) src[i] = (u32)i * 3; src[n - 1] = s; src[65536] = s + 1; xme::Array<u32> a; int c = n;
  switch (k) {
  case 0: { for (int i = 0; i < n; i++) a.push_back(src[i]); break; }
  case 1: { a.push_back(src, src + n); break; }
  case 2: { a = xme::Array<u32>(src, src + n); a.insert(a.begin() + 65535, x); xs_check(a[65535] == x && a[65534] == 65534 * 3 && a[65536] == 65535 * 3, "inserted"); a.erase(a.begin() + 65535); break; }
  case 3: { a.reserve(n); a.push_back(x); a.insert(a.begin(), src, src + n); xs_check(a[n] == x, "the element moved up"); a.pop_back(); break; }
  case 4: { a.push_back(src, src + n); a.reserve(70001); xs_check(a.capacity() >= 70001, "capacity"); break; }
  case 5: { a.push_back(src, src + n); u32 in[3] = {x, x + 1, x + 2}; a.insert(a.begin() + 65700, in, in + 3); xs_check(a.size() == (std::size_t)n + 3 && a[65700] == x && a[65701] == x + 1 && a[65702] == x + 2 && a[65699] == 65699 * 3 && a[65703] == 65700 * 3, "inserted"); a.erase(a.begin() + 65700, a.begin() + 65703); break; }
  case 6: { a.push_back(src, src + n); a.reserve(n + 9); a.insert(a.begin() + 65701, x); xs_check(a[65701] == x && a[65700] == 65700 * 3 && a[65702] == 65701 * 3, "inserted"); a.erase(a.begin() + 65701); xs_check(a[65701] == 65701 * 3, "erased"); a.pop_back(); c = n - 1; break; }
  default: { xme::Array<u32> b(src, src + n); a = b; a.push_back(x); a.erase(a.begin() + 1, a.begin() + n); xs_check(a.size() == 2 && a[0] == 0 && a[1] == x, "erased"); a = std::move(b); a.resize(65537); c = 65537; break; }
  }
  xs_check(a.size() == (std::size_t)c && a.capacity() >= a.size(), "size"); bool ok = true; for (int i = 0; i < c; i++) ok &= a[i] == src[i]; xs_check(ok, "every element"); xs_reach("huge");
}
// sources of every kind, into every place
#include "range_kinds.hpp"
template <typename T> static void ranges_of_every_kind(bool insert) {
  u32 src[4]; int k = xs_choice(0, QT(2, 3), "source length"); for (int i = 0; i < 4; i++) src[i] = fresh(); int kind = xs_choice(0, RANGE_KINDS, "kind");
  if (!insert) { Model m; for (int i = 0; i < k; i++) m.push(src[i]); every_range<T>(src, k, kind, [&](auto &&r) { xme::Array<T> a(r); same(a, m); a.push_back(T(1u)); m.push(1); same(a, m); }, [&](auto i, auto e) { xme::Array<T> a(i, e); same(a, m); a.push_back(T(1u)); m.push(1); same(a, m); }); return; }
  xme::Array<T> a; Model m; any_state(a, m, QT(2, 3), 3); int p = xs_choice(0, m.n, "position"); bool back = p == m.n && xs_choice(0, 1, "back");
  every_range<T>(src, k, kind, [&](auto &&r) { if (back) a.push_back(r); else { auto it = a.insert(a.begin() + p, r); xs_check(it - a.begin() == p, "position"); } }, [&](auto i, auto e) { if (back) a.push_back(i, e); else { auto it = a.insert(a.begin() + p, i, e); xs_check(it - a.begin() == p, "position"); } });
  m.insert(p, src, k); same(a, m); a.push_back(T(1u)); m.push(1); same(a, m);
}
XS_ENTRY(e_range_ctor_int) { ranges_of_every_kind<u32>(false); } XS_ENTRY(e_range_ctor_val) { ranges_of_every_kind<Val>(false); }
XS_ENTRY(e_range_insert_int) { ranges_of_every_kind<u32>(true); } XS_ENTRY(e_range_insert_val) { ranges_of_every_kind<Val>(true); }
