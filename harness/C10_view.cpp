// @configs none, ndebug
// @bounds viewed arrays of 0..4 elements with element access, of every length up to 2^46 bytes without, and arrays of up to 257; offsets and counts are arbitrary 64-bit values for the dynamic requests, 0..3 for the static ones; element values symbolic
#include "assert_expect.hpp"
#include "track.hpp"
#include <array>
#include <span>
#include <xme/container/array.hpp>
#include <xme/container/array_view.hpp>
using namespace hx;
static u32 buf[6];
static void fill() { for (auto &x : buf) x = xs_u32("element"); }
template <typename V> static void window(V v, const u32 *p, std::size_t n) {
  xs_check(v.size() == n && v.size_bytes() == n * 4, "size and size_bytes");
  xs_check(v.empty() == (n == 0), "empty");
  xs_check(v.begin() == p && v.end() == p + n && v.data() == p, "window bounds");
}
template <typename V> static void content(V v, const u32 *p, std::size_t n) {
  window(v, p, n);
  const V &c = v; window(c, p, n); V copy(v); window(copy, p, n);
  for (std::size_t i = 0; i < n; i++) { xs_check(v[i] == p[i] && &v[i] == p + i && &c[i] == p + i, "element access"); xs_obs_u64("e", v[i]); }
  if (n) xs_check(&v.front() == p && &v.back() == p + n - 1, "front and back");
  std::size_t k = 0; for (auto &x : v) { xs_check(&x == p + k, "iteration"); k++; } xs_check(k == n, "iteration length");
  k = n; for (auto it = ::ranges::rbegin(v); it != ::ranges::rend(v); ++it) { k--; xs_check(&*it == p + k, "reverse iteration"); } xs_check(k == 0, "reverse iteration length");
}
XS_ENTRY(e_construct) {
  fill(); std::size_t n = xs_choice(0, 4, "size"), o = xs_choice(0, 2, "offset"); xme::Array<u32> a(buf + 0, buf + n); std::array<u32, 3> s{buf[0], buf[1], buf[2]}; const std::array<u32, 3> cs(s);
  content(xme::ArrayView<u32>(buf + o, n), buf + o, n);
  content(xme::ArrayView<u32>(buf + o, buf + o + n), buf + o, n);
  content(xme::ArrayView<const u32>(buf + o, n), buf + o, n);
  content(xme::ArrayView<u32>(a), a.data(), n);
  content(xme::ArrayView<const u32>(std::as_const(a)), a.data(), n);
  content(xme::ArrayView<u32>(std::span<u32>(buf + o, n)), buf + o, n);
  content(xme::ArrayView<u32, 6>(buf), buf, 6);
  content(xme::ArrayView<u32>(buf), buf, 6);
  content(xme::ArrayView<u32, 3>(s), s.data(), 3);
  content(xme::ArrayView<const u32>(cs), cs.data(), 3);
  content(xme::ArrayView<const u32, 3>(cs), cs.data(), 3);
  content(xme::ArrayView<u32>(), nullptr, 0);
  content(xme::ArrayView(buf), buf, 6);
  xme::ArrayView<u32> w(buf + o, n); if (n) { w[n - 1] = 77; xs_check(buf[o + n - 1] == 77, "writes go to the viewed array"); w.front() = 78; xs_check(buf[o] == 78, "front is writable"); }
  xme::ArrayView<u32> x; x = w; window(x, buf + o, n);
}
XS_ENTRY(e_static_size) {
  fill(); std::size_t n = xs_u64("n");
  reject_expected = n != 3;
  xme::ArrayView<u32, 3> v(buf, n);
  xs_check(n == 3, "a static view of another size is refused"); content(v, buf, 3); xs_reach("accepted");
}
XS_ENTRY(e_subview) {
  fill(); std::size_t n = xs_choice(0, 4, "size"); xme::ArrayView<u32> v(buf + 1, n);
  std::size_t o = xs_u64("offset"), c = xs_u64("count"); bool fits = o <= n && c <= n - o;
  reject_expected = !fits;
  auto s = v.subview(o, c);
  xs_check(fits, "a window outside the view is refused"); window(s, buf + 1 + o, c);
  for (std::size_t i = 0; i < c; i++) xs_check(s[i] == buf[1 + o + i], "element");
  xs_reach("accepted");
}
XS_ENTRY(e_first_last) {
  fill(); std::size_t n = xs_choice(0, 4, "size"); xme::ArrayView<const u32> v(buf + 1, n); std::size_t c = xs_u64("count");
  reject_expected = c > n;
  if (xs_choice(0, 1, "which")) { auto s = v.first(c); xs_check(c <= n, "a longer window is refused"); window(s, buf + 1, c); xs_reach("first"); }
  else { auto s = v.last(c); xs_check(c <= n, "a longer window is refused"); window(s, buf + 1 + n - c, c); for (std::size_t i = 0; i < c; i++) xs_check(s[i] == buf[1 + n - c + i], "element"); xs_reach("last"); }
}
XS_ENTRY(e_static_dynamic_size) {
  fill(); xme::ArrayView<u32, 3> v(buf + 1, 3); std::size_t o = xs_u64("offset"), c = xs_u64("count");
  int k = xs_choice(0, 2, "which"); bool fits = k ? c <= 3 : o <= 3 && c <= 3 - o; reject_expected = !fits;
  auto s = k == 0 ? v.subview(o, c) : k == 1 ? v.first(c) : v.last(c);
  xs_check(fits, "refused"); window(s, buf + 1 + (k == 0 ? o : k == 1 ? 0 : 3 - c), c); xs_reach("accepted");
}
template <std::size_t O, std::size_t C> static void stat(std::size_t n) {
  xme::ArrayView<u32> v(buf + 1, n); int k = xs_choice(0, 2, "which");
  bool fits = k ? C <= n : O + C <= n; reject_expected = !fits;
  if (k == 0) { auto s = v.template subview<O, C>(); static_assert(sizeof s == sizeof(void *)); xs_check(fits, "refused"); content(s, buf + 1 + O, C); }
  else if (k == 1) { auto s = v.template first<C>(); xs_check(fits, "refused"); content(s, buf + 1, C); }
  else { auto s = v.template last<C>(); xs_check(fits, "refused"); content(s, buf + 1 + n - C, C); }
  xs_reach("accepted");
}
XS_ENTRY(e_templates) {
  fill(); std::size_t n = xs_choice(0, 4, "size");
  switch (xs_choice(0, 5, "shape")) { case 0: stat<0, 0>(n); break; case 1: stat<0, 2>(n); break; case 2: stat<1, 1>(n); break; case 3: stat<1, 3>(n); break; case 4: stat<3, 1>(n); break; case 5: stat<2, 0>(n); break; }
}
#ifndef NDEBUG
// static requests whose sum of offset and count wraps around
template <std::size_t O, std::size_t C> static void wrap() { fill(); std::size_t n = xs_choice(0, 4, "size"); xme::ArrayView<u32> v(buf + 1, n); reject_expected = true; auto s = v.template subview<O, C>(); xs_check(false, "refused"); (void)s; }
XS_ENTRY(e_static_wrap) { constexpr std::size_t M = ~std::size_t(0), H = M / 2 + 1; switch (xs_choice(0, 5, "request")) { case 0: wrap<1, M>(); break; case 1: wrap<M, 1>(); break; case 2: wrap<M, 2>(); break; case 3: wrap<3, M>(); break; case 4: wrap<H, H>(); break; case 5: wrap<M - 1, 3>(); break; } }
#endif
XS_ENTRY(e_static_templates) {
  fill(); xme::ArrayView<u32, 4> v(buf + 1, 4);
  content(v.subview<0, 4>(), buf + 1, 4); content(v.subview<1, 2>(), buf + 2, 2); content(v.subview<3, 1>(), buf + 4, 1); content(v.subview<2, 0>(), buf + 3, 0);
  content(v.first<4>(), buf + 1, 4); content(v.first<3>(), buf + 1, 3); content(v.first<1>(), buf + 1, 1); content(v.last<4>(), buf + 1, 4); content(v.last<3>(), buf + 2, 3); content(v.last<1>(), buf + 4, 1);
}
XS_ENTRY(e_bytes) {
  fill(); std::size_t n = xs_choice(0, 4, "size"); xme::ArrayView<u32> v(buf + 1, n);
  auto b = xme::as_bytes(v); xs_check(b.size() == 4 * n && (const void *)b.data() == buf + 1, "as_bytes covers the elements");
  for (std::size_t i = 0; i < 4 * n; i++) xs_check((uint8_t)b[i] == (uint8_t)(buf[1 + i / 4] >> (8 * (i % 4))), "object representation");
  auto w = xme::as_writable_bytes(v); xs_check(w.size() == 4 * n && (void *)w.data() == buf + 1, "as_writable_bytes covers the elements");
  if (n) { u32 old = buf[n]; w[4 * n - 1] = std::byte{0x5a}; xs_check(buf[n] == ((old & 0xffffff) | 0x5a000000), "a byte write changes that byte only"); }
  xme::ArrayView<u32, 3> f(buf, 3); auto fb = xme::as_bytes(f); static_assert(sizeof fb == sizeof(void *)); xs_check(fb.size() == 12 && (const void *)fb.data() == buf, "static byte view");
  auto fw = xme::as_writable_bytes(f); xs_check(fw.size() == 12 && (void *)fw.data() == buf, "static writable byte view");
  xme::ArrayView<const uint64_t> q((const uint64_t *)nullptr, 0); xs_check(xme::as_bytes(q).size() == 0, "empty");
}
// element types whose size is not their alignment
struct W3 { u32 a, b, c; }; struct alignas(16) Al16 { u32 a; }; struct C3 { uint8_t a[3]; };
template <typename T, std::size_t N> static void bytes_of(T *p) {
  std::size_t n = xs_choice(0, 3, "size"); xme::ArrayView<T> v(p, n); auto b = xme::as_bytes(v); auto w = xme::as_writable_bytes(v); xs_check(v.size_bytes() == n * N, "size_bytes"); xs_check(b.size() == n * N && (const void *)b.data() == p, "as_bytes covers the elements"); xs_check(w.size() == n * N && (void *)w.data() == p, "as_writable_bytes covers the elements");
  xme::ArrayView<T, 2> f(p, 2); auto fb = xme::as_bytes(f); auto fw = xme::as_writable_bytes(f); xs_check(fb.size() == 2 * N && fw.size() == 2 * N && (const void *)fb.data() == p && (void *)fw.data() == p && f.size_bytes() == 2 * N, "static byte views");
  if (n) { const uint8_t *o = (const uint8_t *)p; uint8_t old = o[n * N - 1], x = xs_u8("byte"); w[n * N - 1] = std::byte{x}; xs_check(o[n * N - 1] == x, "the last byte is writable"); w[n * N - 1] = std::byte{old}; }
  xs_reach("bytes");
}
XS_ENTRY(e_bytes_types) {
  static W3 a[3]; static Al16 b[3]; static C3 c[3]; static uint64_t d[3]; static uint8_t e[3]; static double f[3];
  switch (xs_choice(0, 5, "type")) { case 0: bytes_of<W3, 12>(a); break; case 1: bytes_of<Al16, 16>(b); break; case 2: bytes_of<C3, 3>(c); break; case 3: bytes_of<uint64_t, 8>(d); break; case 4: bytes_of<uint8_t, 1>(e); break; default: bytes_of<double, 8>(f); }
}
XS_ENTRY(e_wide_subview) { // windows over elements wider than a word
  static W3 d[5]; for (auto &x : d) x = {xs_u32("a"), 2, 3}; std::size_t n = xs_choice(0, 4, "size"); xme::ArrayView<W3> v(d + 1, n); std::size_t o = xs_u64("offset"), c = xs_u64("count"); bool fits = o <= n && c <= n - o; reject_expected = !fits; auto s = v.subview(o, c); xs_check(fits, "refused");
  xs_check(s.data() == d + 1 + o && s.size() == c && s.size_bytes() == 12 * c && s.end() == d + 1 + o + c, "window"); for (std::size_t i = 0; i < c; i++) xs_check(&s[i] == d + 1 + o + i && s[i].a == d[1 + o + i].a, "element"); xs_reach("accepted");
}
// Views of every length: addresses and sizes only, no element is read.
template <typename T> static void any_size() {
  static T mem[1]; T *p = mem; constexpr std::size_t Z = sizeof(T); std::size_t n = xs_u64("size"); xs_assume(n <= ((std::size_t)1 << 46) / Z); uintptr_t base = (uintptr_t)p; std::size_t o = xs_u64("offset"), c = xs_u64("count"); auto is = [&](auto v, std::size_t off, std::size_t len, const char *w) { xs_check((uintptr_t)v.data() == base + off * Z && v.size() == len && (uintptr_t)v.begin() == base + off * Z && (uintptr_t)v.end() == base + (off + len) * Z && v.empty() == (len == 0) && v.size_bytes() == len * Z, w); };
  xme::ArrayView<T> v(p, n); int k = xs_choice(0, 7, "which");
  switch (k) {
  case 0: { bool fits = o <= n && c <= n - o; reject_expected = !fits; auto s = v.subview(o, c); xs_check(fits, "refused"); is(s, o, c, "subview"); xs_reach("subview"); break; }
  case 1: { reject_expected = c > n; auto s = v.first(c); xs_check(c <= n, "refused"); is(s, 0, c, "first"); xs_reach("first"); break; }
  case 2: { reject_expected = c > n; auto s = v.last(c); xs_check(c <= n, "refused"); is(s, n - c, c, "last"); xs_reach("last"); break; }
  case 3: { is(v, 0, n, "pointer and size"); xme::ArrayView<const T> cv(p, p + n); is(cv, 0, n, "pointer pair"); xme::ArrayView<T> q(std::span<T>(p, n)); is(q, 0, n, "span"); xme::ArrayView<T> w(v); is(w, 0, n, "copy"); w = xme::ArrayView<T>(); w = v; is(w, 0, n, "assignment"); break; }
  case 4: { auto b = xme::as_bytes(v); auto w = xme::as_writable_bytes(v); xs_check(b.size() == n * Z && (uintptr_t)b.data() == base && w.size() == n * Z && (uintptr_t)w.data() == base && (uintptr_t)b.end() == base + n * Z, "byte views"); break; }
  case 5: { reject_expected = n < 5; auto s = v.template subview<2, 3>(); xs_check(n >= 5, "refused"); is(s, 2, 3, "static subview"); xs_reach("static"); break; }
  case 6: { reject_expected = n < 3; auto s = v.template last<3>(); xs_check(n >= 3, "refused"); is(s, n - 3, 3, "static last"); break; }
  case 7: { reject_expected = n < 100; auto s = v.template first<100>(); xs_check(n >= 100, "refused"); is(s, 0, 100, "static first"); auto t = s.template subview<90, 10>(); is(t, 90, 10, "static subview of a static view"); auto u = s.template last<37>(); is(u, 63, 37, "static last of a static view"); break; }
  }
}
XS_ENTRY(e_any_size_u8) { any_size<uint8_t>(); } XS_ENTRY(e_any_size_u32) { any_size<u32>(); } XS_ENTRY(e_any_size_u64) { any_size<uint64_t>(); } XS_ENTRY(e_any_size_16) { any_size<Al16>(); }
// arrays of many sizes
template <std::size_t N> static void sized() {
  static u32 c[N ? N : 1]; static std::array<u32, N> a; const std::array<u32, N> &ca = a; static const u32 cc[N ? N : 1] = {}; if (N) { c[N - 1] = xs_u32("last"); if constexpr (N > 0) a[N - 1] = xs_u32("last"); }
  auto is = [](auto v, const u32 *p, std::size_t n) { window(v, p, n); if (n) xs_check(&v[n - 1] == p + n - 1 && v.back() == p[n - 1] && &v.front() == p, "elements"); };
  is(xme::ArrayView<u32>(a), a.data(), N); is(xme::ArrayView<u32, N>(a), a.data(), N); is(xme::ArrayView<const u32>(ca), a.data(), N); is(xme::ArrayView<const u32, N>(ca), a.data(), N); is(xme::ArrayView<const u32>(a), a.data(), N); is(xme::ArrayView<u32>(std::span<u32, N>(a)), a.data(), N);
  if constexpr (N > 0) { is(xme::ArrayView<u32>(c), c, N); is(xme::ArrayView<u32, N>(c), c, N); is(xme::ArrayView<const u32>(c), c, N); is(xme::ArrayView<const u32>(cc), cc, N); is(xme::ArrayView<const u32, N>(cc), cc, N); is(xme::ArrayView(c), c, N); }
}
XS_ENTRY(e_sizes) { sized<0>(); sized<1>(); sized<2>(); sized<7>(); sized<8>(); sized<16>(); sized<17>(); sized<33>(); sized<64>(); sized<100>(); sized<257>(); }
