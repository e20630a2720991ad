// @configs none, sse, avx2, use_ssse3
// @bounds 8-bit elements: every length in {0..4, 15..18, 31..34, 47..50, 63..67, 95..97, 127..130, 255..258, 513} (thorough: 0..200); 16/32/64-bit and tracked elements: lengths 0..5, some above 16 and up to 1030; symbolic contents, any address offset, a guard byte on both sides
#include "track.hpp"
#include <xme/container/array.hpp>
#include <xme/core/algorithm/reverse.hpp>
using namespace hx;
template <typename T> static T sym(); template <> uint8_t sym() { return xs_u8("x"); } template <> int8_t sym() { return (int8_t)xs_u8("x"); } template <> uint16_t sym() { return xs_u16("x"); } template <> u32 sym() { return xs_u32("x"); } template <> uint64_t sym() { return xs_u64("x"); } template <> std::byte sym() { return (std::byte)xs_u8("x"); }
struct B1 { uint8_t v; bool operator==(const B1 &) const = default; }; template <> B1 sym() { return {xs_u8("x")}; }
template <typename T> static void run(int n, int off) {
  T *b = (T *)xs_malloc((n + off + 1) * sizeof(T), 64), *d = b + off, old[1100]; for (int i = -off; i <= n; i++) { T t = sym<T>(); ::new (d + i) T(t); if (i >= 0 && i < n) old[i] = t; } T lo = off ? d[-1] : T{}, hi = d[n];
  auto *r = xme::reverse(d, d + n); xs_check(r == d + n, "returns the end of the range"); bool ok = true; for (int i = 0; i < n; i++) ok &= d[i] == old[n - 1 - i]; xs_check(ok, "the order of the elements is reversed"); xs_check(d[n] == hi && (!off || d[-1] == lo), "nothing outside the range is written"); xs_reach("reversed"); xs_free(b, (n + off + 1) * sizeof(T));
}
template <typename T> static void lens(const int *l, int c, int offs) { int n = l[xs_choice(0, c - 1, "length")]; run<T>(n, xs_choice(0, offs - 1, "offset")); }
#define L(T, offs, ...) do { static const int l[] = {__VA_ARGS__}; lens<T>(l, sizeof l / sizeof *l, offs); } while (0)
XS_ENTRY(e_u8) { L(uint8_t, 2, 0, 1, 2, 3, 4, 15, 16, 17, 18, 31, 32, 33, 34, 47, 48, 49, 50, 63, 64, 65, 66, 67, 95, 96, 97, 127, 128, 129, 130, 255, 256, 257, 258, 513); }
XS_ENTRY(et_u8_all) { int n = xs_choice(0, 200, "length"); run<uint8_t>(n, xs_choice(0, 3, "offset")); }
XS_ENTRY(e_i8) { L(int8_t, 1, 2, 31, 32, 33, 64, 65); }
XS_ENTRY(e_byte) { L(std::byte, 1, 3, 33, 66); }
XS_ENTRY(e_struct1) { L(B1, 1, 3, 33, 66); }
XS_ENTRY(e_u16) { L(uint16_t, 2, 0, 1, 2, 3, 4, 5, 17, 33); }
XS_ENTRY(e_u32) { L(u32, 2, 0, 1, 2, 3, 4, 5, 17, 33); }
XS_ENTRY(e_u64) { L(uint64_t, 2, 0, 1, 2, 3, 4, 5, 17); }
XS_ENTRY(e_long) { switch (xs_choice(0, 2, "type")) { case 0: L(u32, 1, 64, 129, 258, 515); break; case 1: L(uint16_t, 1, 64, 257, 1030); break; default: L(uint64_t, 1, 65, 260); } }
XS_ENTRY(e_tracked) { W.reset(); { int n = xs_choice(0, 5, "n"); xme::Array<Trk> a; u32 v[5]; for (int i = 0; i < n; i++) { v[i] = xs_u32("x"); a.push_back(Trk(v[i])); } xme::reverse(a); for (int i = 0; i < n; i++) { a[i].ok(); xs_check(a[i].v == v[n - 1 - i], "the order is reversed"); xs_obs_u64("e", a[i].v); } } xs_check(W.live == 0 && W.ctors == W.dtors, "every element lives once"); }
XS_ENTRY(e_list) { BiList<u32> l; int n = xs_choice(0, 5, "n"); u32 v[5]; for (int i = 0; i < n; i++) { v[i] = xs_u32("x"); l.push_back(v[i]); } auto r = xme::reverse(l.begin(), l.end()); xs_check(r == l.end(), "returns the end"); int k = n; for (auto &x : l) xs_check(x == v[--k], "the order is reversed"); xs_check(k == 0, "length"); }
XS_ENTRY(e_container) { int n = 11 * xs_choice(0, 6, "n/11"); xme::Array<uint8_t> a; uint8_t v[66]; for (int i = 0; i < n; i++) { v[i] = xs_u8("x"); a.push_back(v[i]); } xme::reverse(a); bool ok = true; for (int i = 0; i < n; i++) ok &= a[i] == v[n - 1 - i]; xs_check(ok, "the order is reversed"); xme::reverse(a); ok = true; for (int i = 0; i < n; i++) ok &= a[i] == v[i]; xs_check(ok, "reversing twice restores the order"); }
// ends that are not iterators, other holders, and exchanges that fail
#include <array>
#include <xme/container/array_view.hpp>
template <typename T> struct Bound { T *e; friend bool operator==(T *p, Bound b) { return p == b.e; } };
template <typename T> static void holder(int n) {
  T d[71], old[71]; for (int i = 0; i < 71; i++) { d[i] = sym<T>(); old[i] = d[i]; }
  switch (xs_choice(0, 3, "holder")) { case 0: { auto r = xme::reverse(d + 0, Bound<T>{d + n}); xs_check(r == d + n, "returns the end"); break; } case 1: { xme::ArrayView<T> v(d + 0, (std::size_t)n); auto r = xme::reverse(v); xs_check(r == v.end(), "returns the end"); break; } case 2: { std::array<T, 40> a; for (int i = 0; i < 40; i++) a[i] = d[i]; xme::reverse(a); bool ok = true; for (int i = 0; i < 40; i++) ok &= a[i] == old[39 - i]; xs_check(ok, "the order is reversed"); xs_reach("array"); return; } case 3: { auto r = xme::reverse(std::make_reverse_iterator(d + n), std::make_reverse_iterator(d + 0)); xs_check(r == std::make_reverse_iterator(d + 0), "returns the end"); break; } }
  bool ok = true; for (int i = 0; i < n; i++) ok &= d[i] == old[n - 1 - i]; xs_check(ok, "the order is reversed"); xs_check(d[n] == old[n], "nothing else changes"); xs_reach("holder");
}
XS_ENTRY(e_holders) { static const int l[] = {40, 2, 33, 64, 69}; int n = l[xs_choice(0, QT(3, 4), "n")]; switch (xs_choice(0, 2, "type")) { case 0: holder<uint8_t>(n); break; case 1: holder<uint16_t>(n); break; case 2: holder<u32>(n); break; } }
XS_ENTRY(e_throws) {
  W.reset(); { using M = TrkT<true>; int n = xs_choice(0, QT(5, 7), "n"), f = xs_choice(-1, 9, "fault"); xme::Array<M> a; u32 sum = 0; for (int i = 0; i < n; i++) a.push_back(M(10u + i)); bool th = false; W.ops = 0; W.throw_at = f; try { if (xs_choice(0, 1, "range")) xme::reverse(a); else xme::reverse(a.begin(), a.end()); } catch (const Thrown &) { th = true; } W.throw_at = -1; xs_check(W.live == n, "every element is still alive"); for (auto &x : a) { x.ok(); sum += x.v; }
    if (!th) for (int i = 0; i < n; i++) xs_check(a[i].v == 10u + n - 1 - i, "the order is reversed"); else xs_reach("thrown"); } xs_check(W.live == 0 && W.ctors == W.dtors, "every element destroyed once");
}
