// @configs none, sse, avx2, use_sse2
// @bounds element types of 1, 2, 4 and 8 bytes (signed, unsigned, bool, char, pointers, enums, floating point and a class); every length up to two vectors plus a remainder (8-bit: 0..2, 15..18, 31..34, 64..66; 16-bit: 0..2, 7..9, 15..18, 33; 32/64-bit: 0..9, 16, 17), symbolic elements and needle; lengths 100 and 129 (up to 300) with known elements and any needle; symbolic elements and needle, block placed at every element-aligned address offset and ending at the end of its allocation
#include "track.hpp"
#include <xme/container/array.hpp>
#include <xme/container/array_view.hpp>
#include <xme/core/algorithm/find.hpp>
using namespace hx;
template <typename T> static T sym();
template <> uint8_t sym() { return xs_u8("x"); } template <> int8_t sym() { return (int8_t)xs_u8("x"); } template <> char sym() { return (char)xs_u8("x"); } template <> uint16_t sym() { return xs_u16("x"); } template <> int16_t sym() { return (int16_t)xs_u16("x"); } template <> u32 sym() { return xs_u32("x"); } template <> int sym() { return (int)xs_u32("x"); } template <> uint64_t sym() { return xs_u64("x"); } template <> int64_t sym() { return (int64_t)xs_u64("x"); } template <> bool sym() { return xs_u8("x") & 1; }
template <> const u32 *sym() { return (const u32 *)(xs_u64("x")); } template <> float sym() { return xs_f32("x"); } template <> double sym() { return xs_f64("x"); }
enum class En : uint16_t {}; template <> En sym() { return (En)xs_u16("x"); }
struct Kv { uint8_t k, v; bool operator==(const Kv &o) const { return k == o.k; } }; template <> Kv sym() { return {xs_u8("k"), xs_u8("v")}; }
struct KvI { u32 k; bool operator==(const KvI &o) const { return (k | 1) == (o.k | 1); } }; template <> KvI sym() { return {xs_u32("k")}; }
template <typename T> static void run(int n, int off) {
  T *block = (T *)xs_malloc((n + off) * sizeof(T), 64); T *d = block + off; for (int i = 0; i < n; i++) ::new (d + i) T(sym<T>()); const T needle = sym<T>();
  auto *r = xme::find(d, d + n, needle);
  long k = r - d; xs_check(k >= 0 && k <= n, "the result lies in the range"); xs_obs_u64("index", k);
  xs_check(r == d + n || *r == needle, "the result is the needle"); bool before = false; for (int i = 0; i < n; i++) before |= (i < k) & (d[i] == needle); xs_check(!before, "no earlier element is equal to the needle");
  xs_reach("searched"); xs_free(block, (n + off) * sizeof(T));
}
template <typename T> static void lens(const int *l, int c, int offs) { int n = l[xs_choice(0, c - 1, "length")]; run<T>(n, xs_choice(0, offs - 1, "offset")); }
#define L(T, offs, ...) do { static const int l[] = {__VA_ARGS__}; lens<T>(l, sizeof l / sizeof *l, offs); } while (0)
XS_ENTRY(e_u8) { L(uint8_t, QT(2, 8), 0, 1, 2, 15, 16, 17, 31, 32, 33, 34, 64, 66); }
XS_ENTRY(e_i8) { if (xs_choice(0, 1, "type")) L(int8_t, 1, 16, 18, 33); else L(char, 1, 16, 18, 33); }
XS_ENTRY(e_u16) { L(uint16_t, QT(2, 8), 0, 1, 2, 7, 8, 9, 15, 16, 17, 18, 33); }
XS_ENTRY(e_i16) { L(int16_t, 1, 9, 17); }
XS_ENTRY(e_u32) { L(u32, QT(2, 4), 0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 17); }
XS_ENTRY(e_i32) { L(int, 1, 5, 9); }
XS_ENTRY(e_u64) { L(uint64_t, QT(2, 4), 0, 1, 2, 3, 4, 5, 7, 8, 9); }
XS_ENTRY(e_i64) { L(int64_t, 1, 3, 5); }
XS_ENTRY(e_ptr) { L(const u32 *, 1, 0, 2, 3, 4, 5); }
XS_ENTRY(e_bool) { L(bool, 1, 3, 17, 33); }
XS_ENTRY(e_enum) { L(En, 1, 2, 9, 17); }
XS_ENTRY(e_float) { L(float, 1, 2, 4, 8, 9); }
XS_ENTRY(e_double) { L(double, 1, 1, 2, 4, 5); }
XS_ENTRY(e_class) { if (xs_choice(0, 1, "type")) L(Kv, 1, 2, 8, 16, 17); else L(KvI, 1, 2, 4, 8, 9); }
// long ranges: known elements, any needle
template <typename T> static void longer(int n) {
  T *d = (T *)xs_malloc(n * sizeof(T), 64); for (int i = 0; i < n; i++) d[i] = (T)(sizeof(T) == 1 ? (i * 11) >> 3 : i * 5 + 1); const T y = sym<T>(); auto *r = xme::find(d, d + n, y); long k = r - d;
  xs_check(k >= 0 && k <= n, "the result lies in the range"); bool before = false, here = k == n; for (int i = 0; i < n; i++) { before |= (i < k) & (d[i] == y); here |= (i == k) & (d[i] == y); } xs_check(here, "the result is the needle"); xs_check(!before, "no earlier element is equal to the needle"); xs_reach("long"); xs_free(d, n * sizeof(T));
}
template <typename T> static void longs() { static const int l[] = {100, 129, 257, 300}; int n = l[xs_choice(0, QT(1, 3), "length")]; longer<T>(n); }
XS_ENTRY(e_long_u8) { longs<uint8_t>(); } XS_ENTRY(e_long_u16) { longs<uint16_t>(); } XS_ENTRY(e_long_u32) { longs<u32>(); } XS_ENTRY(e_long_u64) { longs<uint64_t>(); }
XS_ENTRY(e_range) {
  int n = 5 * xs_choice(0, 4, "n/5"); xme::Array<uint8_t> a; for (int i = 0; i < n; i++) a.push_back(xs_u8("x")); uint8_t y = xs_u8("y"); auto it = xme::find(a, y); long k = it - a.begin(); int ref = 0; while (ref < n && a[ref] != y) ref++; xs_check(k == ref, "search in a container"); auto ct = xme::find(std::as_const(a), y); xs_check(ct - std::as_const(a).begin() == ref, "search in a const container");
}
XS_ENTRY(e_list) { BiList<u32> l; int n = xs_choice(0, 4, "n"); u32 v[4]; for (int i = 0; i < n; i++) { v[i] = xs_u32("x"); l.push_back(v[i]); } u32 y = xs_u32("y"); auto it = xme::find(l.begin(), l.end(), y); int ref = 0; while (ref < n && v[ref] != y) ref++; int k = 0; for (auto i = l.begin(); i != it; ++i) k++; xs_check(k == ref, "search in a list"); }
XS_ENTRY(e_sequenced) { u32 d[9]; for (auto &x : d) x = xs_u32("x"); u32 y = xs_u32("y"); auto *r = xme::find<std::execution::sequenced_policy>(d, d + 9, y); int ref = 0; while (ref < 9 && d[ref] != y) ref++; xs_check(r == d + ref, "sequenced search"); auto *q = xme::find<std::execution::unsequenced_policy>(d, d + 9, y); xs_check(q == r, "policies agree"); }
// ends that are not iterators: a value, a bound, a count
#include <array>
#include <iterator>
template <typename T> struct Zero { friend bool operator==(const T *p, Zero) { return *p == T(0); } };
template <typename T> struct Bound { const T *e; friend bool operator==(const T *p, Bound b) { return p == b.e; } friend std::ptrdiff_t operator-(Bound b, const T *p) { return b.e - p; } friend std::ptrdiff_t operator-(const T *p, Bound b) { return p - b.e; } };
template <typename T> static void sentinels(int n) {
  T *d = (T *)xs_malloc((n + 1) * sizeof(T), 64); for (int i = 0; i < n; i++) { d[i] = sym<T>(); xs_assume(d[i] != T(0)); } d[n] = 0; const T y = sym<T>(); int ref = n; for (int i = n; i-- > 0;) ref = d[i] == y ? i : ref;
  const T *c = d; long k = -1; switch (xs_choice(0, 2, "sentinel")) { case 0: k = xme::find(c, Zero<T>{}, y) - c; break; case 1: k = xme::find(c, Bound<T>{c + n}, y) - c; break; case 2: k = xme::find(std::counted_iterator<const T *>(c, n), std::default_sentinel, y).base() - c; break; }
  xs_check(k == ref, "the first match before the sentinel, or the position of the sentinel"); xs_reach("sentinel"); xs_free(d, (n + 1) * sizeof(T));
}
XS_ENTRY(e_sentinels) { static const int l[] = {0, 1, 3, 8, 9, 17}; int n = l[xs_choice(0, QT(3, 5), "n")]; switch (xs_choice(0, 2, "type")) { case 0: sentinels<uint8_t>(n); break; case 1: sentinels<uint16_t>(n); break; case 2: sentinels<u32>(n); break; } }
XS_ENTRY(e_sentinels_u8) { static const int l[] = {16, 18, 33}; sentinels<uint8_t>(l[xs_choice(0, 2, "n")]); }
// an exception of a comparison reaches the caller
struct FrailEq { u32 v; static inline int left = -1; bool operator==(const FrailEq &o) const { if (left == 0) { left = -1; throw Thrown{1}; } if (left > 0) left--; return v == o.v; } };
XS_ENTRY(e_throws) {
  FrailEq d[4]; int n = xs_choice(0, 4, "n"); for (auto &x : d) x.v = xs_u32("x"); FrailEq y{xs_u32("y")}; int f = xs_choice(-1, 4, "fault"), ref = n; for (int i = n; i-- > 0;) if (d[i].v == y.v) ref = i; xme::ArrayView<FrailEq> w(d + 0, (std::size_t)n); bool th = false; long k = -1; int how = xs_choice(0, 1, "range"); FrailEq::left = f; try { k = how ? xme::find(w, y) - w.begin() : xme::find(d + 0, d + n, y) - d; } catch (const Thrown &) { th = true; } FrailEq::left = -1;
  xs_check(f < 0 ? !th : f > 0 || n == 0 || th, "an exception of a comparison reaches the caller"); if (!th) xs_check(k == ref, "first match"); else xs_reach("thrown");
}
