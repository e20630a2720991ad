// @opt maxsteps=100000000
// @bounds size <= 4 (thorough: 6), capacity - size <= 4, reserve/resize requests up to size + 4; element growth up to 2500 (9000) insertions for the reallocation count, and 300000 appended bytes, appending single elements, ranges and inserting at the end; any single operation on any capacity up to 2^44 with 0 to 128 elements
#include "array_ops.hpp"
#include <span>
using namespace hx;
template <typename T> static void stable() {
  xme::Array<T> a; Model m; any_state(a, m, QT(4, 6), 4);
  auto cap = a.capacity(); auto p = a.data(); int room = (int)cap - m.n;
  int k = xs_choice(0, 8, "operation");
  if (k <= 3 && room == 0) xs_stop_path();
  switch (k) {
  case 0: a.push_back(T(1)); break;
  case 1: a.insert(a.begin() + xs_choice(0, m.n, "position"), T(2)); break;
  case 2: { u32 s[4] = {1, 2, 3, 4}; int r = xs_choice(1, room < 4 ? room : 4, "length"); a.push_back(s + 0, s + r); break; }
  case 3: { u32 s[4] = {1, 2, 3, 4}; int r = xs_choice(1, room < 4 ? room : 4, "length"); a.insert(a.begin() + xs_choice(0, m.n, "position"), s + 0, s + r); break; }
  case 4: if (!m.n) xs_stop_path(); a.pop_back(); break;
  case 5: if (!m.n) xs_stop_path(); a.erase(a.begin() + xs_choice(0, m.n - 1, "position")); break;
  case 6: a.clear(); xs_check(a.size() == 0, "clear empties"); break;
  case 7: a.reserve(xs_choice(0, (int)cap, "reserve")); break;
  case 8: { int r = xs_choice((int)cap, (int)cap, "same"); a.resize(r); break; }
  }
  xs_check(a.capacity() == cap, "the capacity is kept when it suffices");
  xs_check(a.data() == p, "no reallocation when the capacity suffices");
  xs_reach("stable");
}
XS_ENTRY(e_stable_int) { stable<u32>(); }
XS_ENTRY(e_stable_val) { stable<Val>(); }
XS_ENTRY(e_requests) {
  xme::Array<Val> a; Model m; any_state(a, m, QT(4, 6), 4); auto cap = a.capacity();
  int r = xs_choice(0, m.n + 4 + 2, "request");
  if (xs_choice(0, 1, "which")) { a.reserve(r); xs_check(a.capacity() >= cap && a.capacity() >= (std::size_t)r, "reserve never shrinks and satisfies the request"); if ((std::size_t)r <= cap) xs_check(a.capacity() == cap, "a smaller request does nothing"); }
  else { a.resize(r); xs_check(a.capacity() == (std::size_t)r, "resize makes the capacity equal to the request"); m.trunc(r); xs_reach("resize"); }
  same(a, m);
}
XS_ENTRY(e_amortised) {
  int n = xs_choice(1, QT(40, 64), "n"); xme::Array<u32> a; int grows = 0; auto cap = a.capacity();
  for (int i = 0; i < n; i++) { a.push_back(u32(i)); if (a.capacity() != cap) { grows++; cap = a.capacity(); } }
  int lg = 0; while ((1 << lg) < n) lg++;
  xs_check(grows <= lg + 2, "appending reallocates a logarithmic number of times");
  xs_check(a.size() == (std::size_t)n, "size"); for (int i = 0; i < n; i++) xs_check(a[i] == (u32)i, "contents survive growth");
}
// far beyond the small sizes: the number of reallocations stays logarithmic and the elements survive
XS_ENTRY(e_growth_long) {
  static const int ns[] = {130, 300, 1100, 2500, 9000}; int n = ns[xs_choice(0, QT(3, 4), "n")]; xme::Array<u32> a; int grows = 0; auto cap = a.capacity(); u32 s = fresh(); int how = xs_choice(0, 1, "how");
  for (int i = 0; i < n; i++) { if (how) a.push_back(s + i); else a.emplace_back(s + i); if (a.capacity() != cap) { grows++; cap = a.capacity(); } xs_check(a.capacity() >= a.size(), "capacity holds the elements"); }
  int lg = 0; while ((1 << lg) < n) lg++;
  xs_check(grows <= 2 * lg + 2, "appending reallocates a logarithmic number of times"); xs_check(a.capacity() <= (std::size_t)n * 4, "the capacity stays proportional to the size");
  bool ok = true; for (int i = 0; i < n; i++) ok &= a[i] == s + (u32)i; xs_check(ok, "contents survive growth"); xs_reach("grown");
}
// the growth stays geometric for hundreds of thousands of elements
XS_ENTRY(e_growth_huge) {
  const int n = 300000; int how = xs_choice(0, 1, "how"); static u32 src[1000]; u32 s = fresh(); for (int i = 0; i < 1000; i++) src[i] = (u32)i; src[7] = s; xme::Array<u32> a; int grows = 0; auto cap = a.capacity();
  for (int i = 0; i < n; i += how ? 1000 : 1) { if (how) a.push_back(src + 0, src + 1000); else a.push_back((u32)i); if (a.capacity() != cap) { grows++; cap = a.capacity(); } }
  int lg = 0; while ((1 << lg) < n) lg++;
  xs_check(grows <= 2 * lg + 2, "appending reallocates a logarithmic number of times"); xs_check(a.capacity() <= (std::size_t)n * 4, "the capacity stays proportional to the size"); xs_check(a.size() == (std::size_t)n, "size");
  for (int i = 7; i < n; i += 1000) xs_check(a[i] == (how ? s : (u32)i), "contents survive growth"); xs_reach("grown");
}
// appending whole ranges, one after the other, reallocates as rarely
XS_ENTRY(e_amortised_ranges) {
  int len = xs_choice(1, 3, "length"), how = xs_choice(0, 3, "how"); int n = QT(100, 300); xme::Array<u32> a; int grows = 0; auto cap = a.capacity(); u32 s[3] = {xs_u32("a"), xs_u32("b"), xs_u32("c")};
  for (int i = 0; i < n; i++) { if (how == 0) a.push_back(s + 0, s + len); else if (how == 1) a.push_back(std::span<u32>(s, len)); else if (how == 2) a.insert(a.end(), s + 0, s + len); else a.insert(a.begin() + a.size() / 2, s + 0, s + len); if (a.capacity() != cap) { grows++; cap = a.capacity(); } }
  int lg = 0; while ((1 << lg) < n * len) lg++;
  xs_check(grows <= 2 * lg + 2, "appending reallocates a logarithmic number of times"); xs_check(a.capacity() <= (std::size_t)n * len * 4, "the capacity stays proportional to the size"); xs_check(a.size() == (std::size_t)(n * len), "size");
}
// capacities of every size: the allocator hands out one block and notes its size, only its beginning is used
template <typename T> struct AnySize { using value_type = T; using size_type = std::size_t; using difference_type = std::ptrdiff_t; static inline std::size_t asked = 0, given = 0; static inline int blocks = 0, all = 0; alignas(T) static inline std::byte mem[4][sizeof(T) * 140];
  AnySize() = default; template <typename U> AnySize(const AnySize<U> &) {} T *allocate(std::size_t n) { asked = n; blocks++; return reinterpret_cast<T *>(mem[all++ & 3]); } void deallocate(T *, std::size_t n) { given = n; blocks--; } bool operator==(const AnySize &) const = default; };
XS_ENTRY(e_any_capacity) {
  using A = AnySize<u32>; A::blocks = A::all = 0; std::size_t c = xs_u64("capacity"), r = xs_u64("request"); static const int sizes[] = {0, 1, 2, 3, 4, 9, 17, 33, 65, 128}; int n = sizes[xs_choice(0, 9, "size")]; xs_assume(c >= (std::size_t)n + 2 && c <= (std::size_t(1) << 44) && r <= (std::size_t(1) << 44)); int k = xs_choice(0, 9, "operation"); u32 s = xs_u32("e0"); u32 e[128]; for (int i = 0; i < n; i++) e[i] = s + (u32)i; int left = n;
  { xme::Array<u32, A> a(c); xs_check(a.capacity() == c && a.size() == 0 && A::asked == c, "the requested capacity"); for (int i = 0; i < n; i++) a.push_back(e[i]); auto p = a.data(); std::size_t want = c; bool stays = true;
    switch (k) {
    case 0: a.clear(); left = 0; break;
    case 1: if (!n) xs_stop_path(); a.pop_back(); left--; break;
    case 2: while (left) { a.pop_back(); left--; } break;
    case 3: if (!n) xs_stop_path(); a.erase(a.begin(), a.end()); left = 0; break;
    case 4: a.reserve(r); if (r > c) { want = a.capacity(); xs_check(want >= r, "reserve satisfies the request"); stays = false; } break;
    case 5: if (r == 0 || r < (std::size_t)n) xs_stop_path(); a.resize(r); want = r; stays = r == c; break;
    case 6: a.push_back(7u); a.pop_back(); break;
    case 7: a.insert(a.begin(), 7u); a.erase(a.begin()); break;
    case 8: { xme::Array<u32, A> b(std::move(a)); xs_check(b.capacity() == c && b.data() == p && a.capacity() == 0, "a move takes the capacity along"); a = std::move(b); break; }
    case 9: { xme::Array<u32, A> b; a.swap(b); xs_check(b.capacity() == c && a.capacity() == 0, "swap exchanges the capacities"); a.swap(b); break; }
    }
    xs_check(a.capacity() == want, "capacity"); if (stays) xs_check(a.data() == p, "no reallocation"); xs_check(a.size() == (std::size_t)left, "size"); for (int i = 0; i < left; i++) xs_check(a[i] == e[i], "elements"); xs_reach("kept");
  }
  xs_check(A::blocks == 0, "every block is returned");
}
