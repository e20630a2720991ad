// @bounds ranges of 0..4 elements, any position and any (symbolic) offset that stays in range; over pointers, Array iterators, iterators of a doubly linked list; positions and offsets up to 2^60 over an iterator that only counts; iter_move, iter_swap and arrow over 1..3 elements
#include "track.hpp"
#include <xme/container/array.hpp>
#include <xme/core/iterators/reverse_iterator.hpp>
using namespace hx;
// base(i): underlying iterator at index i of n elements; at(k): address of element k
template <typename It, typename B, typename At> static void laws(long n, B base, At at) {
  using R = xme::ReverseIterator<It>; auto rev = [&](long p) { return R(base(n - p)); };
  long p = xs_choice(0, (int)n, "p"), q = xs_choice(0, (int)n, "q"); R a = rev(p), b = rev(q); const R &ca = a;
  xs_check((a == b) == (p == q) && (a != b) == (p != q), "equality follows the position"); xs_check((a < b) == (p < q) && (a > b) == (p > q) && (a <= b) == (p <= q) && (a >= b) == (p >= q), "order follows the direction of iteration"); xs_check((a <=> b) == (p <=> q), "three-way order");
  xs_check(b - a == q - p, "distance is positive towards the end"); xs_check((q - p) - b == a, "n - it steps back like it - n"); xs_check(a + (q - p) == b && (q - p) + a == b && b - (q - p) == a, "a + (b - a) == b");
  R c = a; xs_check(&(c += (q - p)) == &c && c == b, "+="); xs_check(&(c -= (q - p)) == &c && c == a, "-=");
  if (p < n) { xs_check(&*ca == at(n - 1 - p) && ca.operator->() == at(n - 1 - p), "dereferences the element before its base"); c = a; R o = c++; xs_check(o == a && c == rev(p + 1), "post-increment"); c = a; xs_check(&++c == &c && c == rev(p + 1), "pre-increment"); R o2 = c--; xs_check(o2 == rev(p + 1) && c == a, "post-decrement"); ++c; xs_check(&--c == &c && c == a, "pre-decrement"); xs_obs_u64("v", raw(*a)); }
  if (q < n) { xs_check(&a[q - p] == at(n - 1 - q), "subscript"); xs_check(&*(a + (q - p)) == at(n - 1 - q), "offset"); xs_reach("subscript"); }
  long k = 0; for (R i = rev(0); i != rev(n); ++i, ++k) xs_check(&*i == at(n - 1 - k), "reverse traversal"); xs_check(k == n, "traversal length");
}
XS_ENTRY(e_pointer) { u32 d[4]; int n = xs_choice(0, 4, "n"); for (auto &x : d) x = xs_u32("x"); laws<u32 *>(n, [&](long i) { return d + i; }, [&](long k) { return d + k; }); laws<const u32 *>(n, [&](long i) { return d + i; }, [&](long k) { return (const u32 *)d + k; }); }
XS_ENTRY(e_array) { xme::Array<Val> d; int n = xs_choice(0, 4, "n"); for (int i = 0; i < n; i++) d.push_back(Val(xs_u32("x"))); laws<xme::Array<Val>::iterator>(n, [&](long i) { return d.begin() + i; }, [&](long k) { return d.data() + k; }); }
XS_ENTRY(e_array_const) { xme::Array<Val> d; int n = xs_choice(0, 4, "n"); for (int i = 0; i < n; i++) d.push_back(Val(xs_u32("x"))); const auto &c = d; laws<xme::Array<Val>::const_iterator>(n, [&](long i) { return c.begin() + i; }, [&](long k) { return c.data() + k; }); }
XS_ENTRY(e_symbolic) {
  u32 d[8]; using R = xme::ReverseIterator<u32 *>; for (auto &x : d) x = xs_u32("x");
  long p = (long)xs_u64("p"), q = (long)xs_u64("q"); xs_assume(p >= 0 && p <= 8 && q >= 0 && q <= 8); R a(d + 8 - p), b(d + 8 - q);
  xs_check((a < b) == (p < q) && (a > b) == (p > q) && (a <= b) == (p <= q) && (a >= b) == (p >= q) && (a == b) == (p == q), "order"); xs_check(b - a == q - p && a + (q - p) == b && b - (q - p) == a, "distance"); if (q < 8) xs_check(a[q - p] == d[7 - q] && *b == d[7 - q], "element");
}
XS_ENTRY(e_mixed) {
  u32 d[4] = {}; int p = xs_choice(0, 4, "p"), q = xs_choice(0, 4, "q"); xme::ReverseIterator<u32 *> a(d + 4 - p); xme::ReverseIterator<const u32 *> b(d + 4 - q);
  xs_check((a == b) == (p == q) && (b == a) == (p == q), "mixed equality"); xs_check((a < b) == (p < q) && (b < a) == (q < p) && (a >= b) == (p >= q), "mixed order"); xme::ReverseIterator<const u32 *> c = a; xs_check((c == b) == (p == q), "conversion keeps the position"); xs_check(c == a, "conversion"); 
}
XS_ENTRY(e_list) {
  BiList<u32> l; int n = xs_choice(0, 4, "n"); for (int i = 0; i < n; i++) l.push_back(xs_u32("x"));
  using It = decltype(l.begin()); using R = xme::ReverseIterator<It>; const u32 *p[4]; int k = 0; for (auto &e : l) p[k++] = &e; xs_check(k == n, "length");
  R i(l.end()), e(l.begin()); for (k = 0; i != e; k++) { xs_check(&*i == p[n - 1 - k] && i.operator->() == p[n - 1 - k], "reverse traversal of a list"); if (k & 1) ++i; else { R o = i++; xs_check(&*o == p[n - 1 - k], "post-increment"); } } xs_check(k == n, "traversal length");
  for (; k > 0; k--) { R o = i; if (k & 1) { --i; } else { xs_check(i-- == o, "post-decrement"); } xs_check(&*i == p[n - k], "back"); } if (n) xs_check(i == R(l.end()), "back at the start");
}
// a range far longer than any 32-bit count: positions that are only numbers
struct Far { using value_type = u32; using difference_type = long; using reference = u32 &; using pointer = u32 *; using iterator_category = std::random_access_iterator_tag; static inline u32 cell; static inline long last;
  long i = 0; u32 &operator*() const { last = i; return cell; } u32 *operator->() const { last = i; return &cell; } u32 &operator[](long n) const { last = i + n; return cell; }
  Far &operator++() { ++i; return *this; } Far operator++(int) { return {i++}; } Far &operator--() { --i; return *this; } Far operator--(int) { return {i--}; } Far &operator+=(long n) { i += n; return *this; } Far &operator-=(long n) { i -= n; return *this; }
  friend Far operator+(Far a, long n) { return {a.i + n}; } friend Far operator+(long n, Far a) { return {a.i + n}; } friend Far operator-(Far a, long n) { return {a.i - n}; } friend long operator-(Far a, Far b) { return a.i - b.i; } friend auto operator<=>(const Far &, const Far &) = default; };
static_assert(std::random_access_iterator<Far>);
XS_ENTRY(e_far) {
  using R = xme::ReverseIterator<Far>; constexpr long top = 1l << 60; long p = (long)xs_u64("p"), q = (long)xs_u64("q"); xs_assume(p >= 0 && q >= 0 && p < top && q < top); R a(Far{top - p}), b(Far{top - q}); long n = q - p; Far::cell = xs_u32("x"); auto at = [](const R &c) { return *c == Far::cell ? top - 1 - Far::last : -1; };
  xs_check(at(a) == p && at(a + n) == q && at(n + a) == q && at(b - n) == p && b - a == n && a - b == -n, "sums and differences"); R c = a; c += n; xs_check(at(c) == q && c == b, "+="); c -= n; xs_check(at(c) == p && c == a, "-="); xs_check(a[n] == Far::cell && Far::last == top - 1 - q && a[0] == Far::cell && Far::last == top - 1 - p && b[-n] == Far::cell && Far::last == top - 1 - p, "subscript");
  xs_check((a < b) == (p < q) && (a > b) == (p > q) && (a <= b) == (p <= q) && (a >= b) == (p >= q) && (a == b) == (p == q) && (a != b) == (p != q) && (a <=> b) == (p <=> q), "order"); c = a; ++c; xs_check(at(c) == p + 1 && at(c++) == p + 1 && at(c) == p + 2 && at(c--) == p + 2 && at(--c) == p, "steps"); *a.operator->(); xs_check(Far::last == top - 1 - p, "->");
}
// iter_move, iter_swap and -> reach the element of *
template <typename It, typename D> static void moves(D &d, long n, It b) {
  using R = xme::ReverseIterator<It>; long p = xs_choice(0, (int)n - 1, "p"), q = xs_choice(0, (int)n - 1, "q"); auto ref = [&](long k) -> decltype(auto) { auto i = b; for (long j = n - 1 - k; j > 0; j--) ++i; return *i; }; auto at = [&](long k) { auto i = b; for (long j = n - k; j > 0; j--) ++i; return R(i); };
  u32 v[4]; for (long k = 0; k < n; k++) v[k] = ref(k).v; R a = at(p), c = at(q); xs_check(&*a == &ref(p) && a.operator->() == &ref(p) && a->v == v[p], "-> and *"); static_assert(std::is_same_v<decltype(std::ranges::iter_move(a)), Trk &&>);
  xs_check(&(Trk &)std::ranges::iter_move(a) == &ref(p), "iter_move names the element"); long c0 = W.copies; std::ranges::iter_swap(a, c); for (long k = 0; k < n; k++) xs_check(ref(k).v == v[k == p ? q : k == q ? p : k], "iter_swap exchanges the two elements"); xs_check(W.copies == c0, "and copies nothing"); std::ranges::iter_swap(a, c); if (p != q) { *c = std::ranges::iter_move(a); xs_check(ref(q).v == v[p] && ref(p).v == 0xdead && W.copies == c0, "an element is moved out"); xs_reach("moved"); }
}
XS_ENTRY(e_moves_pointer) { W.reset(); { Trk d[3] = {Trk(xs_u32("x")), Trk(xs_u32("x")), Trk(xs_u32("x"))}; moves<Trk *>(d, xs_choice(1, 3, "n"), d + 0); } xs_check(W.live == 0, "balanced"); }
XS_ENTRY(e_moves_array) { W.reset(); { xme::Array<Trk> d; int n = xs_choice(1, 3, "n"); for (int i = 0; i < n; i++) d.push_back(Trk(xs_u32("x"))); moves<xme::Array<Trk>::iterator>(d, n, d.begin()); } xs_check(W.live == 0, "balanced"); }
XS_ENTRY(e_moves_list) { W.reset(); { BiList<Trk> d; int n = xs_choice(1, 3, "n"); for (int i = 0; i < n; i++) d.push_back(Trk(xs_u32("x"))); moves<BiList<Trk>::iterator>(d, n, d.begin()); } xs_check(W.live == 0, "balanced"); }
// the standard algorithms and reversing twice
XS_ENTRY(e_algorithms) {
  u32 d[4]; for (u32 &x : d) x = xs_u32("x"); int n = xs_choice(0, 4, "n"); using R = xme::ReverseIterator<u32 *>; R b(d + n), e(d + 0); static_assert(std::random_access_iterator<R> && std::sized_sentinel_for<R, R>); u32 o[4] = {}; u32 *w = std::ranges::copy(b, e, o).out; xs_check(w == o + n && std::ranges::distance(b, e) == n, "length"); for (int i = 0; i < n; i++) xs_check(o[i] == d[n - 1 - i], "copied in reverse");
  using RR = xme::ReverseIterator<R>; RR bb(e), ee(b); int k = 0; for (RR i = bb; i != ee; ++i, ++k) xs_check(&*i == d + k && &bb[k] == d + k && (bb + k) == i && i - bb == k && (bb < ee) == (n > 0), "a reversed reverse iterator walks forward"); xs_check(k == n && ee - bb == n, "length"); if (n > 1) { R m = b; *m = 7; m[1] = 8; xs_check(d[n - 1] == 7 && d[n - 2] == 8, "writes"); }
}
