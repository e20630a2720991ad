// @bounds ranges of 0..4 elements, any position and any in-range offset; over pointers, vector iterators and iterators of a doubly linked list; positions and offsets up to 2^60 over an iterator that only counts; ends that are no iterators, bases that are read once or give values
#include "track.hpp"
#include <vector>
#include <xme/core/iterators/const_iterator.hpp>
#include <xme/core/iterators/reverse_iterator.hpp>
using namespace hx;
// Random access, ordered by the four relations only .
struct Old {
  using value_type = u32; using difference_type = long; using reference = u32 &; using pointer = u32 *; using iterator_category = std::random_access_iterator_tag;
  u32 *p = nullptr;
  u32 &operator*() const { return *p; } u32 *operator->() const { return p; } u32 &operator[](long n) const { return p[n]; }
  Old &operator++() { ++p; return *this; } Old operator++(int) { Old t = *this; ++p; return t; } Old &operator--() { --p; return *this; } Old operator--(int) { Old t = *this; --p; return t; }
  Old &operator+=(long n) { p += n; return *this; } Old &operator-=(long n) { p -= n; return *this; }
  friend Old operator+(Old a, long n) { return a += n; } friend Old operator+(long n, Old a) { return a += n; } friend Old operator-(Old a, long n) { return a -= n; } friend long operator-(Old a, Old b) { return a.p - b.p; }
  friend bool operator==(Old a, Old b) { return a.p == b.p; } friend bool operator<(Old a, Old b) { return a.p < b.p; } friend bool operator>(Old a, Old b) { return a.p > b.p; } friend bool operator<=(Old a, Old b) { return a.p <= b.p; } friend bool operator>=(Old a, Old b) { return a.p >= b.p; }
};
static_assert(std::random_access_iterator<Old> && !std::three_way_comparable<Old> && std::totally_ordered<Old>);
template <typename A, typename B> static void relations(const A &a, const B &b, long p, long q) {
  xs_check((a == b) == (p == q) && (b == a) == (p == q) && (a != b) == (p != q) && (b != a) == (p != q), "== and != in both orders");
  xs_check((a < b) == (p < q), "<"); xs_check((a > b) == (p > q), ">"); xs_check((a <= b) == (p <= q), "<="); xs_check((a >= b) == (p >= q), ">=");
  xs_check((b < a) == (q < p), "< reversed"); xs_check((b > a) == (q > p), "> reversed"); xs_check((b <= a) == (q <= p), "<= reversed"); xs_check((b >= a) == (q >= p), ">= reversed");
}
template <typename It, typename B, typename At> static void laws(long n, B base, At at) {
  using C = xme::ConstIterator<It>; static_assert(std::is_const_v<std::remove_reference_t<decltype(*std::declval<C>())>>); auto mk = [&](long p) { return C(base(p)); };
  long p = xs_choice(0, (int)n, "p"), q = xs_choice(0, (int)n, "q"); C a = mk(p), b = mk(q); const C &ca = a; auto ub = base(q), ua = base(p);
  xs_check((a == b) == (p == q) && (a != b) == (p != q), "equality follows the position"); xs_check((a < b) == (p < q) && (a > b) == (p > q) && (a <= b) == (p <= q) && (a >= b) == (p >= q), "order follows the position"); xs_check((a <=> b) == (p <=> q), "three-way order");
  xs_check((a == ub) == (p == q) && (ub == a) == (p == q), "compares with the wrapped iterator"); xs_check(a < ub == (p < q) && a > ub == (p > q) && a <= ub == (p <= q) && a >= ub == (p >= q), "ordered with the wrapped iterator");
  xs_check(b - a == q - p && a - ub == p - q && ub - a == q - p, "distance"); xs_check(a + (q - p) == b && (q - p) + a == b && b - (q - p) == a, "a + (b - a) == b");
  C c = a; xs_check(&(c += (q - p)) == &c && c == b, "+="); xs_check(&(c -= (q - p)) == &c && c == a, "-=");
  if (p < n) { xs_check(&*ca == at(p) && ca.operator->() == at(p), "dereferences the same element"); c = a; C o = c++; xs_check(o == a && c == mk(p + 1), "post-increment"); c = a; xs_check(&++c == &c && c == mk(p + 1), "pre-increment"); C o2 = c--; xs_check(o2 == mk(p + 1) && c == a, "post-decrement"); ++c; xs_check(&--c == &c && c == a, "pre-decrement"); xs_obs_u64("v", raw(*a)); }
  if (q < n) { xs_check(&a[q - p] == at(q), "subscript"); xs_reach("subscript"); }
  long k = 0; for (C i = mk(0); i != mk(n); ++i, ++k) xs_check(&*i == at(k), "traversal"); xs_check(k == n, "traversal length"); (void)ua;
}
XS_ENTRY(e_relations) {
  u32 d[4] = {xs_u32("x"), 1, 2, 3}; int p = xs_choice(0, 4, "p"), q = xs_choice(0, 4, "q"); xs_check(d[0] == d[0], "value");
  { using C = xme::ConstIterator<u32 *>; C a(d + p), b(d + q); relations(a, b, p, q); relations(a, d + q, p, q); relations(a, (const u32 *)d + q, p, q); xs_check(((a <=> b) < 0) == (p < q) && ((a <=> (d + q)) == 0) == (p == q), "three-way"); }
  { using C = xme::ConstIterator<Old>; C a(Old{d + p}), b(Old{d + q}); relations(a, b, p, q); Old u{d + q};
    xs_check((a == u) == (p == q) && (u == a) == (p == q) && (a < u) == (p < q) && (a > u) == (p > q) && (a <= u) == (p <= q) && (a >= u) == (p >= q), "with the wrapped iterator"); xs_check(b - a == q - p && b - Old{d + p} == q - p && u - a == q - p, "distance"); }
}
XS_ENTRY(e_no_three_way) { u32 d[4]; int n = xs_choice(0, 4, "n"); for (auto &x : d) x = xs_u32("x");
  using C = xme::ConstIterator<Old>; int p = xs_choice(0, n, "p"), q = xs_choice(0, n, "q"); C a(Old{d + p}), b(Old{d + q}); xs_check(a + (q - p) == b && (q - p) + a == b && b - (q - p) == a, "arithmetic"); if (q < n) { xs_check(a[q - p] == d[q] && *b == d[q] && b.operator->() == d + q, "element"); xs_reach("element"); }
  if (p < n) { C c = a; C o = c++; xs_check(o == a && c == a + 1 && &++a == &a && a == c && a-- == c && a == o && &--c == &c && c == o, "steps"); } }
XS_ENTRY(e_pointer) { u32 d[4]; int n = xs_choice(0, 4, "n"); for (auto &x : d) x = xs_u32("x"); laws<u32 *>(n, [&](long i) { return d + i; }, [&](long k) { return d + k; }); }
XS_ENTRY(e_vector) { std::vector<Val> d; int n = xs_choice(0, 4, "n"); for (int i = 0; i < n; i++) d.push_back(Val(xs_u32("x"))); laws<std::vector<Val>::iterator>(n, [&](long i) { return d.begin() + i; }, [&](long k) { return d.data() + k; }); }
XS_ENTRY(e_symbolic) {
  u32 d[8]; using C = xme::ConstIterator<u32 *>; for (auto &x : d) x = xs_u32("x");
  long p = (long)xs_u64("p"), q = (long)xs_u64("q"); xs_assume(p >= 0 && p <= 8 && q >= 0 && q <= 8); C a(d + p), b(d + q);
  xs_check((a < b) == (p < q) && (a > b) == (p > q) && (a <= b) == (p <= q) && (a >= b) == (p >= q) && (a == b) == (p == q), "order"); xs_check(b - a == q - p && a + (q - p) == b && b - (q - p) == a, "distance"); if (q < 8) xs_check(a[q - p] == d[q] && *b == d[q], "element");
}
XS_ENTRY(e_list) {
  BiList<u32> l; int n = xs_choice(0, 4, "n"); for (int i = 0; i < n; i++) l.push_back(xs_u32("x"));
  using C = xme::ConstIterator<BiList<u32>::iterator>; const u32 *p[4]; int k = 0; for (auto &e : l) p[k++] = &e;
  C i(l.begin()), e(l.end()); for (k = 0; i != e; k++) { xs_check(&*i == p[k] && i.operator->() == p[k], "traversal of a list"); if (k & 1) ++i; else { C o = i++; xs_check(&*o == p[k], "post-increment"); } } xs_check(k == n, "traversal length");
  for (; k > 0; k--) { C o = i; if (k & 1) --i; else { xs_check(i-- == o, "post-decrement"); } xs_check(&*i == p[k - 1], "back"); }
}
XS_ENTRY(e_convert) {
  u32 d[4] = {}; int p = xs_choice(0, 4, "p"), q = xs_choice(0, 4, "q"); using R = xme::ReverseIterator<u32 *>; using CR = xme::ReverseIterator<const u32 *>; xme::ConstIterator<R> a(R(d + p)), b(R(d + q)); xme::ConstIterator<CR> c = a; xs_check(c == CR(d + p) && (c == xme::ConstIterator<CR>(b)) == (p == q), "conversion keeps the position"); if (p) xs_check(&*c == d + p - 1, "and the element");
}
XS_ENTRY(e_make) {
  u32 d[3] = {xs_u32("a"), xs_u32("b"), xs_u32("c")}; auto i = xme::make_const_iterator(d + 0); auto e = xme::make_const_sentinel(d + 3); static_assert(std::is_const_v<std::remove_reference_t<decltype(*i)>>); const u32 *cp = d; static_assert(std::is_same_v<decltype(xme::make_const_iterator(cp)), const u32 *>);
  int k = 0; for (; i != e; ++i, ++k) xs_check(&*i == d + k, "same elements"); xs_check(k == 3, "same length"); xs_check(xme::make_const_iterator(cp) == d, "already constant"); *d = 5; xs_check(*xme::make_const_iterator(d + 0) == 5, "sees later writes");
}
// a range far longer than any 32-bit count: positions that are only numbers
struct Far { using value_type = u32; using difference_type = long; using reference = u32 &; using pointer = u32 *; using iterator_category = std::random_access_iterator_tag; static inline u32 cell; static inline long last;
  long i = 0; u32 &operator*() const { last = i; return cell; } u32 *operator->() const { last = i; return &cell; } u32 &operator[](long n) const { last = i + n; return cell; }
  Far &operator++() { ++i; return *this; } Far operator++(int) { return {i++}; } Far &operator--() { --i; return *this; } Far operator--(int) { return {i--}; } Far &operator+=(long n) { i += n; return *this; } Far &operator-=(long n) { i -= n; return *this; }
  friend Far operator+(Far a, long n) { return {a.i + n}; } friend Far operator+(long n, Far a) { return {a.i + n}; } friend Far operator-(Far a, long n) { return {a.i - n}; } friend long operator-(Far a, Far b) { return a.i - b.i; } friend auto operator<=>(const Far &, const Far &) = default; };
static_assert(std::random_access_iterator<Far>);
XS_ENTRY(e_far) {
  using C = xme::ConstIterator<Far>; long p = (long)xs_u64("p"), q = (long)xs_u64("q"); xs_assume(p >= 0 && q >= 0 && p < (1l << 60) && q < (1l << 60)); C a(Far{p}), b(Far{q}); long n = q - p; Far::cell = xs_u32("x"); auto at = [](const C &c) { return *c == Far::cell ? Far::last : -1; };
  xs_check(at(a) == p && at(a + n) == q && at(n + a) == q && at(b - n) == p && b - a == n && a - b == -n && b - Far{p} == n && Far{q} - a == n, "sums and differences"); C c = a; c += n; xs_check(at(c) == q && c == b, "+="); c -= n; xs_check(at(c) == p && c == a, "-="); xs_check(a[n] == Far::cell && Far::last == q && a[0] == Far::cell && Far::last == p && b[-n] == Far::cell && Far::last == p, "subscript");
  xs_check((a < b) == (p < q) && (a > b) == (p > q) && (a <= b) == (p <= q) && (a >= b) == (p >= q) && (a == b) == (p == q) && (a <=> b) == (p <=> q) && (a < Far{q}) == (p < q) && (a == Far{q}) == (p == q) && (a >= Far{q}) == (p >= q), "order"); c = a; ++c; xs_check(at(c) == p + 1 && at(c++) == p + 1 && at(c) == p + 2 && at(c--) == p + 2 && at(--c) == p, "steps"); *a.operator->(); xs_check(Far::last == p, "->");
}
// ends that are no iterators, with and without a size; bases that are read once; bases that give values
struct To { const u32 *e; friend bool operator==(const u32 *p, To s) { return p == s.e; } friend bool operator==(u32 *p, To s) { return p == s.e; } };
struct Sized { const u32 *e; friend bool operator==(u32 *p, Sized s) { return p == s.e; } friend long operator-(u32 *p, Sized s) { return p - s.e; } friend long operator-(Sized s, u32 *p) { return s.e - p; } };
static_assert(std::sentinel_for<To, u32 *> && !std::sized_sentinel_for<To, u32 *> && std::sized_sentinel_for<Sized, u32 *>);
XS_ENTRY(e_sentinels) {
  u32 d[4]; for (u32 &x : d) x = xs_u32("x"); int p = xs_choice(0, 4, "p"), q = xs_choice(0, 4, "q"); using C = xme::ConstIterator<u32 *>; C a(d + p); const C ca = a;
  xs_check((a == To{d + q}) == (p == q) && (To{d + q} == ca) == (p == q) && (ca != To{d + q}) == (p != q) && (a == Sized{d + q}) == (p == q) && (Sized{d + q} != a) == (p != q), "equality with an end that is no iterator"); xs_check(a - Sized{d + q} == p - q && Sized{d + q} - ca == q - p, "distance to a sized end");
  auto s = xme::make_const_sentinel(To{d + 4}); static_assert(std::is_same_v<decltype(s), To>); int k = p; for (C i = a; i != s; ++i, ++k) xs_check(&*i == d + k && *i == d[k], "up to the end"); xs_check(k == 4, "length"); auto e = xme::make_const_sentinel(d + q); static_assert(std::is_same_v<decltype(e), C>); xs_check((e == a) == (p == q) && e - a == q - p, "an end that is an iterator"); xs_check((C() == C()), "default"); xs_obs_u64("d", (uint64_t)(q - p));
}
XS_ENTRY(e_once) {
  u32 d[4]; for (u32 &x : d) x = xs_u32("x"); int n = xs_choice(0, 4, "n"); typename InIt<u32>::Src s{d, d + n}; using I = InIt<u32>; using C = xme::ConstIterator<I>; static_assert(std::input_iterator<I> && !std::forward_iterator<I>); C i{I{&s}}; int k = 0; for (; i != std::default_sentinel; ++i, ++k) xs_check(*i == d[k], "every element once"); xs_check(k == n, "length"); xs_reach("once");
}
struct Gen { using value_type = u32; using difference_type = long; using reference = u32; using pointer = void; using iterator_category = std::input_iterator_tag; using iterator_concept = std::random_access_iterator_tag; u32 base = 0; long i = 0; u32 operator*() const { return base * 3 + (u32)i; } u32 operator[](long n) const { return base * 3 + (u32)(i + n); }
  Gen &operator++() { ++i; return *this; } Gen operator++(int) { return {base, i++}; } Gen &operator--() { --i; return *this; } Gen operator--(int) { return {base, i--}; } Gen &operator+=(long n) { i += n; return *this; } Gen &operator-=(long n) { i -= n; return *this; } friend Gen operator+(Gen a, long n) { return {a.base, a.i + n}; } friend Gen operator+(long n, Gen a) { return {a.base, a.i + n}; } friend Gen operator-(Gen a, long n) { return {a.base, a.i - n}; } friend long operator-(Gen a, Gen b) { return a.i - b.i; } friend auto operator<=>(const Gen &, const Gen &) = default; };
static_assert(std::random_access_iterator<Gen>);
XS_ENTRY(e_values) { u32 b = xs_u32("b"); int p = xs_choice(-3, 3, "p"), n = xs_choice(-3, 3, "n"); using C = xme::ConstIterator<Gen>; C a(Gen{b, p}), c = a + n; auto at = [&](long i) { return b * 3 + (u32)i; }; xs_check(*a == at(p) && a[n] == at(p + n) && *c == at(p + n) && *(c - n) == at(p) && c - a == n && (a < c) == (n > 0) && (a == c) == (n == 0) && *++c == at(p + n + 1) && *c-- == at(p + n + 1) && *c == at(p + n), "elements that are values"); static_assert(!std::is_reference_v<decltype(*a)>); }
// what moves from or swaps mutable elements leaves them alone
XS_ENTRY(e_read_only) {
  W.reset(); { Trk d[2] = {Trk(xs_u32("x")), Trk(xs_u32("x"))}; u32 x = d[0].v, y = d[1].v; xme::ConstIterator<Trk *> i(d + 0), j(d + 2); static_assert(!std::indirectly_swappable<decltype(i)> && !std::indirectly_writable<decltype(i), Trk>); static_assert(std::is_same_v<decltype(*i), const Trk &> && std::is_same_v<decltype(i[0]), const Trk &> && std::is_same_v<decltype(i.operator->()), const Trk *>); Trk got(std::ranges::iter_move(i)); xs_check(got.v == x && d[0].v == x, "moving from a constant element copies it"); xs_check(i->v == x && i[1].v == y, "arrow"); Trk out[2] = {Trk(0u), Trk(0u)}; Trk *o = out; for (; i != j; ++i) *o++ = std::ranges::iter_move(i); xs_check(out[0].v == x && out[1].v == y && d[0].v == x && d[1].v == y, "the source is kept"); } xs_check(W.live == 0, "balanced");
}
