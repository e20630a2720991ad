// @configs none, ndebug
// @bounds lists of 0..4 (thorough 0..6) elements, every pair of positions, mutable and const; arrays, views and heaps of 0..4 elements of twelve types for the accessors, views of any length up to 2^46 bytes for the addresses; symbolic values
#include "track.hpp"
#include <array>
#include <xme/container/array.hpp>
#include <xme/container/array_view.hpp>
#include <xme/container/heap.hpp>
#include <xme/container/linked_list.hpp>
using namespace hx;
using L = xme::LinkedList<u32>; using I = L::iterator; using CI = L::const_iterator;
static_assert(std::is_same_v<decltype(*std::declval<const I &>()), u32 &> && std::is_same_v<decltype(*std::declval<const CI &>()), const u32 &> && std::is_convertible_v<I, CI> && !std::is_convertible_v<CI, I>);
static_assert(std::is_same_v<decltype(std::declval<const L &>().begin()), CI> && std::is_same_v<decltype(std::declval<const L &>().end()), CI> && std::is_same_v<decltype(std::declval<L &>().begin()), I>);
static_assert(std::forward_iterator<I> && std::forward_iterator<CI> && std::is_same_v<std::iter_value_t<I>, u32> && std::is_same_v<std::iter_value_t<CI>, u32>);
// The addresses of the elements, found by walking the list once, are the positions everything else is compared with.
static int walk(L &l, u32 *p[]) { int n = 0; for (auto i = l.begin(); i != l.end(); ++i) p[n++] = &*i; return n; }
static int make(L &l, u32 v[], int max) { int n = xs_choice(0, max, "n"); for (int i = n; i-- > 0;) { v[i] = xs_u32("x"); l.push_front(v[i]); } return n; }
template <typename It> static It at(It b, int k) { for (; k > 0; k--) ++b; return b; }
template <typename It> static void steps(It b, It e, u32 *p[], const u32 v[], int n) {
  int k = xs_choice(0, n, "position"); It i = at(b, k), s = i; xs_check((i == e) == (k == n) && (i != e) == (k != n), "the end is reached after the last element, not before");
  if (k < n) {
    xs_check(&*i == p[k] && *i == v[k] && i.operator->() == p[k], "dereference"); It q = i++; xs_check(q == s && &*q == p[k], "postfix increment returns the old position"); xs_check(i == at(b, k + 1) && (k + 1 == n ? i == e : &*i == p[k + 1]), "postfix increment advances"); It &r = ++s; xs_check(&r == &s && s == i, "prefix increment returns itself, advanced"); xs_reach("element");
    if (k + 1 < n) { u32 t = *i++; xs_check(t == v[k + 1] && i == at(b, k + 2), "*i++"); xs_reach("two"); }
  } else xs_reach("end");
  int m = xs_choice(0, n, "other"); It j = at(b, m); k = k < n ? k + 1 : k; xs_check((at(b, k) == j) == (k == m) && (at(b, k) != j) == (k != m), "equal exactly at the same position"); It c(j); c = j; xs_check(c == j, "a copy is at the same position");
}
XS_ENTRY(e_mutable) { L l; u32 v[8], *p[8]; int n = make(l, v, QT(4, 6)); xs_check(walk(l, p) == n, "length"); steps<I>(l.begin(), l.end(), p, v, n); }
XS_ENTRY(e_const) { L l; u32 v[8], *p[8]; int n = make(l, v, QT(4, 6)); walk(l, p); const L &c = l; steps<CI>(c.begin(), c.end(), p, v, n); }
XS_ENTRY(e_before_begin) {
  L l; u32 v[8], *p[8]; int n = make(l, v, 3); walk(l, p); const L &c = l; auto b = l.before_begin(); auto cb = c.before_begin(); auto cc = l.cbefore_begin(); xs_check(CI(b) == cb && cb == cc, "the positions before the first element agree"); xs_check(b != l.begin() && b != l.end() && cb != c.begin(), "before the first element is a position of its own"); ++b; ++cb; cc++; xs_check(b == l.begin() && cb == c.begin() && cc == c.begin(), "the first element follows");
}
XS_ENTRY(e_conversion) {
  L l; u32 v[8], *p[8]; int n = make(l, v, 3); walk(l, p); const L &c = l; int k = xs_choice(0, n, "position"), m = xs_choice(0, n, "other"); I i = at(l.begin(), k); CI j = i; xs_check(j == at(c.begin(), k), "a const iterator made from an iterator is at its position"); xs_check((CI(i) == at(c.begin(), m)) == (k == m), "positions"); if (k < n) { u32 x = xs_u32("new"); *i = x; xs_check(*j == x && &*j == p[k], "both reach the same element"); for (int q = 0; q < n; q++) xs_check(*p[q] == (q == k ? x : v[q]), "a write changes no other element"); xs_reach("written"); }
  I d{}, d2{}; CI e{}, e2{}; xs_check(d == d2 && e == e2, "singular iterators are equal");
}
XS_ENTRY(e_range) {
  L l; u32 v[8]; int n = make(l, v, 4); const L &c = l; int k = 0; for (u32 &x : l) xs_check(x == v[k++], "range for"); xs_check(k == n, "length"); k = 0; for (const u32 &x : c) xs_check(x == v[k++], "range for"); xs_check(k == n, "length"); xs_check(std::ranges::distance(c) == n && std::ranges::distance(l.begin(), l.end()) == n, "distance");
  xs_check(l.empty() == (n == 0) && c.empty() == (n == 0), "empty"); if (n) { xs_check(&l.front() == &*l.begin() && &c.front() == &*l.begin() && l.front() == v[0], "front is the first element"); u32 x = xs_u32("x"); l.front() = x; xs_check(*c.begin() == x, "front can be written"); xs_reach("front"); }
}
struct B { u32 x; u32 get() const { return x; } };
XS_ENTRY(e_arrow) { xme::LinkedList<B> l; u32 a = xs_u32("a"), b = xs_u32("b"); l.push_front(B{b}); l.push_front(B{a}); const auto &c = l; auto i = l.begin(); auto j = c.begin(); xs_check(i->x == a && j->get() == a, "arrow"); i++; ++j; i->x = 5; xs_check(j->x == 5 && i->get() == 5 && l.begin()->x == a, "arrow"); }
// Accessors of the other containers: every way to an element reaches the same one.
template <typename A> static void access(A &a, u32 *base, int n) {
  const A &c = a; xs_check((int)a.size() == n && (int)c.size() == n && a.empty() == (n == 0) && c.empty() == (n == 0), "size and empty"); xs_check(a.end() - a.begin() == n && c.end() - c.begin() == n, "length");
  if (n) { int k = xs_choice(0, n - 1, "index"); xs_check(&a[k] == base + k && &c[k] == base + k && &*(a.begin() + k) == base + k && &*(c.begin() + k) == base + k && &a.begin()[k] == base + k, "index"); xs_check(&a.front() == base && &c.front() == base && &a.back() == base + n - 1 && &c.back() == base + n - 1, "front and back");
    int q = 0; for (auto &x : a) xs_check(&x == base + q++, "order"); q = 0; for (auto &x : c) xs_check(&x == base + q++, "order"); xs_reach("element"); } else xs_reach("empty");
}
XS_ENTRY(e_array) { xme::Array<u32> a; int n = xs_choice(0, 4, "n"); if (xs_choice(0, 1, "spare")) a.reserve(6); for (int i = 0; i < n; i++) a.push_back(xs_u32("x")); access(a, n ? &*a.begin() : nullptr, n); }
XS_ENTRY(e_view) { u32 b[6]; for (auto &x : b) x = xs_u32("x"); int n = xs_choice(0, 4, "n"), o = xs_choice(0, 2, "offset"); xme::ArrayView<u32> v(b + o, (std::size_t)n); access(v, b + o, n); xs_check(v.data() == b + o && std::as_const(v).data() == b + o, "data"); }
XS_ENTRY(e_view_static) { u32 b[4]; for (auto &x : b) x = xs_u32("x"); xme::ArrayView<u32, 4> v(b); access(v, b, 4); xme::ArrayView<u32, 0> z(b + 1, (std::size_t)0); xs_check(z.empty() && z.size() == 0 && z.begin() == z.end(), "an empty static view"); }
XS_ENTRY(e_heap) { xme::Heap<u32> h; int n = xs_choice(0, 4, "n"); for (int i = 0; i < n; i++) h.push(xs_u8("key")); const auto &c = h; xs_check((int)h.size() == n && h.empty() == (n == 0) && c.empty() == (n == 0), "size and empty"); if (n) xs_check(&h.front() == &c.front(), "front"); }
// Accessors do not depend on what the elements are.
template <unsigned N> struct Sz { unsigned char b[N]; };
template <typename A, typename T> static void shape(A &a, T *base, int n) { const A &c = a; int k = xs_choice(0, n - 1, "index"); xs_check(&a[k] == base + k && &c[k] == base + k && &*(a.begin() + k) == base + k && &*(c.begin() + k) == base + k && &a.front() == base && &c.front() == base && &a.back() == base + n - 1 && &c.back() == base + n - 1 && a.end() - a.begin() == n && c.end() - c.begin() == n && (int)c.size() == n && !c.empty(), "front, back, index and range"); xs_reach("shape"); }
template <typename T> static void shapes() { int n = xs_choice(1, 4, "n"); if (xs_choice(0, 1, "view")) { T b[6]; xme::ArrayView<T> v(b + 1, (std::size_t)n); shape(v, b + 1, n); } else { xme::Array<T> a; for (int i = 0; i < n; i++) a.push_back(T{}); shape(a, std::to_address(a.begin()), n); } }
XS_ENTRY(e_element_types) {
  switch (xs_choice(0, 11, "type")) { case 0: shapes<Sz<1>>(); break; case 1: shapes<Sz<2>>(); break; case 2: shapes<Sz<3>>(); break; case 3: shapes<Sz<8>>(); break; case 4: shapes<Sz<16>>(); break; case 5: shapes<Sz<24>>(); break; case 6: shapes<double>(); break; case 7: shapes<char>(); break; case 8: shapes<int *>(); break; case 9: shapes<uint64_t>(); break; case 10: shapes<Trk>(); break; case 11: { struct alignas(32) Wide { int x; }; shapes<Wide>(); break; } }
}
// Views far longer than any allocation here: only addresses are formed, nothing is read.
template <typename T> static void far() { static T one[1]; std::size_t n = xs_u64("n"), i = xs_u64("index"); xs_assume(n <= ((std::size_t)1 << 46) / sizeof(T) && i < n); uintptr_t base = (uintptr_t)&one[0]; xme::ArrayView<T> v(one, n); const xme::ArrayView<T> c = v; auto ad = [](auto &r) { return (uintptr_t)std::addressof(r); };
  xs_check(ad(v[i]) == base + i * sizeof(T) && ad(c[i]) == base + i * sizeof(T), "index"); xs_check(ad(v.back()) == base + (n - 1) * sizeof(T) && ad(c.back()) == base + (n - 1) * sizeof(T) && ad(v.front()) == base && ad(c.front()) == base, "front and back"); xs_check((std::size_t)(c.end() - c.begin()) == n && (std::size_t)(v.end() - v.begin()) == n && c.size() == n && v.size() == n && !c.empty() && !v.empty(), "size"); xs_check(ad(*(c.begin() + (std::ptrdiff_t)i)) == ad(c[i]), "position"); xs_reach("far"); }
XS_ENTRY(e_far) { switch (xs_choice(0, 3, "type")) { case 0: far<char>(); break; case 1: far<u32>(); break; case 2: far<uint64_t>(); break; case 3: far<Sz<3>>(); break; } }
// The accessors every container inherits, at any length: a container of its own over the same addresses.
template <typename T> struct Span : xme::IContainer<Span<T>> {
  using value_type = T; using reference = T &; using const_reference = const T &; using pointer = T *; using const_pointer = const T *; using size_type = std::size_t; using difference_type = std::ptrdiff_t; using iterator = T *; using const_iterator = const T *;
  T *b, *e; Span(T *f, std::size_t n) : b(f), e(f + n) {} T *begin() noexcept { return b; } T *end() noexcept { return e; } const T *begin() const noexcept { return b; } const T *end() const noexcept { return e; }
};
template <typename T> static void farSpan() { static T one[1]; std::size_t n = xs_u64("n"), i = xs_u64("index"); xs_assume(n <= ((std::size_t)1 << 46) / sizeof(T) && i < n); uintptr_t base = (uintptr_t)&one[0]; Span<T> v(one, n); const Span<T> c = v; auto ad = [](auto &r) { return (uintptr_t)std::addressof(r); };
  xs_check(ad(v[(std::ptrdiff_t)i]) == base + i * sizeof(T) && ad(c[(std::ptrdiff_t)i]) == base + i * sizeof(T), "index"); xs_check(ad(v.back()) == base + (n - 1) * sizeof(T) && ad(c.back()) == base + (n - 1) * sizeof(T) && ad(v.front()) == base && ad(c.front()) == base && (uintptr_t)v.data() == base && (uintptr_t)c.data() == base, "front, back and data"); xs_check(c.size() == n && v.size() == n && !c.empty() && !v.empty(), "size"); xs_reach("span"); }
XS_ENTRY(e_far_span) { switch (xs_choice(0, 2, "type")) { case 0: farSpan<char>(); break; case 1: farSpan<u32>(); break; case 2: farSpan<uint64_t>(); break; } }
// Insertions and erasures elsewhere leave iterators and references alone; a moved or swapped list takes its elements along.
XS_ENTRY(e_stable) {
  L l; u32 v[8], *p[8]; int n = make(l, v, QT(3, 5)); if (!n) xs_stop_path(); walk(l, p); int k = xs_choice(0, n - 1, "watched"); I w = at(l.begin(), k); CI cw = w; u32 z = xs_u32("z");
  int b = xs_choice(0, n, "after"); I q = at(l.before_begin(), b); u32 two[2] = {xs_u32("r"), xs_u32("r")}; int next = k + 1 < n ? 1 : 0;
  switch (xs_choice(0, 7, "operation")) {
  case 0: l.push_front(z); break;
  case 1: l.insert_after(q, z); if (b == k + 1) next = 2; break;
  case 2: l.emplace_after(q, z); if (b == k + 1) next = 2; break;
  case 3: l.insert_after(q, two + 0, two + 2); if (b == k + 1) next = 2; break;
  case 4: if (b == n || b == k) xs_stop_path(); l.erase_after(q); if (b == k + 1) next = 3; break;
  case 5: if (k == 0) xs_stop_path(); l.pop_front(); break;
  case 6: { L m(std::move(l)); xs_check(&*w == p[k] && *w == v[k] && *cw == v[k] && at(m.begin(), k) == w, "moved along"); I x = w; ++x; xs_check((k + 1 < n) == (x != m.end()), "the next element"); xs_reach("moved"); return; }
  case 7: { L m; m.push_front(z); m = std::move(l); xs_check(&*w == p[k] && *w == v[k] && *cw == v[k] && at(m.begin(), k) == w, "moved along"); xs_reach("assigned"); return; }
  }
  xs_check(&*w == p[k] && *w == v[k] && &*cw == p[k], "an iterator to another element keeps naming it"); bool found = false; for (u32 &x : l) found |= &x == p[k]; xs_check(found, "the element is in the list at the same address");
  I x = w; ++x; if (next == 1) xs_check(&*x == p[k + 1] && *x == v[k + 1], "the next element is the same"); if (next == 0) xs_check(x == l.end(), "the last element stays last"); if (next == 3) xs_check(k + 2 < n ? &*x == p[k + 2] : x == l.end(), "the element after the erased one");
  xs_reach("kept");
}
