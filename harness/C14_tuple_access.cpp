// @configs none, this23
// @bounds tuples of 1..4 and 5 to 17 elements and pairs over int, 64-bit, 8-bit, empty, reference and lifetime-tracked types, symbolic values
#include "track.hpp"
#include <tuple>
#include <xme/container/pair.hpp>
#include <xme/container/tuple.hpp>
using namespace hx;
struct E1 {
  bool operator==(const E1 &) const = default; auto operator<=>(const E1 &) const = default; };
using T3 = xme::Tuple<u32, uint64_t, uint8_t>; using S3 = std::tuple<u32, uint64_t, uint8_t>;
static T3 mk(S3 &s) { s = S3{xs_u32("a"), xs_u64("b"), xs_u8("c")}; return T3{std::get<0>(s), std::get<1>(s), std::get<2>(s)}; }
template <std::size_t I> using ix = std::integral_constant<std::size_t, I>;
static bool eq(const T3 &t, const S3 &s) { return xme::get<0>(t) == std::get<0>(s) && xme::get<1>(t) == std::get<1>(s) && xme::get<2>(t) == std::get<2>(s); }
XS_ENTRY(e_access) {
  S3 s; T3 t = mk(s); const T3 &c = t;
  xs_check(eq(t, s), "elements keep their order and values");
  xs_check(&xme::get<0>(t) == &t[ix<0>{}] && &xme::get<1>(t) == &t[ix<1>{}] && &xme::get<2>(t) == &t[ix<2>{}], "get and operator[] name the same element");
  xs_check(&xme::get<0>(c) == &t[ix<0>{}] && &xme::get<2>(c) == &xme::get<2>(t), "const access names the same element");
  xs_check((void *)&xme::get<0>(t) != (void *)&xme::get<1>(t) && (void *)&xme::get<1>(t) != (void *)&xme::get<2>(t), "elements are distinct");
  u32 x = xs_u32("x"); xme::get<0>(t) = x; std::get<0>(s) = x; xs_check(eq(t, s), "writing one element leaves the others"); uint8_t y = xs_u8("y"); t[ix<2>{}] = y; std::get<2>(s) = y; xs_check(eq(t, s), "writing the last element leaves the others");
  auto &&r = xme::get<1>(std::move(t)); static_assert(std::is_same_v<decltype(r), uint64_t &&>); xs_check(&r == &xme::get<1>(c), "rvalue access names the same element");
  auto [a, b, d] = t; xs_check(a == std::get<0>(s) && b == std::get<1>(s) && d == std::get<2>(s), "structured binding");
}
XS_ENTRY(e_compare) {
  S3 s, r; T3 t = mk(s), u = mk(r);
  xs_check((t == u) == (s == r) && (t != u) == (s != r), "equality is elementwise");
  xs_check((t < u) == (s < r) && (t <= u) == (s <= r) && (t > u) == (s > r) && (t >= u) == (s >= r), "ordering is lexicographic");
  xs_check((t <=> u) == (s <=> r), "three-way comparison");
  using I2 = xme::Tuple<int, int>; int a = (int)xs_u32("a"), b = (int)xs_u32("b"), c = (int)xs_u32("c"), d = (int)xs_u32("d");
  I2 p{a, b}, q{c, d}; xs_check((p < q) == (a < c || (a == c && b < d)), "signed ordering"); xs_check((p == q) == (a == c && b == d), "signed equality");
  xme::Pair<int, int> x{a, b}, y{c, d}; xs_check((x < y) == (a < c || (a == c && b < d)) && (x > y) == (a > c || (a == c && b > d)) && (x <= y) == !(y < x) && (x >= y) == !(x < y), "pair ordering"); xs_check((x == y) == (a == c && b == d), "pair equality");
}
XS_ENTRY(e_assign_swap) {
  S3 s, r; T3 t = mk(s), u = mk(r);
  T3 k = t; k = u; xs_check(eq(k, r) && eq(u, r), "copy assignment"); k = std::move(t); xs_check(eq(k, s), "move assignment");
  swap(k, u); xs_check(eq(k, r) && eq(u, s), "swap exchanges every element"); k.swap(u); xs_check(eq(k, s) && eq(u, r), "swap back"); k.swap(k); xs_check(eq(k, s), "self swap"); k = *&k; xs_check(eq(k, s), "self assignment");
  xme::Tuple<u32, uint64_t, u32> w{1u, 2u, 3u}; w = k; xs_check(xme::get<0>(w) == std::get<0>(s) && xme::get<1>(w) == std::get<1>(s) && xme::get<2>(w) == std::get<2>(s), "assignment from another tuple type"); const T3 ck = k; w = ck; xs_check(xme::get<2>(w) == std::get<2>(s), "assignment from a const tuple");
  xme::Tuple<u32, uint64_t> w2{0u, 0u}; xme::Pair<u32, uint64_t> p{xs_u32("p"), xs_u64("q")}; w2 = p; xs_check(xme::get<0>(w2) == p.first && xme::get<1>(w2) == p.second, "assignment from a pair");
  S3 st{7, 8, 9}; std::get<1>(st) = xs_u64("z"); T3 t2{1, 2, 3}; t2 = st; xs_check(eq(t2, st), "assignment from a standard tuple");
}
XS_ENTRY(e_pair) {
  u32 a = xs_u32("a"), c = xs_u32("c"); uint64_t b = xs_u64("b"), d = xs_u64("d"); using P = xme::Pair<u32, uint64_t>; P p{a, b}; const P &cp = p;
  xs_check(p.first == a && p.second == b && &xme::get<0>(p) == &p.first && &xme::get<1>(p) == &p.second && &xme::get<0>(cp) == &p.first && &p[ix<1>{}] == &p.second && &cp[ix<0>{}] == &p.first, "access");
  auto &&r = xme::get<1>(std::move(p)); xs_check(&r == &p.second, "rvalue access");
  P q{c, d}; P k = p; k = q; xs_check(k.first == c && k.second == d && q.first == c, "copy assignment"); swap(p, q); xs_check(p.first == c && p.second == d && q.first == a && q.second == b, "swap"); p.swap(q); xs_check(p.first == a && q.second == d, "member swap"); p.swap(p); xs_check(p.first == a && p.second == b, "self swap");
  auto m = xme::make_pair(a, d); static_assert(std::is_same_v<decltype(m), P>); xs_check(m.first == a && m.second == d, "make_pair"); auto mr = xme::make_pair(std::ref(a), d); static_assert(std::is_same_v<decltype(mr), xme::Pair<u32 &, uint64_t>>); xs_check(&mr.first == &a, "make_pair unwraps references");
  xme::Pair<uint64_t, uint64_t> w{0, 0}; w = p; xs_check(w.first == a && w.second == b, "assignment from another pair type"); std::pair<u32, uint64_t> sp{c, b}; w = sp; xs_check(w.first == c && w.second == b, "assignment from a standard pair"); w = xme::Tuple<u32, u32>{5u, a}; xs_check(w.first == 5 && w.second == a, "assignment from a tuple of two");
  auto [x, y] = p; xs_check(x == a && y == b, "structured binding");
}
XS_ENTRY(e_references) {
  u32 a = xs_u32("a"), c = xs_u32("c"); uint64_t b = xs_u64("b"), d = xs_u64("d"); u32 a0 = a, c0 = c; uint64_t b0 = b, d0 = d;
  xme::Tuple<u32 &, uint64_t &> t{a, b}; xs_check(&xme::get<0>(t) == &a && &xme::get<1>(t) == &b, "a reference element names its object");
  xme::Tuple<u32, uint64_t> v{c, d}; t = v; xs_check(a == c0 && b == d0, "assignment goes through the references"); a = a0; b = b0;
  xme::Tuple<u32 &, uint64_t &> u{c, d}; swap(t, u); xs_check(a == c0 && b == d0 && c == a0 && d == b0, "swap exchanges the referenced objects");
  xme::Pair<u32 &, uint64_t &> p{a, b}; xs_check(&p.first == &a && &xme::get<1>(p) == &b, "pair of references"); p = xme::Pair<u32, uint64_t>{9u, 10u}; xs_check(a == 9 && b == 10, "assignment through a pair of references");
  const xme::Tuple<u32 &, uint64_t &> ct{c, d}; xs_check(&xme::get<0>(ct) == &c, "const access to a reference element"); xs_check(&xme::get<0>(std::move(t)) == &a, "rvalue access to a reference element");
}
XS_ENTRY(e_elements_types) {
  u32 a = xs_u32("a"); xme::Tuple<E1, u32, E1> t{E1{}, a, E1{}}; xs_check(xme::get<1>(t) == a, "empty elements take no other element's place"); xme::get<0>(t) = E1{}; xme::get<2>(t) = E1{}; swap(t, t); xs_check(xme::get<1>(t) == a, "writing an empty element changes nothing else");
  xme::Tuple<uint8_t> o{(uint8_t)a}; xs_check(xme::get<0>(o) == (uint8_t)a && std::tuple_size_v<decltype(o)> == 1, "one element"); xme::Tuple<u32, u32, u32, u32> f{a, a + 1, a + 2, a + 3}; xs_check(xme::get<0>(f) == a && xme::get<1>(f) == a + 1 && xme::get<2>(f) == a + 2 && xme::get<3>(f) == a + 3, "four elements");
  xme::Tuple<uint8_t, uint64_t, uint8_t, uint16_t> m{1, 2, 3, 4}; xme::get<1>(m) = xs_u64("w"); xme::get<3>(m) = 0xffff; xs_check(xme::get<0>(m) == 1 && xme::get<2>(m) == 3, "padding");
}
XS_ENTRY(e_lifetimes) {
  W.reset();
  { u32 a = xs_u32("a"), b = xs_u32("b"); xme::Tuple<Trk, u32, Trk> t{Trk(a), 5u, Trk(b)}; auto u = t; xs_check(W.live == 4 && xme::get<0>(u).v == a && xme::get<2>(u).v == b && xme::get<0>(t).v == a, "copy"); auto v = std::move(t); xs_check(xme::get<0>(v).v == a && xme::get<2>(v).v == b && xme::get<0>(t).v == 0xdead, "move"); u = v; long c0 = W.copies; v = std::move(u); xs_check(W.copies == c0 && xme::get<2>(v).v == b, "move assignment does not copy");
    Trk g(xme::get<0>(std::move(v))); xs_check(g.v == a && xme::get<0>(v).v == 0xdead && xme::get<2>(v).v == b, "rvalue access moves only that element"); xme::Tuple<Trk, Trk> w{Trk(1), Trk(2)}; w = xme::Tuple<u32, u32>{a, b}; xs_check(xme::get<0>(w).v == a, "converting assignment");
    xme::Pair<Trk, Trk> p{Trk(a), Trk(b)}, q{Trk(1), Trk(2)}; q = p; xs_check(q.first.v == a && p.second.v == b, "pair copy assignment keeps the source"); q = std::move(p); xs_check(q.second.v == b && p.first.v == 0xdead, "pair move assignment moves"); swap(p, q); xs_check(p.first.v == a, "pair swap"); }
  xs_check(W.live == 0 && W.ctors == W.dtors, "every element destroyed once");
}
XS_ENTRY(e_throw) { // an exception of an element operation reaches the caller; no element is lost, leaked or destroyed twice
  W.reset();
  { u32 a = xs_u32("a"), b = xs_u32("b"), c = xs_u32("c"), d = xs_u32("d"); using P = xme::Pair<TrkMT, Trk>; using Q = xme::Tuple<Trk, u32, TrkMT>; P p{TrkMT(a), Trk(b)}, q{TrkMT(c), Trk(d)}; Q s{Trk(a), 5u, TrkMT(b)}, t{Trk(c), 6u, TrkMT(d)}; xme::Pair<u32, u32> w{c, d}; xme::Tuple<u32, u32, u32> x{c, 6u, d};
    int k = xs_choice(0, 10, "operation"), f = xs_choice(-1, 3, "fault"); bool th = false; long live = W.live; W.ops = 0; W.throw_at = f;
    try { switch (k) { case 0: p = q; break; case 1: p = std::move(q); break; case 2: p = w; break; case 3: p.swap(q); break; case 4: { P r(q); break; } case 5: s = t; break; case 6: s = x; break; case 7: { Q r(t); break; } case 8: swap(p, q); break; case 9: swap(s, t); break; default: s.swap(t); } } catch (const Thrown &) { th = true; } W.throw_at = -1;
    xs_check(W.live == live, "the elements stay alive, whatever fails"); p.first.ok(); p.second.ok(); q.first.ok(); q.second.ok(); xme::get<0>(s).ok(); xme::get<2>(s).ok(); xme::get<0>(t).ok(); xme::get<2>(t).ok();
    if (!th) { if (k == 3 || k == 8) xs_check(p.first.v == c && p.second.v == d && q.first.v == a && q.second.v == b, "pair exchanged"); if (k == 9 || k == 10) xs_check(xme::get<0>(s).v == c && xme::get<2>(s).v == d && xme::get<1>(t) == 5 && xme::get<2>(t).v == b, "tuple exchanged"); if (k == 0 || k == 2) xs_check(p.first.v == c && p.second.v == d, "pair assigned"); if (k == 5 || k == 6) xs_check(xme::get<0>(s).v == c && xme::get<1>(s) == 6 && xme::get<2>(s).v == d, "tuple assigned"); xs_reach("finished"); } else xs_reach("thrown");
    if (th && k == 0) xs_check((f == 0 && p.first.v == a && p.second.v == b) || (f == 1 && p.first.v == c && p.second.v == b), "elements are assigned in order"); }
  xs_check(W.live == 0 && W.ctors == W.dtors, "every element destroyed once");
}
// converting assignment: each element once, with the category of the source
struct Src { u32 v; mutable int copied = 0; bool moved = false; Src(u32 x = 0) : v(x) {} };
struct Dst { u32 v = 0; int how = 0; Dst() = default; Dst(u32 x) : v(x) {} Dst &operator=(const Src &s) { v = s.v; s.copied++; how = 1; return *this; } Dst &operator=(Src &&s) { v = s.v; s.moved = true; how = 2; return *this; } };
XS_ENTRY(e_convert_category) {
  u32 a = xs_u32("a"), b = xs_u32("b"), c = xs_u32("c"); int k = xs_choice(0, 2, "category");
  { xme::Pair<Dst, Dst> d{}; xme::Pair<Src, Src> s{a, b}; if (k == 0) d = s; else if (k == 1) d = std::as_const(s); else d = std::move(s); int how = k == 2 ? 2 : 1; xs_check(d.first.v == a && d.second.v == b, "pair elements convert"); xs_check(d.first.how == how && d.second.how == how, "the category of the source pair reaches each element"); xs_check(s.first.moved == (k == 2) && s.second.moved == (k == 2) && s.first.copied == (k != 2) && s.second.copied == (k != 2), "each element is assigned once"); }
  { xme::Tuple<Dst, Dst, Dst> d{}; xme::Tuple<Src, Src, Src> s{a, b, c}; if (k == 0) d = s; else if (k == 1) d = std::as_const(s); else d = std::move(s); int how = k == 2 ? 2 : 1; xs_check(xme::get<0>(d).v == a && xme::get<1>(d).v == b && xme::get<2>(d).v == c, "tuple elements convert"); xs_check(xme::get<0>(d).how == how && xme::get<1>(d).how == how && xme::get<2>(d).how == how, "the category of the source tuple reaches each element"); xs_check(xme::get<0>(s).moved == (k == 2) && xme::get<1>(s).moved == (k == 2) && xme::get<2>(s).moved == (k == 2) && xme::get<0>(s).copied == (k != 2) && xme::get<2>(s).copied == (k != 2), "each element is assigned once"); }
  { xme::Tuple<Dst, Dst> d{}; xme::Pair<Src, Src> s{a, b}; if (k == 0) d = s; else if (k == 1) d = std::as_const(s); else d = std::move(s); int how = k == 2 ? 2 : 1; xs_check(xme::get<0>(d).v == a && xme::get<1>(d).v == b && xme::get<0>(d).how == how && xme::get<1>(d).how == how && s.first.moved == (k == 2) && s.second.moved == (k == 2), "a tuple from a pair"); }
  { xme::Pair<Dst, Dst> d{}; xme::Tuple<Src, Src> s{a, b}; if (k == 0) d = s; else if (k == 1) d = std::as_const(s); else d = std::move(s); int how = k == 2 ? 2 : 1; xs_check(d.first.v == a && d.second.v == b && d.first.how == how && d.second.how == how && xme::get<0>(s).moved == (k == 2) && xme::get<1>(s).moved == (k == 2), "a pair from a tuple"); }
  xs_reach("converted");
}
// elements that compare equal and differ are exchanged and assigned all the same
struct Loose { u32 k, v; bool operator==(const Loose &o) const { return k == o.k; } };
XS_ENTRY(e_equal_but_different) {
  u32 k = xs_u32("k"), a = xs_u32("a"), b = xs_u32("b"), c = xs_u32("c"), d = xs_u32("d"); using T = xme::Tuple<Loose, u32, Loose>; T t{Loose{k, a}, 1u, Loose{k, b}}, u{Loose{k, c}, 2u, Loose{k, d}}; auto is = [](T &x, u32 p, u32 n, u32 q) { return xme::get<0>(x).v == p && xme::get<1>(x) == n && xme::get<2>(x).v == q; };
  t.swap(u); xs_check(is(t, c, 2, d) && is(u, a, 1, b), "member swap"); swap(t, u); xs_check(is(t, a, 1, b) && is(u, c, 2, d), "swap"); T w = t; w = u; xs_check(is(w, c, 2, d), "assignment"); w = std::move(t); xs_check(is(w, a, 1, b), "move assignment");
  xme::Pair<Loose, Loose> p{{k, a}, {k, b}}, q{{k, c}, {k, d}}; p.swap(q); xs_check(p.first.v == c && p.second.v == d && q.first.v == a && q.second.v == b, "pair swap"); p = q; xs_check(p.first.v == a && p.second.v == b, "pair assignment");
  float f = xs_f32("f"), g = xs_f32("g"); xme::Tuple<float, u32> x{f, 1u}, y{g, 1u}; x.swap(y); xs_check(xs_same_f32(xme::get<0>(x), g) && xs_same_f32(xme::get<0>(y), f), "signed zeros and NaNs are exchanged");
}
// access through constant rvalues keeps both the constness and the category
XS_ENTRY(e_const_rvalue) {
  u32 a = xs_u32("a"), b = xs_u32("b"); const xme::Tuple<u32, u32> t{a, b}; const xme::Pair<u32, u32> p{a, b};
  static_assert(std::is_same_v<decltype(xme::get<0>(std::move(t))), const u32 &&> && std::is_same_v<decltype(xme::get<1>(std::move(p))), const u32 &&> && std::is_same_v<decltype(xme::get<1>(t)), const u32 &> && std::is_same_v<decltype(xme::get<0>(p)), const u32 &>); auto &&x = xme::get<1>(std::move(t)); auto &&y = xme::get<0>(std::move(p)); xs_check(&x == &xme::get<1>(t) && x == b && &y == &p.first && y == a, "a constant rvalue names the same element");
  xme::Tuple<u32, u32> m{a, b}; xme::Pair<u32, u32> q{a, b}; static_assert(std::is_same_v<decltype(xme::get<0>(std::move(m))), u32 &&> && std::is_same_v<decltype(xme::get<0>(m)), u32 &> && std::is_same_v<decltype(xme::get<1>(std::move(q))), u32 &&> && std::is_same_v<decltype(xme::get<1>(q)), u32 &>); xs_check(&xme::get<0>(m) != &xme::get<1>(m), "distinct");
  const xme::Tuple<u32 &, const u32 &> r{xme::get<0>(m), b}; static_assert(std::is_same_v<decltype(xme::get<0>(std::move(r))), u32 &> && std::is_same_v<decltype(xme::get<1>(std::move(r))), const u32 &>); xs_check(&xme::get<0>(std::move(r)) == &xme::get<0>(m) && &xme::get<1>(std::move(r)) == &b, "references stay references");
}
// comparisons: an exception of an element comparison reaches the caller, whatever is compared
struct Frail { u32 v; static inline int left = -1, calls = 0; static void tick() { calls++; if (left == 0) { left = -1; throw Thrown{3}; } if (left > 0) left--; } constexpr bool operator==(const Frail &o) const { if (!std::is_constant_evaluated()) tick(); return v == o.v; } constexpr auto operator<=>(const Frail &o) const { if (!std::is_constant_evaluated()) tick(); return v <=> o.v; } };
XS_ENTRY(e_compare_throws) {
  u32 a = xs_u32("a"), b = xs_u32("b"), c = xs_u32("c"), d = xs_u32("d"); int k = xs_choice(0, 5, "operation"), f = xs_choice(-1, 2, "fault"); bool th = false, got = false, want = false; Frail::calls = 0; Frail::left = f; xme::Tuple<Frail, Frail> t{Frail{a}, Frail{b}}, u{Frail{c}, Frail{d}}; xme::Pair<Frail, Frail> p{Frail{a}, Frail{b}}, q{Frail{c}, Frail{d}};
  try { switch (k) { case 0: got = t == u; want = a == c && b == d; break; case 1: got = t < u; want = a < c || (a == c && b < d); break; case 2: got = t >= u; want = !(a < c || (a == c && b < d)); break; case 3: got = p == q; want = a == c && b == d; break; case 4: got = p < q; want = a < c || (a == c && b < d); break; case 5: got = p != q; want = !(a == c && b == d); break; } } catch (const Thrown &) { th = true; } Frail::left = -1;
  xs_check(f < 0 ? !th : f > 0 || th, "an exception of an element comparison reaches the caller"); if (!th) { xs_check(got == want, "comparison"); xs_reach("compared"); } else xs_reach("thrown");
}
template <class T> static void const_elements(T t, u32 x, u32 y) { // constant elements stay constant whichever way they are reached
  using E0 = std::tuple_element_t<0, T>; using E1 = std::tuple_element_t<1, T>; using Q1 = std::tuple_element_t<1, const T>;
  xs_check(std::is_same_v<E0, const u32> && std::is_same_v<E1, u32> && std::is_same_v<Q1, const u32>, "tuple_element names the element type with its constness");
  if constexpr(std::is_same_v<E0, const u32> && std::is_same_v<Q1, const u32>) {
    auto &[a, b] = t; xs_check(&a == &xme::get<0>(t) && &b == &xme::get<1>(t) && a == x && b == y, "bindings name the elements");
    b = x; xs_check(xme::get<1>(t) == x && xme::get<0>(t) == x, "writing through a binding");
    const T &c = t; const auto &[d, e] = c; xs_check(&d == &a && &e == &b, "constant bindings name the elements"); } }
XS_ENTRY(e_const_elements) { u32 x = xs_u32("x"); u32 y = xs_u32("y");
  const_elements(xme::Tuple<const u32, u32>{x, y}, x, y); const_elements(xme::Pair<const u32, u32>{x, y}, x, y); }
// tuples of many elements of alternating types: every element takes part in every operation
template <std::size_t I> struct Alt { using type = u32; }; template <std::size_t I> requires(I % 3 == 1) struct Alt<I> { using type = uint64_t; }; template <std::size_t I> requires(I % 3 == 2) struct Alt<I> { using type = uint8_t; };
template <std::size_t... I> static void many(std::index_sequence<I...>) {
  using T = xme::Tuple<typename Alt<I>::type...>; using S = std::tuple<typename Alt<I>::type...>; constexpr std::size_t N = sizeof...(I); uint64_t v[] = {(xs_u64("value") + 0 * I)...};
  auto is = [](const auto &t, const S &s) { return ((xme::get<I>(t) == std::get<I>(s)) && ...); };
  S s{(typename Alt<I>::type)v[I]...}, z{(typename Alt<I>::type)(I + 1)...}; T t{(typename Alt<I>::type)v[I]...}; static_assert(T::size == N && std::tuple_size_v<T> == N && (std::is_same_v<std::tuple_element_t<I, T>, typename Alt<I>::type> && ...)); xs_check(is(t, s), "elements keep their order and values"); xs_check((((void *)&xme::get<I>(t) == (void *)&t[ix<I>{}]) && ...), "get and operator[] name the same element");
  T u{(typename Alt<I>::type)(I + 1)...}; const T k = u; T c = t; xs_check(is(c, s), "a copy"); c = k; xs_check(is(c, z), "copy assignment"); c = std::move(t); xs_check(is(c, s), "move assignment"); swap(c, u); xs_check(is(c, z) && is(u, s), "swap exchanges every element"); c.swap(u); xs_check(is(c, s) && is(u, z), "swap exchanges every element");
  xme::Tuple<decltype((uint64_t)I)...> w{(uint64_t)(I + 1)...}; w = c; xs_check(is(w, s), "assignment from another tuple type"); w = z; xs_check(is(w, z), "assignment from a standard tuple");
  std::size_t at = xs_choice(0, N - 1, "position"); T d = k; ((I == at ? (void)(xme::get<I>(d) = (typename Alt<I>::type)v[0]) : (void)0), ...); bool same = ((I != at || xme::get<I>(d) == xme::get<I>(k)) && ...), less = ((I == at && xme::get<I>(d) < xme::get<I>(k)) || ...); xs_check(((I == at || xme::get<I>(d) == xme::get<I>(k)) && ...), "writing one element leaves the others"); xs_check((d == k) == same && (d != k) == !same && (d < k) == less && (k < d) == (!same && !less), "every element takes part in comparisons"); xs_reach("many");
}
XS_ENTRY(e_many) { switch (xs_choice(0, 4, "size")) { case 0: many(std::make_index_sequence<5>{}); break; case 1: many(std::make_index_sequence<7>{}); break; case 2: many(std::make_index_sequence<9>{}); break; case 3: many(std::make_index_sequence<13>{}); break; default: many(std::make_index_sequence<17>{}); } }
// elements that only some operations of which may fail: no operation promises more than its elements keep
template <int Which> struct Frailty { // 1: move assignment, 2: own swap, 3: copy assignment, 4: copy construction, 5: move construction
  u32 v; static inline int left = -1; static void tick(bool on) { if (!on) return; if (left == 0) { left = -1; throw Thrown{5}; } if (left > 0) left--; }
  Frailty(u32 x) noexcept : v(x) {} Frailty(const Frailty &o) noexcept(Which != 4) : v(o.v) { tick(Which == 4); } Frailty(Frailty &&o) noexcept(Which != 5) : v(o.v) { tick(Which == 5); }
  Frailty &operator=(const Frailty &o) noexcept(Which != 3) { tick(Which == 3); v = o.v; return *this; } Frailty &operator=(Frailty &&o) noexcept(Which != 1) { tick(Which == 1); v = o.v; return *this; }
  friend void swap(Frailty &x, Frailty &y) noexcept(Which != 2) requires(Which == 2) { tick(true); u32 t = x.v; x.v = y.v; y.v = t; }
};
template <int Which> static void frail_ops() {
  using E = Frailty<Which>; using T = xme::Tuple<E, u32, E>; using P = xme::Pair<E, E>; u32 a = xs_u32("a"), b = xs_u32("b"), c = xs_u32("c"), d = xs_u32("d"); E::left = -1; T t{E(a), 1u, E(b)}, u{E(c), 2u, E(d)}; P p{E(a), E(b)}, q{E(c), E(d)};
  int k = xs_choice(0, 11, "operation"), f = xs_choice(-1, 1, "fault"); bool th = false; E::left = f;
  try { switch (k) { case 0: t.swap(u); break; case 1: swap(t, u); break; case 2: p.swap(q); break; case 3: swap(p, q); break; case 4: t = u; break; case 5: t = std::move(u); break; case 6: p = q; break; case 7: p = std::move(q); break; case 8: { T x(t); xs_check(xme::get<0>(x).v == a && xme::get<2>(x).v == b, "copy"); break; } case 9: { T x(std::move(t)); xs_check(xme::get<0>(x).v == a && xme::get<2>(x).v == b, "move"); break; } case 10: { P x(p); xs_check(x.first.v == a && x.second.v == b, "copy"); break; } default: { P x(std::move(p)); xs_check(x.first.v == a && x.second.v == b, "move"); } } } catch (const Thrown &) { th = true; }
  bool fired = f >= 0 && E::left == -1; E::left = -1; xs_check(th == fired, "an exception of an element operation reaches the caller");
  if (!th) { if (k < 2) xs_check(xme::get<0>(t).v == c && xme::get<1>(t) == 2 && xme::get<2>(t).v == d && xme::get<0>(u).v == a && xme::get<2>(u).v == b, "exchanged"); if (k == 2 || k == 3) xs_check(p.first.v == c && p.second.v == d && q.first.v == a && q.second.v == b, "exchanged"); if (k == 4 || k == 5) xs_check(xme::get<0>(t).v == c && xme::get<2>(t).v == d, "assigned"); if (k == 6 || k == 7) xs_check(p.first.v == c && p.second.v == d, "assigned"); xs_reach("done"); } else xs_reach("thrown");
}
XS_ENTRY(e_frail_ops) { switch (xs_choice(1, 5, "which")) { case 1: frail_ops<1>(); break; case 2: frail_ops<2>(); break; case 3: frail_ops<3>(); break; case 4: frail_ops<4>(); break; default: frail_ops<5>(); } }
// the value category reaches every element of a wide tuple
template <std::size_t, class T> using Same_ = T;
template <std::size_t... I> static void wide_category(std::index_sequence<I...>) {
  u32 v[] = {(xs_u32("value") + 0 * (u32)I)...}; int k = xs_choice(0, 2, "category"); int how = k == 2 ? 2 : 1;
  { xme::Tuple<Same_<I, Dst>...> d{}; xme::Tuple<Same_<I, Src>...> s{v[I]...}; if (k == 0) d = s; else if (k == 1) d = std::as_const(s); else d = std::move(s); ((xs_check(xme::get<I>(d).v == v[I] && xme::get<I>(d).how == how && xme::get<I>(s).moved == (k == 2) && xme::get<I>(s).copied == (k != 2), "the category of the source reaches each element, once")), ...); }
  W.reset(); { using T = xme::Tuple<Same_<I, Trk>...>; T s{v[I]...}; long c0 = W.copies, a0 = W.assigns; if (k == 2) { T d(std::move(s)); xs_check(W.copies == c0, "a move copies nothing"); ((xs_check(xme::get<I>(d).v == v[I] && xme::get<I>(s).v == 0xdead, "every element is moved")), ...); s = std::move(d); xs_check(W.copies == c0 && W.assigns == a0 + (long)sizeof...(I), "every element is assigned once"); ((xs_check(xme::get<I>(s).v == v[I] && xme::get<I>(d).v == 0xdead, "every element is move assigned")), ...); Trk last(xme::get<sizeof...(I) - 1>(std::move(s))); xs_check(last.v == v[sizeof...(I) - 1] && xme::get<0>(s).v == v[0], "only that element is moved"); }
    else { T d(s); xs_check(W.copies == c0 + (long)sizeof...(I), "a copy copies each element once"); ((xs_check(xme::get<I>(d).v == v[I] && xme::get<I>(s).v == v[I], "the source is kept")), ...); } } xs_check(W.live == 0, "every element destroyed once"); xs_reach("wide");
}
XS_ENTRY(e_wide_category) { switch (xs_choice(0, 3, "size")) { case 0: wide_category(std::make_index_sequence<4>{}); break; case 1: wide_category(std::make_index_sequence<6>{}); break; case 2: wide_category(std::make_index_sequence<9>{}); break; default: wide_category(std::make_index_sequence<17>{}); } }
// elements that do not always equal themselves
XS_ENTRY(e_floats) {
  double a = xs_f64("a"), b = xs_f64("b"); float c = xs_f32("c"), d = xs_f32("d"); u32 i = xs_u32("i"); auto same2 = [](auto x1, auto y1, auto x2, auto y2) { return x1 < y1 ? -1 : y1 < x1 ? 1 : x1 != y1 ? 2 : x2 < y2 ? -1 : y2 < x2 ? 1 : x2 != y2 ? 2 : 0; };
  auto judge = [](const auto &x, const auto &y, bool eq, int o) { xs_check((x == y) == eq && (x != y) == !eq, "equal exactly when every element is equal"); xs_check((x < y) == (o == -1) && (x > y) == (o == 1) && (x <= y) == (o == -1 || o == 0) && (x >= y) == (o == 1 || o == 0), "ordered by the first elements that differ"); };
  switch (xs_choice(0, 4, "kind")) {
  case 0: { xme::Tuple<double, float> x{a, c}, y{b, d}; judge(x, y, a == b && c == d, same2(a, b, c, d)); xs_reach("tuples"); break; }
  case 1: { xme::Pair<double, float> x{a, c}, y{b, d}; judge(x, y, a == b && c == d, same2(a, b, c, d)); xs_reach("pairs"); break; }
  case 2: { xme::Tuple<u32, double> x{i, a}; judge(x, x, a == a, same2(i, i, a, a)); xs_reach("itself"); break; }
  case 3: { xme::Pair<float, u32> x{c, i}; judge(x, x, c == c, same2(c, c, i, i)); break; }
  case 4: { xme::Tuple<u32, float, double> x{i, c, a}, y{i, d, b}; judge(x, y, c == d && a == b, same2(c, d, a, b)); break; } }
}
