// @configs none, this23
// @bounds up to ten concatenated tuples of total size 0..12, three of up to 17 elements, mixed lvalue, const and rvalue arguments, pairs and standard tuples, tuples nested in tuples; symbolic values
#include "track.hpp"
#include <array>
#include <memory>
#include <tuple>
#include <xme/container/pair.hpp>
#include <xme/container/tuple.hpp>
using namespace hx;
static u32 f() { return xs_u32("value"); }
XS_ENTRY(e_cat) {
  u32 a = f(), b = f(), c = f(), d = f(), e = f(), g = f();
  xme::Tuple<u32, uint8_t> x{a, (uint8_t)b}; const xme::Tuple<u32> y{c}; xme::Tuple<u32, u32, uint64_t> z{d, e, g};
  auto r = xme::tuple_cat(x, y, z); static_assert(std::is_same_v<decltype(r), xme::Tuple<u32, uint8_t, u32, u32, u32, uint64_t>>);
  xs_check(xme::get<0>(r) == a && xme::get<1>(r) == (uint8_t)b && xme::get<2>(r) == c && xme::get<3>(r) == d && xme::get<4>(r) == e && xme::get<5>(r) == g, "concatenation keeps order and values");
  xs_check(xme::get<0>(x) == a && xme::get<0>(z) == d, "arguments are kept");
  auto q = xme::tuple_cat(y, x); static_assert(std::is_same_v<decltype(q), xme::Tuple<u32, u32, uint8_t>>); xs_check(xme::get<0>(q) == c && xme::get<1>(q) == a && xme::get<2>(q) == (uint8_t)b, "order of the arguments");
  auto p = xme::tuple_cat(xme::Pair<u32, u32>{a, b}, xme::Tuple<u32>{c}); xs_check(xme::get<0>(p) == a && xme::get<1>(p) == b && xme::get<2>(p) == c, "pairs concatenate");
  auto one = xme::tuple_cat(x); static_assert(std::is_same_v<decltype(one), xme::Tuple<u32, uint8_t>>); xs_check(xme::get<0>(one) == a && xme::get<1>(one) == (uint8_t)b, "one argument");
  auto rv = xme::tuple_cat(xme::Tuple<u32, u32>{a, b}, xme::Tuple<u32, u32>{c, d}); xs_check(xme::get<0>(rv) == a && xme::get<1>(rv) == b && xme::get<2>(rv) == c && xme::get<3>(rv) == d, "rvalue arguments");
  xme::Tuple<u32 &> ref{a}; auto rr = xme::tuple_cat(ref, xme::Tuple<u32>{b}); static_assert(std::is_same_v<decltype(rr), xme::Tuple<u32 &, u32>>); xs_check(&xme::get<0>(rr) == &a && xme::get<1>(rr) == b, "reference elements stay references");
}
XS_ENTRY(e_cat_life) {
  W.reset();
  { u32 a = f(), b = f(), c = f(); xme::Tuple<Trk, Trk> x{Trk(a), Trk(b)}; xme::Tuple<Trk> y{Trk(c)};
    auto r = xme::tuple_cat(x, y); xs_check(xme::get<0>(r).v == a && xme::get<1>(r).v == b && xme::get<2>(r).v == c, "values"); xs_check(xme::get<0>(x).v == a && xme::get<1>(x).v == b && xme::get<0>(y).v == c && W.live == 6, "lvalue arguments are copied");
    long c0 = W.copies; auto m = xme::tuple_cat(std::move(x), std::move(y)); xs_check(W.copies == c0 && xme::get<0>(m).v == a && xme::get<2>(m).v == c && xme::get<1>(x).v == 0xdead && xme::get<0>(y).v == 0xdead, "rvalue arguments are moved");
    auto k = xme::tuple_cat(std::move(r), m); xs_check(xme::get<0>(k).v == a && xme::get<5>(k).v == c && xme::get<0>(m).v == a && xme::get<0>(r).v == 0xdead, "mixed arguments"); }
  xs_check(W.live == 0 && W.ctors == W.dtors, "every element destroyed once");
}
XS_ENTRY(e_apply) {
  u32 a = f(), b = f(), c = f(); xme::Tuple<u32, u32, u32> t{a, b, c}; const auto &ct = t; int calls = 0;
  u32 r = xme::apply([&](u32 x, u32 y, u32 z) { calls++; return x * 3 + y * 5 + z * 7; }, t); xs_check(r == a * 3 + b * 5 + c * 7 && calls == 1, "apply passes the elements in order, once");
  r = xme::apply([](const u32 &x, const u32 &y, const u32 &z) { return x - y - z; }, ct); xs_check(r == a - b - c, "apply on a const tuple");
  xme::apply([](u32 &x, u32 &, u32 &z) { x = 1; z = 2; }, t); xs_check(xme::get<0>(t) == 1 && xme::get<1>(t) == b && xme::get<2>(t) == 2, "apply passes references");
  auto &&ref = xme::apply([](u32 &, u32 &y, u32 &) -> u32 & { return y; }, t); xs_check(&ref == &xme::get<1>(t), "apply returns what the function returns");
  xs_check(xme::apply([](u32 x, u32 y) { return x - 2 * y; }, xme::Pair<u32, u32>{a, b}) == a - 2 * b, "apply on a pair");
  W.reset(); { xme::Tuple<Trk, Trk> q{Trk(a), Trk(b)}; long c0 = W.copies; Trk got = xme::apply([](Trk &&x, Trk &&y) { Trk t(std::move(y)); x.v++; return t; }, std::move(q)); xs_check(W.copies == c0 && got.v == b && xme::get<0>(q).v == a + 1, "apply on an rvalue passes rvalues"); } xs_check(W.live == 0, "destroyed");
}
XS_ENTRY(e_std_elements) {
  u32 a = f(), b = f(), c = f(); using A = std::array<u32, 2>;
  xme::Tuple<A, u32> x{A{a, b}, c}; const xme::Tuple<A> y{A{c, a}};
  auto r = xme::tuple_cat(x, y, xme::Pair<u32, A>{b, A{b, c}}); static_assert(std::is_same_v<decltype(r), xme::Tuple<A, u32, A, u32, A>>);
  xs_check(xme::get<0>(r) == A{a, b} && xme::get<1>(r) == c && xme::get<2>(r) == A{c, a} && xme::get<3>(r) == b && xme::get<4>(r) == A{b, c}, "elements of standard library types concatenate");
  u32 n = xme::apply([](const A &p, u32 q) { return p[0] + 3 * p[1] + 5 * q; }, x); xs_check(n == a + 3 * b + 5 * c, "apply with elements of standard library types");
  auto t = xme::make_tuple(A{a, b}, std::ref(n)); static_assert(std::is_same_v<decltype(t), xme::Tuple<A, u32 &>>); xs_check(xme::get<0>(t) == A{a, b} && &xme::get<1>(t) == &n, "make_tuple with standard library types");
  A z; u32 k; xme::tie(z, k) = x; xs_check(z == A{a, b} && k == c, "tie assigns from a tuple");
  xme::Tuple<A, u32> x2{A{c, c}, a}; swap(x, x2); xs_check(xme::get<0>(x) == A{c, c} && xme::get<0>(x2) == A{a, b} && xme::get<1>(x2) == c, "swap");
}
struct Agg { u32 x; u32 y; };
XS_ENTRY(e_make) {
  u32 a = f(), b = f(); uint64_t w = xs_u64("w"); auto t = xme::make_tuple(a, w, (uint8_t)b); static_assert(std::is_same_v<decltype(t), xme::Tuple<u32, uint64_t, uint8_t>>); xs_check(xme::get<0>(t) == a && xme::get<1>(t) == w && xme::get<2>(t) == (uint8_t)b, "make_tuple");
  auto r = xme::make_tuple(std::ref(a), b); static_assert(std::is_same_v<decltype(r), xme::Tuple<u32 &, u32>>); xs_check(&xme::get<0>(r) == &a && xme::get<1>(r) == b, "make_tuple unwraps reference wrappers");
  u32 c = a, d = b; auto tie = xme::tie(c, d); xs_check(&xme::get<0>(tie) == &c && &xme::get<1>(tie) == &d, "tie refers to its arguments"); tie = xme::Tuple<u32, u32>{b, a}; xs_check(c == b && d == a, "assignment to a tie stores in the arguments"); tie = xme::make_tuple(1u, 2u); xs_check(c == 1 && d == 2, "assignment of an rvalue");
  auto fw = xme::forward_as_tuple(c, std::as_const(d)); static_assert(std::is_same_v<decltype(fw), xme::Tuple<u32 &, const u32 &>>); xs_check(&xme::get<0>(fw) == &c && &xme::get<1>(fw) == &d, "forward_as_tuple keeps lvalue references");
  xme::Tuple g{a, w}; static_assert(std::is_same_v<decltype(g), xme::Tuple<u32, uint64_t>>); xs_check(xme::get<0>(g) == a && xme::get<1>(g) == w, "deduction");
  xme::Tuple<u32, u32> p{a, b}; Agg ag = p; xs_check(ag.x == a && ag.y == b, "conversion to an aggregate"); xme::Pair<u32, u32> pr = p; xs_check(pr.first == a && pr.second == b, "conversion to a pair"); std::array<u32, 2> arr = p; xs_check(arr[0] == a && arr[1] == b, "conversion to an array");
  int calls = xme::apply([](auto &&...xs) { return (int)sizeof...(xs); }, xme::Tuple<u32, u32, u32>{a, b, b}); xs_check(calls == 3, "arity");
}
XS_ENTRY(e_make_life) {
  W.reset(); { u32 a = f(), b = f(); Trk x(b); const Trk y(a); long c0 = W.copies, m0 = W.moves; auto t = xme::make_tuple(Trk(a), x, std::move(x), y, 3); static_assert(std::is_same_v<decltype(t), xme::Tuple<Trk, Trk, Trk, Trk, int>>);
    xs_check(W.copies - c0 == 2 && W.moves > m0, "rvalues are moved and lvalues copied"); xs_check(xme::get<0>(t).v == a && xme::get<2>(t).v == b && xme::get<3>(t).v == a && y.v == a && x.v == 0xdeadu && xme::get<4>(t) == 3, "make_tuple holds its arguments"); }
  xs_check(W.live == 0 && W.ctors == W.dtors, "every element destroyed once");
  W.reset(); { u32 a = f(), b = f(); Trk x(a), z(b); const Trk y(b); auto t = xme::forward_as_tuple(std::move(x), y, z); static_assert(std::is_same_v<decltype(t), xme::Tuple<Trk &&, const Trk &, Trk &>>); xs_check(W.copies + W.moves == 0 && &xme::get<0>(t) == &x && &xme::get<1>(t) == &y && &xme::get<2>(t) == &z, "forward_as_tuple refers to its arguments"); Trk got(xme::get<0>(std::move(t))); xs_check(W.moves == 1 && W.copies == 0 && got.v == a && x.v == 0xdeadu, "an rvalue reference element moves from its referent"); }
  xs_check(W.live == 0 && W.ctors == W.dtors, "every element destroyed once");
  { auto p = xme::make_tuple(std::unique_ptr<int>(), 1); static_assert(std::is_same_v<decltype(p), xme::Tuple<std::unique_ptr<int>, int>>); xs_check(!xme::get<0>(p), "make_tuple takes move-only values"); const char s[] = "ab"; auto d = xme::make_tuple(s, +s); static_assert(std::is_same_v<decltype(d), xme::Tuple<const char *, const char *>>); xs_check(xme::get<0>(d) == s && xme::get<1>(d) == s, "arrays decay"); }
}
// the function is called with its own category, and its exceptions reach the caller
struct ByCat { int operator()(u32, u32) & { return 1; } int operator()(u32, u32) const & { return 2; } int operator()(u32, u32) && { return 3; } };
XS_ENTRY(e_apply_function) {
  ByCat f; const ByCat cf; u32 a = ::f(), b = ::f(); xme::Tuple<u32, u32> t{a, b}; xs_check(xme::apply(f, t) == 1 && xme::apply(cf, t) == 2 && xme::apply(std::move(f), t) == 3 && xme::apply(ByCat{}, t) == 3, "the function is called with its category");
  W.reset(); { MoveOnly m(7); auto g = [k = std::move(m)](u32 x, u32 y) { return k.v + x - y; }; xs_check(xme::apply(g, t) == 7 + a - b && xme::apply(std::move(g), t) == 7 + a - b, "a move-only function is called in place"); } xs_check(W.live == 0, "destroyed");
  bool th = false; try { xme::apply([](u32 x, u32) { if (x != 5) throw Thrown{1}; }, t); } catch (const Thrown &) { th = true; } xs_check(th == (a != 5), "an exception of the function reaches the caller");
  const xme::Tuple<u32, u32> ct{a, b}; int got = xme::apply([](auto &&x, auto &&y) { return (std::is_same_v<decltype(x), const u32 &&> && std::is_same_v<decltype(y), const u32 &&>) ? 1 : 0; }, std::move(ct)); xs_check(got == 1, "the elements of a constant rvalue are constant rvalues"); got = xme::apply([](auto &&x, auto &&) { return std::is_same_v<decltype(x), const u32 &> ? 1 : 0; }, ct); xs_check(got == 1, "the elements of a constant lvalue are constant lvalues");
}
// many arguments, with empty ones at every place, of every tuple-like kind
template <std::size_t N, class T> static void is_at(const T &t, u32 v) { xs_check(xme::get<N>(t) == v, "every element at its place"); }
XS_ENTRY(e_cat_many) {
  u32 a = f(), b = f(), c = f(), d = f(), e = f(), g = f(), h = f(), i = f(); xme::Tuple<> o; using T1 = xme::Tuple<u32>;
  auto t4 = xme::tuple_cat(T1{a}, T1{b}, T1{c}, T1{d}); static_assert(std::is_same_v<decltype(t4), xme::Tuple<u32, u32, u32, u32>>); is_at<0>(t4, a); is_at<1>(t4, b); is_at<2>(t4, c); is_at<3>(t4, d);
  auto t8 = xme::tuple_cat(o, T1{a}, o, xme::Tuple<u32, u32>{b, c}, T1{d}, o, o, xme::Tuple<u32, u32, u32>{e, g, h}, T1{i}, o); static_assert(std::tuple_size_v<decltype(t8)> == 8);
  is_at<0>(t8, a); is_at<1>(t8, b); is_at<2>(t8, c); is_at<3>(t8, d); is_at<4>(t8, e); is_at<5>(t8, g); is_at<6>(t8, h); is_at<7>(t8, i);
  const xme::Pair<u32, u32> p{e, g}; auto t5 = xme::tuple_cat(p, t4, xme::Pair<u32, uint64_t>{h, uint64_t(i) << 8}, o, std::as_const(t4)); static_assert(std::tuple_size_v<decltype(t5)> == 12);
  is_at<0>(t5, e); is_at<1>(t5, g); is_at<2>(t5, a); is_at<5>(t5, d); is_at<6>(t5, h); xs_check(xme::get<7>(t5) == uint64_t(i) << 8, "wide element"); is_at<8>(t5, a); is_at<11>(t5, d);
  auto e0 = xme::tuple_cat(o); static_assert(std::is_same_v<decltype(e0), xme::Tuple<>>); auto e3 = xme::tuple_cat(o, o, o); static_assert(std::is_same_v<decltype(e3), xme::Tuple<>>); xs_check(e0 == e3, "nothing");
  auto s = xme::tuple_cat(std::tuple<u32, u32>{a, b}, T1{c}, std::pair<u32, u32>{d, e}, std::array<u32, 2>{g, h}); static_assert(std::tuple_size_v<decltype(s)> == 7);
  is_at<0>(s, a); is_at<1>(s, b); is_at<2>(s, c); is_at<3>(s, d); is_at<4>(s, e); is_at<5>(s, g); is_at<6>(s, h);
  W.reset(); { auto m = xme::tuple_cat(xme::Tuple<MoveOnly>{MoveOnly(a)}, o, xme::Tuple<u32, MoveOnly>{b, MoveOnly(c)}, xme::Pair<MoveOnly, u32>{MoveOnly(d), e}, xme::Tuple<MoveOnly>{MoveOnly(g)}); xs_check(xme::get<0>(m).v == a && xme::get<1>(m) == b && xme::get<2>(m).v == c && xme::get<3>(m).v == d && xme::get<4>(m) == e && xme::get<5>(m).v == g, "move-only elements"); } xs_check(W.live == 0, "destroyed");
  u32 sum = xme::apply([](auto... x) { u32 r = 0; ((r = r * 3 + (u32)x), ...); return r; }, t8); xs_check(sum == ((((((a * 3 + b) * 3 + c) * 3 + d) * 3 + e) * 3 + g) * 3 + h) * 3 + i, "apply passes eight elements in order");
  auto fw = xme::tuple_cat(xme::forward_as_tuple(a), xme::tie(b, c), xme::Tuple<const u32 &>{d}); static_assert(std::is_same_v<decltype(fw), xme::Tuple<u32 &, u32 &, u32 &, const u32 &>>); xs_check(&xme::get<0>(fw) == &a && &xme::get<1>(fw) == &b && &xme::get<2>(fw) == &c && &xme::get<3>(fw) == &d, "references refer to the same objects");
}
// tuples of tuples: an inner tuple is one element wherever it stands
XS_ENTRY(e_nested) {
  u32 a = f(), b = f(), c = f(), d = f(); using T2 = xme::Tuple<u32, u32>; auto in = xme::make_tuple(a, b); static_assert(std::is_same_v<decltype(in), T2>);
  auto x = xme::make_tuple(in, c); static_assert(std::is_same_v<decltype(x), xme::Tuple<T2, u32>>); xs_check(xme::get<0>(xme::get<0>(x)) == a && xme::get<1>(xme::get<0>(x)) == b && xme::get<1>(x) == c, "first"); auto y = xme::make_tuple(c, in); xs_check(xme::get<0>(y) == c && xme::get<0>(xme::get<1>(y)) == a && xme::get<1>(xme::get<1>(y)) == b, "last");
  auto s = xme::make_tuple(in); static_assert(std::is_same_v<decltype(s), xme::Tuple<T2>>); xs_check(xme::get<1>(xme::get<0>(s)) == b, "only"); auto n = xme::make_tuple(s, xme::make_tuple(d)); xs_check(xme::get<1>(xme::get<0>(xme::get<0>(n))) == b && xme::get<0>(xme::get<1>(n)) == d, "three levels");
  auto k = xme::tuple_cat(x, xme::make_tuple(xme::make_tuple(d, c)), y); static_assert(std::is_same_v<decltype(k), xme::Tuple<T2, u32, T2, u32, T2>>); xs_check(xme::get<0>(k) == in && xme::get<1>(k) == c && xme::get<2>(k) == (T2{d, c}) && xme::get<3>(k) == c && xme::get<4>(k) == in, "concatenated"); auto k1 = xme::tuple_cat(s, s); xs_check(xme::get<0>(k1) == in && xme::get<1>(k1) == in, "concatenated");
  xs_check(xme::apply([](const T2 &p, u32 q) { return xme::get<0>(p) * 3 + xme::get<1>(p) * 5 + q * 7; }, x) == a * 3 + b * 5 + c * 7, "applied"); auto fw = xme::forward_as_tuple(in, c); xs_check(&xme::get<0>(fw) == &in && &xme::get<1>(fw) == &c, "forwarded"); T2 out; u32 o; xme::tie(out, o) = x; xs_check(out == in && o == c, "tied"); auto p = xme::make_pair(in, s); xs_check(p.first == in && p.second == s, "in a pair"); auto z = xme::make_tuple(xme::make_pair(a, in), std::ref(in)); xs_check(xme::get<0>(z).first == a && xme::get<0>(z).second == in && &xme::get<1>(z) == &in, "a pair of a tuple");
  W.reset(); { auto m = xme::make_tuple(xme::make_tuple(MoveOnly(a), b), MoveOnly(c)); xs_check(xme::get<0>(xme::get<0>(m)).v == a && xme::get<1>(m).v == c, "move-only elements"); auto v = xme::tuple_cat(std::move(m), xme::make_tuple(xme::make_tuple(MoveOnly(d)))); xs_check(xme::get<0>(xme::get<0>(v)).v == a && xme::get<1>(v).v == c && xme::get<0>(xme::get<2>(v)).v == d, "moved on"); } xs_check(W.live == 0, "destroyed");
  W.reset(); { xme::Tuple<Trk> one{Trk(a)}; long c0 = W.copies; auto m = xme::make_tuple(std::move(one), b); xs_check(W.copies == c0 && xme::get<0>(xme::get<0>(m)).v == a && xme::get<0>(one).v == 0xdead, "an rvalue inner tuple is moved"); auto q = xme::make_tuple(xme::get<0>(m)); xs_check(W.copies == c0 + 1 && xme::get<0>(xme::get<0>(q)).v == a && xme::get<0>(xme::get<0>(m)).v == a, "an lvalue one is copied once"); } xs_check(W.live == 0, "destroyed");
}
// tuples of many elements
template <std::size_t... I, std::size_t... J> static void many(std::index_sequence<I...>, std::index_sequence<J...>) {
  constexpr std::size_t N = sizeof...(I), M = sizeof...(J); u32 v[] = {(f() + 0 * (u32)I)...}, w[] = {(f() + 0 * (u32)J)...}; auto t = xme::make_tuple(v[I]...); const auto u = xme::make_tuple((uint64_t)w[J]...); static_assert(std::tuple_size_v<decltype(t)> == N); xs_check(((xme::get<I>(t) == v[I]) && ...), "make_tuple keeps order and values");
  auto poly = [](const auto &...a) { u32 r = 1; ((r = r * 31 + (u32)a), ...); return r; }; u32 want = poly(v[I]...); xs_check(xme::apply(poly, t) == want && xme::apply(poly, std::move(t)) == want && xme::apply(poly, u) == poly(w[J]...), "apply passes every element in order");
  auto r = xme::tuple_cat(t, u, t); static_assert(std::tuple_size_v<decltype(r)> == 2 * N + M); xs_check(((xme::get<I>(r) == v[I] && xme::get<N + M + I>(r) == v[I]) && ...) && ((xme::get<N + J>(r) == w[J]) && ...), "concatenation keeps order and values"); auto r2 = xme::tuple_cat(u, std::move(t)); xs_check(((xme::get<M + I>(r2) == v[I]) && ...) && ((xme::get<J>(r2) == w[J]) && ...), "concatenation keeps order and values");
  auto fw = xme::forward_as_tuple(v[I]...); xs_check(((&xme::get<I>(fw) == &v[I]) && ...), "forward_as_tuple names every argument"); u32 x[] = {(0 * (u32)I)...}; xme::tie(x[I]...) = t; xs_check(((x[I] == v[I]) && ...), "tie assigns every element"); xs_reach("many");
}
template <std::size_t N, std::size_t M> static void manyn() { many(std::make_index_sequence<N>{}, std::make_index_sequence<M>{}); }
XS_ENTRY(e_many) { switch (xs_choice(0, 4, "sizes")) { case 0: manyn<5, 5>(); break; case 1: manyn<7, 1>(); break; case 2: manyn<9, 4>(); break; case 3: manyn<13, 2>(); break; default: manyn<17, 9>(); } }
// the value category reaches every element of wide tuples
template <std::size_t, class T> using Same_ = T;
template <class R, class... A> constexpr int cat_code() { return ((std::is_same_v<A, R> ? 1 : 0) + ... + 0); }
template <std::size_t... I> static void wide(std::index_sequence<I...>) {
  constexpr std::size_t N = sizeof...(I); u32 v[] = {(f() + 0 * (u32)I)...}; using U = xme::Tuple<Same_<I, u32>...>; U u{v[I]...}; const U &c = u;
  auto lref = [](auto &&...x) { return cat_code<u32 &, decltype(x)...>(); }; auto rref = [](auto &&...x) { return cat_code<u32 &&, decltype(x)...>(); }; auto cref = [](auto &&...x) { return cat_code<const u32 &, decltype(x)...>(); }; auto crref = [](auto &&...x) { return cat_code<const u32 &&, decltype(x)...>(); };
  xs_check(xme::apply(lref, u) == (int)N && xme::apply(cref, c) == (int)N && xme::apply(rref, std::move(u)) == (int)N && xme::apply(crref, std::move(c)) == (int)N, "every element is passed with the category of the tuple"); xs_check(xme::apply([&](auto &...x) { return ((&x == &xme::get<I>(u)) && ...); }, u), "every element itself is passed");
  W.reset(); { using T = xme::Tuple<Same_<I, Trk>...>; T t{v[I]...}; long c0 = W.copies; T got = xme::apply([](auto &&...x) { return T{std::forward<decltype(x)>(x)...}; }, std::move(t)); xs_check(W.copies == c0, "an applied rvalue is not copied"); ((xs_check(xme::get<I>(got).v == v[I] && xme::get<I>(t).v == 0xdead, "every element is moved out")), ...);
    auto cat = xme::tuple_cat(std::move(got), xme::Tuple<Trk>{Trk(v[0])}); xs_check(W.copies == c0, "rvalue arguments are not copied"); ((xs_check(xme::get<I>(cat).v == v[I] && xme::get<I>(got).v == 0xdead, "every element is moved on")), ...); xs_check(xme::get<N>(cat).v == v[0], "last"); auto both = xme::tuple_cat(std::as_const(cat), xme::Tuple<u32>{v[0]}, cat); xs_check(W.copies == c0 + 2 * (long)(N + 1), "lvalue arguments are copied once"); ((xs_check(xme::get<I>(both).v == v[I] && xme::get<N + 2 + I>(both).v == v[I] && xme::get<I>(cat).v == v[I], "the source is kept")), ...); } xs_check(W.live == 0, "every element destroyed once");
  W.reset(); { auto m = xme::make_tuple(MoveOnly(v[I])...); auto n = xme::tuple_cat(xme::make_tuple(v[0]), std::move(m)); ((xs_check(xme::get<I + 1>(n).v == v[I], "move-only elements")), ...); auto fw = xme::forward_as_tuple(std::move(xme::get<I + 1>(n))...); static_assert(std::is_same_v<decltype(fw), xme::Tuple<Same_<I, MoveOnly &&>...>>); auto k = xme::apply([](auto &&...x) { return xme::make_tuple(std::forward<decltype(x)>(x)...); }, std::move(fw)); ((xs_check(xme::get<I>(k).v == v[I] && xme::get<I + 1>(n).v == 0xdead, "rvalue references move from their referents")), ...); } xs_check(W.live == 0, "every element destroyed once"); xs_reach("wide");
}
XS_ENTRY(e_wide) { switch (xs_choice(0, 3, "size")) { case 0: wide(std::make_index_sequence<4>{}); break; case 1: wide(std::make_index_sequence<6>{}); break; case 2: wide(std::make_index_sequence<9>{}); break; default: wide(std::make_index_sequence<17>{}); } }
// an element that cannot be stored: its exception reaches the caller and what was stored before it is destroyed
XS_ENTRY(e_make_fault) {
  W.reset(); { u32 a = f(), b = f(); Trk x(a), y(b); const Trk z(a); using T = xme::Tuple<Trk, Trk>; T t{Trk(a), Trk(b)}; const T &ct = t; xme::Tuple<u32, Trk> s{b, Trk(a)}; long live = W.live; int k = xs_choice(0, 7, "operation"), n = xs_choice(-1, 2, "fault"), copies = 0; bool th = false; W.ops = 0; W.throw_at = n;
    try { switch (k) {
      case 0: { copies = 1; auto r = xme::make_tuple(x); W.throw_at = -1; xs_check(xme::get<0>(r).v == a, "value"); break; }
      case 1: { copies = 3; auto r = xme::make_tuple(x, z, y); W.throw_at = -1; xs_check(xme::get<2>(r).v == b, "value"); break; }
      case 2: { copies = 1; auto r = xme::make_tuple(a, z, b); W.throw_at = -1; xs_check(xme::get<1>(r).v == a, "value"); break; }
      case 3: { copies = 2; auto r = xme::make_pair(x, z); W.throw_at = -1; xs_check(r.second.v == a, "value"); break; }
      case 4: { copies = 3; auto r = xme::tuple_cat(t, s); W.throw_at = -1; xs_check(xme::get<1>(r).v == b && xme::get<3>(r).v == a, "value"); break; }
      case 5: { copies = 2; auto r = xme::tuple_cat(ct); W.throw_at = -1; xs_check(xme::get<1>(r).v == b, "value"); break; }
      case 6: { copies = 1; auto r = xme::make_pair(b, x); W.throw_at = -1; xs_check(r.second.v == a, "value"); break; }
      default: { copies = 2; u32 r = xme::apply([](Trk p, Trk q) { return p.v - q.v; }, ct); W.throw_at = -1; xs_check(r == a - b, "value"); break; }
      } } catch (const Thrown &) { th = true; }
    W.throw_at = -1; xs_check(n < copies || !th, "no copy more than the arguments given"); if (n >= 0 && n < copies) xs_check(th, "a copy that fails reaches the caller"); xs_check(W.live == live && x.v == a && y.v == b && z.v == a && xme::get<0>(t).v == a && xme::get<1>(t).v == b && xme::get<1>(s).v == a, "nothing is left behind and the arguments are kept"); if (th) xs_reach("thrown"); else xs_reach("made"); }
  xs_check(W.live == 0 && W.ctors == W.dtors, "every element destroyed once");
}
