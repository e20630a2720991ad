// @configs this23
// @bounds 0..3 bound and 0..3 call arguments, up to 17 bound and 9 call arguments, functions, member functions, members and functors as template argument; lvalue, const and rvalue binders; symbolic values; one throwing copy
// @assume compiled by clang 18 as C++23 with the feature-test macro of explicit object parameters given by hand: clang 18 implements them and does not announce it
#include "track.hpp"
#include <functional>
#include <xme/core/functional/bind.hpp>
using namespace hx;
static u32 mix1(u32 a) { return a * 7; } static u32 mix2(u32 a, u32 b) { return a * 3 + b * 5; } static u32 mix3(u32 a, u32 b, u32 c) { return a * 3 + b * 5 + c * 7; } static u32 mix4(u32 a, u32 b, u32 c, u32 d) { return a * 3 + b * 5 + c * 7 + d * 11; }
static u32 nil() { return 42; }
static u32 f() { return xs_u32("value"); }
XS_ENTRY(e_front) {
  u32 a = f(), b = f(), c = f(), d = f(); xs_check(xme::bindFront<nil>()() == 42, "no arguments"); xs_check(xme::bindFront<mix1>()(a) == mix1(a) && xme::bindFront<mix1>(a)() == mix1(a), "one argument");
  xs_check(xme::bindFront<mix3>()(a, b, c) == mix3(a, b, c) && xme::bindFront<mix3>(a)(b, c) == mix3(a, b, c) && xme::bindFront<mix3>(a, b)(c) == mix3(a, b, c) && xme::bindFront<mix3>(a, b, c)() == mix3(a, b, c), "bound arguments come first, in order");
  xs_check(xme::bindFront<mix4>(a, b)(c, d) == mix4(a, b, c, d) && xme::bindFront<mix4>(a)(b, c, d) == mix4(a, b, c, d), "four arguments"); auto g = xme::bindFront<mix2>(a); u32 a0 = a; a = 1; xs_check(g(b) == mix2(a0, b) && g(c) == mix2(a0, c), "arguments are stored by value"); auto r = xme::bindFront<mix2>(std::ref(a)); xs_check(r(b) == mix2(1, b), "reference wrappers are passed on"); a = c; xs_check(r(b) == mix2(c, b), "reference wrappers refer");
}
XS_ENTRY(e_back) {
  u32 a = f(), b = f(), c = f(), d = f(); xs_check(xme::bindBack<nil>()() == 42, "no arguments"); xs_check(xme::bindBack<mix1>()(a) == mix1(a) && xme::bindBack<mix1>(a)() == mix1(a), "one argument");
  xs_check(xme::bindBack<mix3>()(a, b, c) == mix3(a, b, c) && xme::bindBack<mix3>(c)(a, b) == mix3(a, b, c) && xme::bindBack<mix3>(b, c)(a) == mix3(a, b, c) && xme::bindBack<mix3>(a, b, c)() == mix3(a, b, c), "bound arguments come last, in order");
  xs_check(xme::bindBack<mix4>(c, d)(a, b) == mix4(a, b, c, d) && xme::bindBack<mix4>(d)(a, b, c) == mix4(a, b, c, d), "four arguments"); auto g = xme::bindBack<mix2>(b); u32 b0 = b; b = 1; xs_check(g(a) == mix2(a, b0) && g(c) == mix2(c, b0), "arguments are stored by value");
}
struct Cat { int operator()(u32 &) const { return 1; } int operator()(const u32 &) const { return 2; } int operator()(u32 &&) const { return 3; } int operator()(const u32 &&) const { return 4; } };
XS_ENTRY(e_category) {
  u32 a = 1; auto g = xme::bindFront<Cat{}>(a); const auto cg = g; xs_check(g() == 1 && cg() == 2 && std::move(g)() == 3 && (std::move(cg)() & ~4) % 2 == 0, "the bound argument has the value category of the binder"); auto h = xme::bindBack<Cat{}>(a); const auto ch = h; xs_check(h() == 1 && ch() == 2 && std::move(h)() == 3, "the bound argument has the value category of the binder");
  auto n = xme::bindFront<Cat{}>(); u32 x = 1; const u32 y = 1; xs_check(n(x) == 1 && n(y) == 2 && n(std::move(x)) == 3 && n(std::move(y)) == 4, "call arguments keep their category"); auto m = xme::bindBack<Cat{}>(); xs_check(m(x) == 1 && m(y) == 2 && m(std::move(x)) == 3 && m(std::move(y)) == 4, "call arguments keep their category");
}
struct S { u32 k; u32 add(u32 x) const { return k + x; } u32 sub(u32 x, u32 y) { k -= x; return k * y; } };
XS_ENTRY(e_members) {
  u32 k = f(), x = f(), y = f(); S s{k}; xs_check(xme::bindFront<&S::add>(&s)(x) == k + x && xme::bindBack<&S::add>(x)(s) == k + x && xme::bindFront<&S::add>(s, x)() == k + x, "member functions"); xs_check(xme::bindFront<&S::k>(s)() == k && &xme::bindFront<&S::k>(&s)() == &s.k, "data members"); auto g = xme::bindFront<&S::sub>(&s); xs_check(g(x, y) == (k - x) * y && s.k == k - x, "the object named is changed"); auto h = xme::bindBack<&S::sub>(y); xs_check(h(s, x) == (k - x - x) * y, "the object named is changed");
  auto &r = xme::bindFront<[](u32 &v) -> u32 & { return v; }>(std::ref(x))(); xs_check(&r == &x, "references are returned as such");
}
XS_ENTRY(e_lifetime) {
  W.reset(); bool th = false;
  { Trk t(f()); u32 v = t.v; int fault = xs_choice(-1, 1, "fault"), k = xs_choice(0, 3, "operation"); long live0 = W.live, c0 = W.copies; W.ops = 0; W.throw_at = fault;
    try { switch (k) {
      case 0: { auto g = xme::bindFront<[](const Trk &x, u32 y) { x.ok(); return x.v + y; }>(t); xs_check(W.copies == c0 + 1 && g(3) == v + 3 && W.copies == c0 + 1 && t.v == v, "an lvalue argument is copied once"); auto h = std::move(g); xs_check(W.copies == c0 + 1 && h(3) == v + 3, "a move copies nothing"); break; }
      case 1: { auto g = xme::bindBack<[](u32 y, const Trk &x) { x.ok(); return x.v + y; }>(t); xs_check(W.copies == c0 + 1 && g(3) == v + 3 && t.v == v, "an lvalue argument is copied once"); auto h = g; xs_check(h(1) == v + 1 && g(1) == v + 1, "a copy owns its arguments"); break; }
      case 2: { auto g = xme::bindFront<[](Trk x) { return x.v; }>(std::move(t)); xs_check(W.copies == c0 && t.v == 0xdead && g() == v && g() == v, "an rvalue argument is moved, an lvalue call copies it out"); xs_check(std::move(g)() == v && W.copies == c0 + 2, "an rvalue call moves it out"); break; }
      case 3: { auto g = xme::bindBack<[](Trk x) { return x.v; }>(std::move(t)); xs_check(W.copies == c0 && t.v == 0xdead, "an rvalue argument is moved"); xs_check(std::move(g)() == v && W.copies == c0, "an rvalue call moves it out"); xs_check(g() == 0xdead, "moved out"); break; }
      } } catch (const Thrown &) { th = true; }
    W.throw_at = -1; xs_check(W.live == live0, "bound arguments are destroyed with the binder"); if (th) xs_reach("thrown"); else xs_reach("finished"); }
  xs_check(W.live == 0 && W.ctors == W.dtors, "every argument is destroyed once");
  u32 x = f(); auto m = xme::bindFront<[](const MoveOnly &p, u32 y) { return p.v - y; }>(MoveOnly(x)); auto o = std::move(m); xs_check(o(1) == x - 1, "move-only arguments"); auto q = xme::bindBack<[](MoveOnly &&p, const MoveOnly &r) { return p.v - 2 * r.v; }>(MoveOnly(x)); xs_check(q(MoveOnly(5)) == 5 - 2 * x, "move-only arguments");
}
// many bound and many call arguments, each in its place
template <typename... A> static u32 poly(const A &...a) { u32 r = 1; ((r = r * 31 + (u32)a), ...); return r; }
struct Poly { template <typename... A> u32 operator()(A &&...a) const { return poly(a...); } };
template <std::size_t... I, std::size_t... J> static void many(std::index_sequence<I...>, std::index_sequence<J...>) {
  u32 a[] = {(xs_u32("bound") + 0 * (u32)I)...}, b[] = {0, (xs_u32("given") + 0 * (u32)J)...}; auto f = xme::bindFront<Poly{}>(a[I]...); auto g = xme::bindBack<Poly{}>(a[I]...); const auto cf = f; const auto cg = g;
  u32 wf = poly(a[I]..., b[1 + J]...), wg = poly(b[1 + J]..., a[I]...); xs_check(f(b[1 + J]...) == wf && cf(b[1 + J]...) == wf && std::move(f)(b[1 + J]...) == wf, "all arguments in order, the bound ones first"); xs_check(g(b[1 + J]...) == wg && cg(b[1 + J]...) == wg && std::move(g)(b[1 + J]...) == wg, "all arguments in order, the bound ones last"); xs_reach("many");
}
template <std::size_t N, std::size_t M> static void manyn() { many(std::make_index_sequence<N>{}, std::make_index_sequence<M>{}); }
XS_ENTRY(e_many) { switch (xs_choice(0, 6, "arguments")) { case 0: manyn<4, 0>(); break; case 1: manyn<5, 3>(); break; case 2: manyn<7, 1>(); break; case 3: manyn<9, 9>(); break; case 4: manyn<1, 9>(); break; case 5: manyn<14, 2>(); break; default: manyn<17, 5>(); } }
