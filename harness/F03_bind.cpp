// @bounds 0..3 bound and 0..3 call arguments, up to 17 bound and 9 call arguments, functions, members, functors; tuples and pairs as bound arguments; lvalue, const and rvalue binders; symbolic values; one throwing copy; results that are references into the referents, the functor and the bound arguments, for every category
#include "track.hpp"
#include <functional>
#include <xme/container/pair.hpp>
#include <xme/core/functional/bind.hpp>
using namespace hx;
static u32 mix(u32 a, u32 b, u32 c, u32 d) { return a * 3 + b * 5 + c * 7 + d * 11; }
struct Obj { u32 k; u32 m(u32 x, u32 y) const { return k * 3 + x * 5 + y * 7; } };
XS_ENTRY(e_order) {
  u32 a = xs_u32("a"), b = xs_u32("b"), c = xs_u32("c"), d = xs_u32("d"); u32 want = mix(a, b, c, d);
  xs_check(xme::bind_front(mix)(a, b, c, d) == want && xme::bind_back(mix)(a, b, c, d) == want, "nothing bound"); xs_check(xme::bind_front(mix, a)(b, c, d) == want && xme::bind_front(mix, a, b)(c, d) == want && xme::bind_front(mix, a, b, c)(d) == want && xme::bind_front(mix, a, b, c, d)() == want, "bind_front puts the bound arguments first, in order");
  xs_check(xme::bind_back(mix, d)(a, b, c) == want && xme::bind_back(mix, c, d)(a, b) == want && xme::bind_back(mix, b, c, d)(a) == want && xme::bind_back(mix, a, b, c, d)() == want, "bind_back puts the bound arguments last, in order");
  Obj o{a}; xs_check(xme::bind_front(&Obj::m, o)(b, c) == o.m(b, c) && xme::bind_front(&Obj::m, &o, b)(c) == o.m(b, c) && xme::bind_back(&Obj::m, b, c)(o) == o.m(b, c) && xme::bind_front(&Obj::m, std::ref(o), b)(c) == o.m(b, c), "member functions"); xs_check(xme::bind_front(&Obj::k, o)() == a, "data members"); auto nest = xme::bind_back(xme::bind_front(mix, a), d); xs_check(nest(b, c) == want, "binders nest"); xs_check(xme::bind_front(xme::bind_front(mix, a), b)(c, d) == want, "binders nest in order");
  auto f = xme::bind_front(mix, a, b); auto g = f; xs_check(g(c, d) == want && f(c, d) == want, "copies call the same"); auto h = xme::bind_front(mix, d, c); auto hb = h; hb = f; xs_check(hb(c, d) == want, "assignment"); const auto cf = xme::bind_back(mix, c, d); xs_check(cf(a, b) == want, "const binder"); xs_obs_u64("want", want);
}
XS_ENTRY(e_storage) {
  u32 a = xs_u32("a"), b = xs_u32("b"); u32 x = a; auto f = xme::bind_front([](u32 p, u32 q) { return p - 2 * q; }, x); auto g = xme::bind_back([](u32 p, u32 q) { return p - 2 * q; }, x); x = 99; xs_check(f(b) == a - 2 * b && g(b) == b - 2 * a, "bound arguments are stored by value"); u32 y = a; auto r = xme::bind_front([](u32 &p, u32 q) { p += q; return &p; }, std::ref(y)); xs_check(r(b) == &y && y == a + b, "std::ref binds a reference"); auto m = xme::bind_front([](u32 &p, u32 q) { return p += q; }, a); xs_check(m(b) == a + b && m(b) == a + 2 * b, "an lvalue binder passes its stored argument by reference"); auto mb = xme::bind_back([](u32 q, u32 &p) { return p += q; }, a); xs_check(mb(b) == a + b && mb(b) == a + 2 * b, "also at the back"); int n = 0; auto cnt = xme::bind_front([n](u32 p) mutable { n++; return p + n; }, a); xs_check(cnt() == a + 1 && cnt() == a + 2, "functor state is kept"); u32 z = 5; auto &&ref = xme::bind_front([](u32 &q) -> u32 & { return q; })(z); xs_check(&ref == &z, "references are returned as such and call arguments are forwarded"); auto &&ref2 = xme::bind_back([](u32 &q, int) -> u32 & { return q; }, 1)(z); xs_check(&ref2 == &z, "also at the back");
}
struct Cat { int operator()(u32 &) const { return 1; } int operator()(const u32 &) const { return 2; } int operator()(u32 &&) const { return 3; } int operator()(const u32 &&) const { return 4; } };
static bool cr(int r) { return r == 4; }
struct Q { int operator()() & { return 1; } int operator()() const & { return 2; } int operator()() && { return 3; } int operator()() const && { return 4; } };
XS_ENTRY(e_category) {
  u32 a = 1; auto f = xme::bind_front(Cat{}, a); const auto cf = f; xs_check(f() == 1 && cf() == 2 && std::move(f)() == 3 && cr(std::move(cf)()), "the bound argument has the value category of the binder"); auto g = xme::bind_back(Cat{}, a); const auto cg = g; xs_check(g() == 1 && cg() == 2 && std::move(g)() == 3 && cr(std::move(cg)()), "also at the back"); auto q = xme::bind_front(Q{}); const auto cq = q; xs_check(q() == 1 && cq() == 2 && std::move(q)() == 3 && cr(std::move(cq)()), "the callable has the value category of the binder"); auto p = xme::bind_back(Q{}); const auto cp = p; xs_check(p() == 1 && cp() == 2 && std::move(p)() == 3 && cr(std::move(cp)()), "also at the back"); auto c = xme::bind_front([](auto &&x) { return Cat{}(std::forward<decltype(x)>(x)); }); const u32 k = 1; xs_check(c(a) == 1 && c(k) == 2 && c(2u) == 3, "call arguments keep their category");
}
XS_ENTRY(e_lifetime) {
  W.reset(); bool th = false;
  { Trk t(xs_u32("t")); u32 v = t.v; int fault = xs_choice(-1, 1, "fault"), k = xs_choice(0, 3, "operation"); long live0 = W.live, c0 = W.copies; W.ops = 0; W.throw_at = fault;
    try { switch (k) {
      case 0: { auto f = xme::bind_front([](const Trk &x, u32 y) { x.ok(); return x.v + y; }, t); xs_check(W.copies == c0 + 1, "an lvalue argument is copied once"); xs_check(f(3) == v + 3 && W.copies == c0 + 1, "a call copies nothing"); auto g = std::move(f); xs_check(W.copies == c0 + 1 && g(3) == v + 3, "a move copies nothing"); auto h = g; xs_check(W.copies == c0 + 2 && h(1) == v + 1 && g(1) == v + 1, "a copy owns its arguments"); break; }
      case 1: { auto f = xme::bind_back([](u32 y, const Trk &x) { x.ok(); return x.v + y; }, t); xs_check(W.copies == c0 + 1 && f(3) == v + 3, "an lvalue argument is copied once"); auto h = f; xs_check(h(1) == v + 1 && f(1) == v + 1, "a copy owns its arguments"); break; }
      case 2: { auto f = xme::bind_front([](Trk x) { return x.v; }, std::move(t)); xs_check(W.copies == c0 && f() == v && f() == v, "an lvalue call copies the argument out"); xs_check(std::move(f)() == v, "an rvalue call moves it out"); break; }
      case 3: { auto f = xme::bind_back([](Trk x) { return x.v; }, std::move(t)); xs_check(W.copies == c0, "an rvalue argument is moved"); xs_check(std::move(f)() == v && W.copies == c0, "an rvalue call moves it out"); xs_check(f() == 0xdead, "moved out"); break; }
      } } catch (const Thrown &) { th = true; }
    W.throw_at = -1; xs_check(W.live == live0, "bound arguments are destroyed with the binder"); if (th) xs_reach("thrown"); else xs_reach("finished"); }
  xs_check(W.live == 0 && W.ctors == W.dtors, "every argument is destroyed once");
}
// the callable itself is stored like an argument: copied from an lvalue once, moved from an rvalue, called in place
struct Fun : Trk { using Trk::Trk; u32 operator()(u32 a, u32 b) const & { ok(); return v + a * 3 + b; } u32 operator()(u32 a, u32 b) && { ok(); return v + a * 3 + b + 1000; } };
template <bool Back, typename F, typename... A> static auto bind(F &&f, A &&...a) { if constexpr (Back) return xme::bind_back(std::forward<F>(f), std::forward<A>(a)...); else return xme::bind_front(std::forward<F>(f), std::forward<A>(a)...); }
template <bool Back> static void callable() {
  W.reset(); { Fun f(xs_u32("state")); u32 s = f.v, a = xs_u32("a"), b = xs_u32("b"), want = Back ? s + b * 3 + a : s + a * 3 + b; bool mv = xs_choice(0, 1, "rvalue"); long c0 = W.copies;
    if (mv) { auto g = bind<Back>(std::move(f), a); xs_check(W.copies == c0 && f.v == 0xdead, "an rvalue callable is moved"); xs_check(g(b) == want && g(b) == want && W.copies == c0, "a call leaves the callable alone"); xs_check(std::move(g)(b) == want + 1000 && W.copies == c0, "an rvalue binder calls an rvalue callable in place"); }
    else { auto g = bind<Back>(f, a); xs_check(W.copies == c0 + 1 && f.v == s, "an lvalue callable is copied once"); f.v = 1; const auto &cg = g; xs_check(g(b) == want && cg(b) == want && W.copies == c0 + 1, "the binder owns its callable"); auto h = g; xs_check(W.copies == c0 + 2 && h(b) == want, "a copy owns a copy"); xs_reach("lvalue"); }
  } xs_check(W.live == 0, "callables are destroyed with their binders");
  struct MF { MoveOnly m; u32 operator()(u32 x) const { return m.v + x; } }; { u32 s = xs_u32("s"), x = xs_u32("x"); auto g = bind<Back>(MF{MoveOnly(s)}); auto h = std::move(g); xs_check(h(x) == s + x, "move-only callable"); auto k = bind<Back>([](const MoveOnly &p, const MoveOnly &q) { return p.v - 2 * q.v; }, MoveOnly(s)); xs_check(k(MoveOnly(x)) == (Back ? x - 2 * s : s - 2 * x), "move-only arguments"); } xs_check(W.live == 0, "all gone");
}
XS_ENTRY(e_callable_front) { callable<false>(); }
XS_ENTRY(e_callable_back) { callable<true>(); }

// exceptions of the callable reach the caller, whatever the category of the binder and whichever overloads cannot throw
template <int T> struct Ovl { void go(int k) const noexcept(false) { if (k == T) throw Thrown{k}; }
  int operator()(u32 &) & noexcept(T != 1) { go(1); return 1; } int operator()(const u32 &) const & noexcept(T != 2) { go(2); return 2; } int operator()(u32 &&) && noexcept(T != 3) { go(3); return 3; } int operator()(const u32 &&) const && noexcept(T != 4) { go(4); return 4; } };
template <bool Back, int T> static void throwing() {
  u32 a = xs_u32("a"); auto f = bind<Back>(Ovl<T>{}, a); const auto cf = f; 
  int k = xs_choice(1, 4, "category"), r = 0; bool th = false; try { switch (k) { case 1: r = f(); break; case 2: r = cf(); break; case 3: r = std::move(f)(); break; case 4: r = std::move(cf)(); break; } } catch (const Thrown &e) { th = true; xs_check(e.what == T, "the exception thrown"); }
  xs_check(th == (k == T), "an exception of the callable reaches the caller"); if (!th) xs_check(r == k, "the overload of the category"); else xs_reach("thrown");
}
XS_ENTRY(e_throwing) { switch (xs_choice(0, 9, "which")) { case 0: throwing<false, 0>(); break; case 1: throwing<false, 1>(); break; case 2: throwing<false, 2>(); break; case 3: throwing<false, 3>(); break; case 4: throwing<false, 4>(); break; case 5: throwing<true, 0>(); break; case 6: throwing<true, 1>(); break; case 7: throwing<true, 2>(); break; case 8: throwing<true, 3>(); break; case 9: throwing<true, 4>(); break; } }
// a callable or a bound argument whose copy fails among others that cannot fail
struct Tame { u32 v; u32 operator()(const Trk &a, u32 b) const { return v + a.v + b; } }; struct Wild { Trk t; u32 operator()(u32 a, u32 b) const { return t.v + a + b; } };
template <bool Back> static void copying() {
  W.reset(); { Trk t(xs_u32("t")); Wild w{Trk(3u)}; u32 x = xs_u32("x"); long live = W.live; bool th = false; int k = xs_choice(0, 3, "what"), f = xs_choice(-1, 1, "fault"); W.ops = 0; W.throw_at = f;
    try { switch (k) { case 0: { auto g = bind<Back>(w, x, 2u); W.throw_at = -1; xs_check(g() == 3 + x + 2, "called"); break; } case 1: { auto g = bind<Back>(Tame{1}, t, x); W.throw_at = -1; xs_check(g() == 1 + t.v + x, "called"); break; } case 2: { auto g = bind<Back>([](u32 a, const Trk &b, u32 c) { return a + b.v + c; }, 1u, t, x); W.throw_at = -1; xs_check(g() == 1 + t.v + x, "called"); break; } case 3: { auto g = bind<Back>([](const Trk &a, const Trk &b) { return a.v + b.v; }, t, t); W.throw_at = -1; xs_check(g() == 2 * t.v, "called"); break; } } } catch (const Thrown &) { th = true; } W.throw_at = -1;
    xs_check(th == (f == 0 || (f == 1 && k == 3)), "a failing copy reaches the caller"); xs_check(W.live == live, "nothing is left behind"); if (th) xs_reach("failed"); else xs_reach("bound"); } xs_check(W.live == 0, "all gone");
}
XS_ENTRY(e_copying_front) { copying<false>(); } XS_ENTRY(e_copying_back) { copying<true>(); }
// tuples and pairs are bound whole
XS_ENTRY(e_bound_tuples) {
  u32 a = xs_u32("a"), b = xs_u32("b"), c = xs_u32("c"); auto t = xme::make_tuple(a, b); auto g = [](const xme::Tuple<u32, u32> &p, u32 q) { return xme::get<0>(p) * 3 + xme::get<1>(p) * 5 + q * 7; }; u32 want = a * 3 + b * 5 + c * 7; auto r = [](u32 q, const xme::Tuple<u32, u32> &p) { return xme::get<0>(p) * 3 + xme::get<1>(p) * 5 + q * 7; };
  xs_check(xme::bind_front(g, t)(c) == want && xme::bind_front(g, t, c)() == want && xme::bind_back(g, c)(t) == want && xme::bind_back(g, t, c)() == want && xme::bind_back(r, t)(c) == want && xme::bind_front(r, c, t)() == want, "tuples"); auto h = [](const xme::Tuple<xme::Tuple<u32, u32>> &p, u32 q) { return xme::get<0>(xme::get<0>(p)) + q; }; xs_check(xme::bind_front(h, xme::make_tuple(t))(c) == a + c, "tuples of tuples"); auto pr = [](const xme::Pair<u32, u32> &p, u32 q) { return p.first - 2 * p.second + q; }; xs_check(xme::bind_front(pr, xme::make_pair(a, b))(c) == a - 2 * b + c, "pairs");
}
// many bound and many call arguments, each in its place
template <typename... A> static u32 poly(const A &...a) { u32 r = 1; ((r = r * 31 + (u32)a), ...); return r; }
struct Poly { template <typename... A> u32 operator()(A &&...a) const { return poly(a...); } };
template <std::size_t... I, std::size_t... J> static void many(std::index_sequence<I...>, std::index_sequence<J...>) {
  u32 a[] = {(xs_u32("bound") + 0 * (u32)I)...}, b[] = {0, (xs_u32("given") + 0 * (u32)J)...}; auto f = xme::bind_front(Poly{}, a[I]...); auto g = xme::bind_back(Poly{}, a[I]...); const auto cf = f; const auto cg = g;
  u32 wf = poly(a[I]..., b[1 + J]...), wg = poly(b[1 + J]..., a[I]...); xs_check(f(b[1 + J]...) == wf && cf(b[1 + J]...) == wf && std::move(f)(b[1 + J]...) == wf, "all arguments in order, the bound ones first"); xs_check(g(b[1 + J]...) == wg && cg(b[1 + J]...) == wg && std::move(g)(b[1 + J]...) == wg, "all arguments in order, the bound ones last"); xs_reach("many");
}
template <std::size_t N, std::size_t M> static void manyn() { many(std::make_index_sequence<N>{}, std::make_index_sequence<M>{}); }
XS_ENTRY(e_many) { switch (xs_choice(0, 6, "arguments")) { case 0: manyn<4, 0>(); break; case 1: manyn<5, 3>(); break; case 2: manyn<7, 1>(); break; case 3: manyn<9, 9>(); break; case 4: manyn<1, 9>(); break; case 5: manyn<14, 2>(); break; default: manyn<17, 5>(); } }
// bound arguments of many types
XS_ENTRY(e_many_types) {
  W.reset(); { u32 v[9]; for (u32 &x : v) x = xs_u32("value"); auto f = xme::bind_front([](uint8_t a, Trk &b, u32 &c, uint64_t d, Trk &e, u32 *p, u32 g, const MoveOnly &m, u32 h) { b.ok(); e.ok(); return poly(a, b.v, c, d, e.v, *p, g, m.v, h); }, (uint8_t)v[0], Trk(v[1]), std::ref(v[2]), (uint64_t)v[3], Trk(v[4]), &v[5], v[6], MoveOnly(v[7])); xs_check(f(v[8]) == poly((uint8_t)v[0], v[1], v[2], (uint64_t)v[3], v[4], v[5], v[6], v[7], v[8]), "arguments of many types"); auto g = std::move(f); xs_check(g(v[0]) == poly((uint8_t)v[0], v[1], v[2], (uint64_t)v[3], v[4], v[5], v[6], v[7], v[0]), "moved along"); }
  xs_check(W.live == 0, "destroyed"); xs_reach("types");
}
// what the callable returns is what the call returns, reference or value, for every category of the binder
struct Refs { u32 *p; u32 &operator()(u32) & { return p[0]; } u32 &operator()(u32) const & { return p[1]; } u32 &&operator()(u32) && { return std::move(p[2]); } const u32 &operator()(u32) const && { return p[3]; } };
struct Vals { u32 v; const MoveOnly operator()(u32 x) const { return MoveOnly(v + x); } };
template <bool Back> static void results() {
  u32 d[4]; for (u32 &x : d) x = xs_u32("x"); auto f = bind<Back>(Refs{d}, 1u); const auto cf = f; static_assert(std::is_same_v<decltype(f()), u32 &> && std::is_same_v<decltype(cf()), u32 &> && std::is_same_v<decltype(std::move(f)()), u32 &&> && std::is_same_v<decltype(std::move(cf)()), const u32 &>);
  auto &&a = f(); auto &&b = cf(); auto &&c = std::move(f)(); auto &&e = std::move(cf)(); xs_check(&a == d && &b == d + 1 && &c == d + 2 && &e == d + 3, "a returned reference names the same object"); a = 5; b = 6; xs_check(d[0] == 5 && d[1] == 6, "and can be written through");
  auto g = bind<Back>(Refs{d}); const auto cg = g; auto &&a2 = g(1u); auto &&b2 = cg(1u); auto &&c2 = std::move(g)(1u); auto &&e2 = std::move(cg)(1u); xs_check(&a2 == d && &b2 == d + 1 && &c2 == d + 2 && &e2 == d + 3, "also with call arguments");
  u32 v = xs_u32("v"); auto h = bind<Back>([](u32 &x) -> u32 & { return x; }, std::ref(v)); const auto ch = h; auto &&r = h(); auto &&r2 = ch(); auto &&r3 = std::move(h)(); xs_check(&r == &v && &r2 == &v && &r3 == &v, "a reference to a bound referent");
  auto own = bind<Back>([](auto &x) -> auto & { return x; }, v); const auto cown = own; auto &&o = own(); auto &&o2 = own(); const u32 &o3 = cown(); const u32 &o4 = cown(); xs_check(&o == &o2 && &o3 == &o4 && &o != &v && o == v && o3 == v, "a reference to the bound argument itself"); o = 9; xs_check(own() == 9, "the binder keeps what was written");
  auto m = bind<Back>(Vals{v}, 2u); const auto cm = Vals{v}; xs_check(m().v == v + 2 && bind<Back>(cm)(3u).v == v + 3, "values that cannot be copied"); static_assert(std::is_same_v<decltype(bind<Back>([](u32) {}, 1u)()), void>); bind<Back>([&](u32 x) { v = x; }, 4u)(); xs_check(v == 4, "nothing returned");
}
XS_ENTRY(e_results_front) { W.reset(); results<false>(); xs_check(W.live == 0, "destroyed"); } XS_ENTRY(e_results_back) { W.reset(); results<true>(); xs_check(W.live == 0, "destroyed"); }
