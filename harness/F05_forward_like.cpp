// @bounds every combination of value category and constness of the two types; symbolic value; arrays, structures, pointers, enumerations and member pointers
#include "track.hpp"
#include <xme/core/utility/forward_like.hpp>
using namespace hx;
template <typename L, typename E> static void one(auto &&v, u32 *p) { auto &&r = xme::forward_like<L>(std::forward<decltype(v)>(v)); static_assert(std::is_same_v<decltype(xme::forward_like<L>(std::forward<decltype(v)>(v))), E>); xs_check((const void *)&r == (const void *)p, "names the same object"); xs_check(r == *p, "same value"); }
XS_ENTRY(e_all) {
  u32 x = xs_u32("x"); const u32 &c = x; struct S {};
  one<S &, u32 &>(x, &x); one<const S &, const u32 &>(x, &x); one<S, u32 &&>(x, &x); one<S &&, u32 &&>(x, &x); one<const S, const u32 &&>(x, &x); one<const S &&, const u32 &&>(x, &x);
  one<S &, const u32 &>(c, &x); one<const S &, const u32 &>(c, &x); one<S, const u32 &&>(c, &x); one<const S, const u32 &&>(c, &x);
  one<S &, u32 &>(std::move(x), &x); one<S, u32 &&>(std::move(x), &x); one<const S, const u32 &&>(std::move(x), &x);
}
XS_ENTRY(e_move) { W.reset(); { Trk t(xs_u32("v")); u32 v = t.v; struct S {}; Trk a(xme::forward_like<S &>(t)); xs_check(t.v == v && a.v == v, "like an lvalue: copied"); Trk k(xme::forward_like<const S>(t)); xs_check(t.v == v && k.v == v, "like a const rvalue: copied"); Trk b(xme::forward_like<S>(t)); xs_check(t.v == 0xdead && b.v == v, "like an rvalue: moved"); } xs_check(W.live == 0, "balanced"); }
// arrays, functions and classes keep their type
template <typename L, typename E> static void same(auto &&v, const void *p) { auto &&r = xme::forward_like<L>(std::forward<decltype(v)>(v)); static_assert(std::is_same_v<decltype(xme::forward_like<L>(std::forward<decltype(v)>(v))), E>); xs_check((const void *)&r == p, "names the same object"); }
template <typename T> static void kinds(T &x) {
  struct S {}; const T &c = x; same<S &, T &>(x, &x); same<const S &, const T &>(x, &x); same<S, T &&>(x, &x); same<S &&, T &&>(x, &x); same<const S, const T &&>(x, &x); same<const S &&, const T &&>(x, &x); same<S &, const T &>(c, &x); same<S, const T &&>(c, &x); same<const S, const T &&>(c, &x); same<const S &, const T &>(c, &x);
  same<S &, T &>(std::move(x), &x); same<S, T &&>(std::move(x), &x); same<const S, const T &&>(std::move(x), &x); same<const S &, const T &>(std::move(x), &x); same<S, const T &&>(std::move(c), &x); same<T &, T &>(x, &x); same<T, T &&>(x, &x); same<const T &, const T &>(x, &x); same<int &, T &>(x, &x); same<int, T &&>(x, &x); same<int *, T &&>(x, &x); same<int *&, T &>(x, &x); same<const int *, T &&>(x, &x);
}
XS_ENTRY(e_kinds) {
  u32 a[3] = {xs_u32("x"), xs_u32("x"), xs_u32("x")}; u32 b[2][2] = {{a[0], a[1]}, {a[2], 4}}; kinds(a); kinds(b); struct S { u32 x; u32 y; } s{a[0], a[1]}; kinds(s); u32 *p = a; kinds(p); const u32 *q = a; kinds(q); bool t = a[0] == 1; kinds(t); enum class E : u32 { A } e = (E)a[0]; kinds(e); u32 S::*m = &S::y; kinds(m);
  struct L {}; auto &&r = xme::forward_like<const L>(a); xs_check(sizeof r == 12 && r[0] == a[0] && r[1] == a[1] && r[2] == a[2], "the elements of an array"); W.reset(); { Trk d[2] = {Trk(a[0]), Trk(a[1])}; Trk o(xme::forward_like<L>(d)[1]); xs_check(o.v == a[1] && d[1].v == 0xdead && d[0].v == a[0], "an element of an array like an rvalue is moved"); Trk k(xme::forward_like<L &>(d)[0]); xs_check(k.v == a[0] && d[0].v == a[0], "and copied like an lvalue"); } xs_check(W.live == 0, "balanced");
}
