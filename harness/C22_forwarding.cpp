// @configs none, ndebug
// @bounds arrays of 0..3 (thorough 0..4) elements with and without spare capacity, every position; heaps of 0..4 elements; lists of 0..2 nodes, every position; ranges of 0..3 elements as lvalue, constant, view, moving view, list and array; queues at every fill level of 4 slots; tuples of 1..3 elements; arguments as lvalue, const lvalue and rvalue; symbolic values
#include "track.hpp"
#include <forward_list>
#include <ranges>
#include <tuple>
#include <xme/container/aligned_data.hpp>
#include <xme/container/array.hpp>
#include <xme/container/heap.hpp>
#include <xme/container/linked_list.hpp>
#include <xme/container/pair.hpp>
#include <xme/container/spsc_queue.hpp>
#include <xme/container/tuple.hpp>
using namespace hx;
// Counts its copies and moves, keeps no other record; moved-from objects show it.
struct Ct {
  static inline int copies, moves; u32 v;
  Ct(u32 x = 0) : v(x) {}
  Ct(const Ct &o) : v(o.v) { copies++; } Ct(Ct &&o) noexcept : v(o.v) { o.v = 0xdead; moves++; }
  Ct &operator=(const Ct &o) { v = o.v; copies++; return *this; } Ct &operator=(Ct &&o) noexcept { u32 t = o.v; o.v = 0xdead; v = t; moves++; return *this; }
  bool operator==(const Ct &) const = default; auto operator<=>(const Ct &) const = default;
};
static void zero() { Ct::copies = Ct::moves = 0; }
enum { LV, CLV, RV };
static int kind() { return xs_choice(0, 2, "argument as lvalue, const lvalue, rvalue"); }
template <typename F> static void with(int k, Ct &a, F f) { if (k == LV) f(a); else if (k == CLV) f(std::as_const(a)); else f(std::move(a)); }
static void judge(int k, const Ct &a, u32 x) {
  if (k == RV) { xs_check(Ct::copies == 0, "an rvalue argument is moved, nothing is copied"); xs_check(a.v == 0xdead || a.v == x, "an rvalue argument is moved from"); xs_reach("rvalue"); }
  else { xs_check(Ct::copies == 1, "an lvalue argument is copied once, and nothing else is"); xs_check(a.v == x, "an lvalue argument is left alone"); xs_reach("lvalue"); }
}
XS_ENTRY(e_array) {
  xme::Array<Ct> a; int n = xs_choice(0, QT(3, 4), "n"); for (int i = 0; i < n; i++) a.emplace_back((u32)(100 + i)); int sp = xs_choice(0, 1, "spare"); if (sp) a.reserve(n + 2); else a.resize(n);
  u32 x = xs_u32("x"); xs_assume(x != 0xdead); Ct arg(x); int k = kind(), op = xs_choice(0, 3, "operation"), p = n; if (op >= 2) p = xs_choice(0, n, "position"); zero();
  with(k, arg, [&](auto &&c) { using C = decltype(c); switch (op) { case 0: a.push_back(std::forward<C>(c)); break; case 1: { auto &r = a.emplace_back(std::forward<C>(c)); xs_check(&r == &a[n], "emplace_back returns the new element"); break; } default: { auto it = a.insert(a.begin() + p, std::forward<C>(c)); xs_check(it == a.begin() + p, "insert returns the new position"); } } });
  judge(k, arg, x); if (k == RV) xs_check(arg.v == 0xdead, "moved from"); xs_check((int)a.size() == n + 1, "size"); for (int i = 0; i <= n; i++) xs_check(a[i].v == (i == p ? x : (u32)(100 + i - (i > p))), "contents");
}
// whole ranges: each element is copied once from an ordinary range, and moved once from a moving one
XS_ENTRY(e_array_ranges) {
  xme::Array<Ct> a; int n = xs_choice(0, 3, "n"); for (int i = 0; i < n; i++) a.emplace_back((u32)(100 + i)); if (xs_choice(0, 1, "spare")) a.reserve(n + 3); else a.resize(n);
  int m = xs_choice(0, 3, "m"), op = xs_choice(0, 3, "operation"), p = op < 2 ? xs_choice(0, n, "position") : n; Ct s[3] = {xs_u32("x"), xs_u32("x"), xs_u32("x")}; u32 v[3]; for (int i = 0; i < 3; i++) { v[i] = s[i].v; xs_assume(v[i] != 0xdead); } zero();
  switch (op) { case 0: a.insert(a.begin() + p, s, s + m); break; case 1: a.insert(a.begin() + p, std::make_move_iterator(s), std::make_move_iterator(s + m)); break; case 2: a.push_back(s, s + m); break; case 3: a.push_back(std::make_move_iterator(s), std::make_move_iterator(s + m)); break; }
  bool mv = op & 1; xs_check(Ct::copies == (mv ? 0 : m), "one copy for each element of an ordinary range, none for a moving one"); for (int i = 0; i < 3; i++) xs_check(s[i].v == (mv && i < m ? 0xdead : v[i]), "sources"); xs_check((int)a.size() == n + m, "size");
  for (int i = 0; i < n + m; i++) xs_check(a[i].v == (i < p ? (u32)(100 + i) : i < p + m ? v[i - p] : (u32)(100 + i - m)), "contents"); xs_reach("done");
}
XS_ENTRY(e_array_whole) {
  Ct s[3] = {xs_u32("x"), xs_u32("y"), xs_u32("z")}; int n = xs_choice(0, 3, "n"); zero(); xme::Array<Ct> a(s + 0, s + n); xs_check(Ct::copies == n, "construction from a range copies each element once"); xme::Array<Ct> b(a); xs_check(Ct::copies == 2 * n, "a copy copies each element once"); xme::Array<Ct> c(std::move(a)); xs_check(Ct::copies == 2 * n, "a move copies nothing");
  a = c; xs_check(Ct::copies == 3 * n, "copy assignment copies each element once"); b = std::move(a); swap(b, c); c.reserve(n + 4); c.resize(n); c.resize(1); if (c.size()) { c.erase(c.begin()); } xs_check(Ct::copies == 3 * n, "moves, swaps, growth, shrinking and erasing copy nothing");
  xme::Array<Ct> d(std::make_move_iterator(s), std::make_move_iterator(s + n)); xs_check(Ct::copies == 3 * n, "construction from a moving range copies nothing"); xme::Array<Ct> e((std::size_t)n, Ct(7)); xs_check(Ct::copies == 4 * n, "a fill copies its value once for each element"); xs_reach("done");
}
XS_ENTRY(e_array_move_only) {
  xme::Array<MoveOnly> a; W.reset(); int n = xs_choice(0, 3, "n"); for (int i = 0; i < n; i++) a.push_back(MoveOnly(i)); if (xs_choice(0, 1, "spare")) a.reserve(n + 1); else a.resize(n); u32 x = xs_u32("x"); int p = xs_choice(0, n, "position"); a.insert(a.begin() + p, MoveOnly(x)); xs_check(a[p].v == x && (int)a.size() == n + 1, "move-only elements"); a.erase(a.begin()); a.emplace_back(x); xme::Array<MoveOnly> b(std::move(a)); a = std::move(b); b.swap(a); xs_check(b.back().v == x && (int)b.size() == n + 1, "move-only elements"); MoveOnly s[2] = {MoveOnly(5), MoveOnly(x)}; b.insert(b.begin(), std::make_move_iterator(s), std::make_move_iterator(s + 2)); xs_check(b[0].v == 5 && b[1].v == x, "a moving range"); xs_reach("done");
}
XS_ENTRY(e_heap) {
  xme::Heap<Ct> h; int n = xs_choice(0, 4, "n"); for (int i = 0; i < n; i++) h.emplace((u32)xs_u8("key")); u32 x = xs_u8("x"); Ct arg(x); int k = kind(), op = xs_choice(0, 1, "operation"); zero();
  with(k, arg, [&](auto &&c) { if (op) h.push(std::forward<decltype(c)>(c)); else h.emplace(std::forward<decltype(c)>(c)); }); judge(k, arg, x); if (k == RV) xs_check(arg.v == 0xdead, "moved from"); int c0 = Ct::copies; while (h.size()) h.pop(); xs_check(Ct::copies == c0, "pop copies nothing");
}
XS_ENTRY(e_heap_whole) {
  Ct s[4]; for (auto &e : s) e.v = xs_u8("key"); int n = xs_choice(0, 4, "n"); zero(); xme::Heap<Ct> h(s, s + n); xs_check(Ct::copies == n, "construction from a range copies each element once"); xme::Heap<Ct> m(std::move(h)); while (m.size()) m.pop(); xs_check(Ct::copies == n, "moving and popping copy nothing");
  xme::Heap<MoveOnly, xme::Array<MoveOnly>, decltype([](const MoveOnly &a, const MoveOnly &b) { return a.v < b.v; })> o; u32 top = 0; for (int i = 0; i < 3; i++) { u32 x = xs_u8("key"); o.push(MoveOnly(x)); if (x > top) top = x; } xs_check(o.front().v == top, "move-only elements"); o.pop(); xs_reach("done");
}
// range objects: lvalues, constants, views and moving views, into every container that takes one
template <typename F> static void from_ranges(int n, F f) {
  Ct s[3] = {xs_u8("x"), xs_u8("y"), xs_u8("z")}; u32 v[3]; for (int i = 0; i < 3; i++) v[i] = s[i].v; int k = xs_choice(0, 4, "range"); zero();
  auto judge = [&](bool moving) { xs_check(Ct::copies == (moving ? 0 : n), "one copy for each element of an ordinary range, none for a moving one"); for (int i = 0; i < 3; i++) xs_check(s[i].v == (moving && i < n ? 0xdead : v[i]), "the source is left alone unless it moves"); };
  switch (k) {
  case 0: { auto r = std::ranges::subrange(s + 0, s + n); f(r); judge(false); xs_reach("elements"); break; }
  case 1: { auto r = std::ranges::subrange(std::as_const(s) + 0, std::as_const(s) + n); f(r); judge(false); break; }
  case 2: { f(std::ranges::subrange(std::make_move_iterator(s + 0), std::make_move_iterator(s + n))); judge(true); xs_reach("moving"); break; }
  case 3: { std::forward_list<Ct> l; for (int i = n; i-- > 0;) l.push_front(Ct(v[i])); zero(); f(l); judge(false); int i = 0; for (auto &e : l) xs_check(e.v == v[i++], "the source is left alone"); xs_reach("list"); break; }
  case 4: { xme::Array<Ct> a(s + 0, s + n); const xme::Array<Ct> &c = a; zero(); if (xs_choice(0, 1, "constant")) f(c); else f(a); judge(false); for (int i = 0; i < n; i++) xs_check(c[i].v == v[i], "the source is left alone"); xs_reach("array"); break; } }
}
XS_ENTRY(e_range_objects) {
  int n = xs_choice(0, 3, "n"), op = xs_choice(0, 5, "operation");
  from_ranges(n, [&](auto &&r) { using R = decltype(r); Ct::copies = Ct::moves = 0; int size = -1;
    switch (op) { case 0: { xme::Array<Ct> a(std::forward<R>(r)); size = a.size(); break; } case 1: { xme::Array<Ct> a; a.emplace_back(1u); zero(); a.insert(a.begin(), std::forward<R>(r)); size = a.size() - 1; break; } case 2: { xme::Array<Ct> a; a.push_back(std::forward<R>(r)); size = a.size(); break; } case 3: { xme::Heap<Ct> h(std::forward<R>(r)); size = h.size(); break; }
    case 4: { xme::LinkedList<Ct> l(std::forward<R>(r)); size = 0; for (auto &e : l) size += (&e != nullptr); break; } default: { xme::LinkedList<Ct> l; l.insert_after(l.before_begin(), std::forward<R>(r)); size = 0; for (auto &e : l) size += (&e != nullptr); break; } }
    xs_check(size == n, "every element arrives"); });
}
XS_ENTRY(e_list) {
  xme::LinkedList<Ct> l; int n = xs_choice(0, 2, "n"); for (int i = n; i-- > 0;) l.emplace_front((u32)(100 + i)); u32 x = xs_u32("x"); xs_assume(x != 0xdead); Ct arg(x); int k = kind(), op = xs_choice(0, 3, "operation"), p = op >= 2 ? xs_choice(0, n, "position") : 0; auto pos = l.before_begin(); for (int i = 0; i < p; i++) ++pos; zero();
  with(k, arg, [&](auto &&c) { using C = decltype(c); switch (op) { case 0: l.push_front(std::forward<C>(c)); break; case 1: { auto &r = l.emplace_front(std::forward<C>(c)); xs_check(&r == &l.front(), "emplace_front returns the new element"); break; } case 2: { auto it = l.insert_after(pos, std::forward<C>(c)); xs_check(it->v == x, "position of the new element"); break; } default: { auto it = l.emplace_after(pos, std::forward<C>(c)); xs_check(it->v == x, "position of the new element"); } } });
  judge(k, arg, x); if (k == RV) xs_check(arg.v == 0xdead, "moved from"); int i = 0; for (auto &e : l) { xs_check(e.v == (i == p ? x : (u32)(100 + i - (i > p))), "contents"); i++; } xs_check(i == n + 1, "length");
}
XS_ENTRY(e_list_whole) {
  Ct s[3] = {xs_u32("x"), xs_u32("y"), xs_u32("z")}; int n = xs_choice(0, 3, "n"); zero(); xme::LinkedList<Ct> l(s, s + n); xs_check(Ct::copies == n, "construction from a range copies each element once"); xme::LinkedList<Ct> c(l); xs_check(Ct::copies == 2 * n, "a copy copies each element once"); xme::LinkedList<Ct> m(std::move(l)); l = std::move(c); m.reverse(); l.reverse(); l.clear(); xs_check(Ct::copies == 2 * n, "moves, swaps, reversal and clearing copy nothing");
  c.insert_after(c.before_begin(), s, s + n); xs_check(Ct::copies == 3 * n, "inserting a range copies each element once"); c.insert_after(c.before_begin(), std::make_move_iterator(s), std::make_move_iterator(s + n)); xs_check(Ct::copies == 3 * n, "inserting a moving range copies nothing");
  xme::LinkedList<MoveOnly> o; u32 x = xs_u32("x"); o.push_front(MoveOnly(x)); o.insert_after(o.before_begin(), MoveOnly(1)); o.emplace_after(o.begin(), 2u); xme::LinkedList<MoveOnly> q(std::move(o)); q.pop_front(); q.pop_front(); xs_check(q.front().v == x, "move-only elements"); xs_reach("done");
}
template <typename Q> static void queue(Q &q) {
  int n = xs_choice(0, 3, "fill"); for (int i = 0; i < n; i++) q.emplace((u32)i); u32 x = xs_u32("x"); xs_assume(x != 0xdead); Ct arg(x); int k = kind(), op = xs_choice(0, 1, "operation"); bool ok = false; zero();
  with(k, arg, [&](auto &&c) { if (op) ok = q.push(std::forward<decltype(c)>(c)); else ok = q.emplace(std::forward<decltype(c)>(c)); });
  if (n == 3) { xs_check(!ok && Ct::copies == 0 && Ct::moves == 0 && arg.v == x, "a refused argument is neither copied nor moved from"); xs_reach("refused"); } else { judge(k, arg, x); if (k == RV) xs_check(arg.v == 0xdead, "moved from"); xs_check(ok, "accepted"); for (int i = 0; i < n; i++) q.pop(); int c0 = Ct::copies; Ct out; q.consume([&](Ct &&e) { out = std::move(e); }); xs_check(out.v == x && Ct::copies == c0, "consume hands out an rvalue"); }
}
XS_ENTRY(e_queue_static) { xme::SPSCQueue<Ct, xme::Capacity<4>> q; queue(q); }
XS_ENTRY(e_queue_dynamic) { xme::SPSCQueue<Ct> q(4); queue(q); }
XS_ENTRY(e_queue_move_only) { xme::SPSCQueue<MoveOnly, xme::Capacity<4>> q; u32 x = xs_u32("x"), got = 0; q.push(MoveOnly(x)); q.emplace(1u); q.consume([&](MoveOnly &&m) { MoveOnly t(std::move(m)); got = t.v; }); xs_check(got == x, "move-only elements"); }
XS_ENTRY(e_tuple) {
  u32 x = xs_u32("x"); xs_assume(x != 0xdead); Ct arg(x); int k = kind(), op = xs_choice(0, 2, "operation"); zero();
  with(k, arg, [&](auto &&c) { using C = decltype(c); switch (op) { case 0: { auto p = xme::make_pair(std::forward<C>(c), 1); xs_check(p.first.v == x, "make_pair"); break; } case 1: { auto p = xme::make_pair(1, std::forward<C>(c)); xs_check(p.second.v == x, "make_pair"); break; } default: { auto t = xme::make_tuple(1, std::forward<C>(c), 2); xs_check(xme::get<1>(t).v == x, "make_tuple"); } } });
  judge(k, arg, x); if (k == RV) xs_check(arg.v == 0xdead, "moved from");
}
// assignment between pairs and tuples of different types, and access, by category of the source
template <typename D, typename S> static void assign() {
  u32 x = xs_u32("x"), y = xs_u32("y"); xs_assume(x != 0xdead && y != 0xdead); S s{Ct(x), Ct(y)}; D d{Ct(1), Ct(2)}; int k = kind(); zero(); if (k == LV) d = s; else if (k == CLV) d = std::as_const(s); else d = std::move(s);
  using xme::get; using std::get; xs_check(get<0>(d).v == x && get<1>(d).v == y, "elements arrive"); if (k == RV) { xs_check(Ct::copies == 0 && get<0>(s).v == 0xdead && get<1>(s).v == 0xdead, "an rvalue source is moved from"); xs_reach("rvalue"); } else { xs_check(Ct::copies == 2 && get<0>(s).v == x && get<1>(s).v == y, "an lvalue source is copied once per element and left alone"); xs_reach("lvalue"); }
}
struct Ct2 : Ct { using Ct::Ct; Ct2(const Ct &o) : Ct(o) {} Ct2(Ct &&o) : Ct(std::move(o)) {} using Ct::operator=; };
using TT = xme::Tuple<Ct, Ct>; using PP = xme::Pair<Ct, Ct>; using ST = std::tuple<Ct, Ct>; using SP = std::pair<Ct, Ct>; using PQ = xme::Pair<Ct2, Ct2>; using TQ = xme::Tuple<Ct2, Ct2>;
XS_ENTRY(e_assign_tt) { assign<TT, TT>(); } XS_ENTRY(e_assign_pp) { assign<PP, PP>(); } XS_ENTRY(e_assign_tp) { assign<TT, PP>(); } XS_ENTRY(e_assign_ts) { assign<TT, ST>(); } XS_ENTRY(e_assign_tsp) { assign<TT, SP>(); } XS_ENTRY(e_assign_psp) { assign<PP, SP>(); } XS_ENTRY(e_assign_pq) { assign<PQ, PP>(); } XS_ENTRY(e_assign_tq) { assign<TQ, TT>(); }
XS_ENTRY(e_access) {
  u32 x = xs_u32("x"), y = xs_u32("y"); xs_assume(x != 0xdead && y != 0xdead); TT t{Ct(x), Ct(y)}; PP p{Ct(x), Ct(y)}; zero();
  Ct a = xme::get<0>(std::move(t)); xs_check(a.v == x && xme::get<0>(t).v == 0xdead && xme::get<1>(t).v == y && Ct::copies == 0, "get of an rvalue tuple moves that element only"); Ct b = xme::get<1>(std::move(p)); xs_check(b.v == y && xme::get<1>(p).v == 0xdead && xme::get<0>(p).v == x && Ct::copies == 0, "get of an rvalue pair moves that element only");
  Ct c = xme::get<1>(t); xs_check(c.v == y && xme::get<1>(t).v == y && Ct::copies == 1, "get of an lvalue copies"); TT u{Ct(1), Ct(2)}; PP q{Ct(1), Ct(2)}; int c0 = Ct::copies; swap(t, u); swap(p, q); t.swap(u); p.swap(q); xs_check(Ct::copies == c0 && xme::get<1>(t).v == y && q.first.v == 1, "swaps copy nothing");
}
struct Fn { int *w; int operator()(u32, u32) & { *w = 1; return 1; } int operator()(u32, u32) const & { *w = 2; return 2; } int operator()(u32, u32) && { *w = 3; return 3; } };
XS_ENTRY(e_apply_callable) { int w = 0; Fn f{&w}; const Fn cf{&w}; xme::Tuple<u32, u32> t{xs_u32("a"), xs_u32("b")}; xs_check(xme::apply(f, t) == 1 && w == 1, "apply calls an lvalue callable as one"); xs_check(xme::apply(cf, t) == 2, "apply calls a const callable as one"); xs_check(xme::apply(std::move(f), t) == 3, "apply calls an rvalue callable as one"); }
XS_ENTRY(e_aligned) {
  u32 x = xs_u32("x"); xs_assume(x != 0xdead); Ct arg(x); int k = kind(); zero(); with(k, arg, [&](auto &&c) { xme::AlignedData<Ct> d(std::forward<decltype(c)>(c)); xs_check(d.data()->v == x, "constructed from the argument"); }); judge(k, arg, x); if (k == RV) xs_check(arg.v == 0xdead, "moved from");
}
