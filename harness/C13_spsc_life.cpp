// @configs none, ndebug
// @bounds capacities 2 and 4, every rotation and fill level; capacities 16 to 128 at some rotations and fill levels, one throwing constructor or throwing consumer function; static and dynamic storage
#include "track.hpp"
#include <xme/container/spsc_queue.hpp>
using namespace hx;
#define END xs_check(W.live == 0 && W.ctors == W.dtors, "every queued element is destroyed exactly once"); xs_check(xs_live_heap() == h0, "no block is leaked")
template <typename Q> static void life(Q &q, int cap) {
  int r = xs_choice(0, cap - 1, "rotation"); for (int i = 0; i < r; i++) { q.emplace(1u); xs_check(W.live == 1, "one element is alive"); if (i & 1) q.pop(); else q.consume([](Trk &&t) { t.ok(); }); xs_check(W.live == 0, "removed elements are destroyed"); }
  int n = xs_choice(0, cap, "fill"); long c0 = W.ctors;
  for (int i = 0; i < n; i++) { bool ok = q.emplace(10u + i); xs_check(ok == (i < cap - 1), "full"); }
  int live = n < cap - 1 ? n : cap - 1; xs_check(W.live == live, "exactly the queued elements are alive"); xs_check(W.ctors - c0 == live, "an emplace into a full queue constructs nothing");
  if (live < cap - 1) {
    Trk t(99); W.ops = 0; W.throw_at = 0; bool th = false; int k = xs_choice(0, 1, "kind");
    try { if (k) q.push(t); else q.emplace(5u); } catch (const Thrown &) { th = true; } W.throw_at = -1;
    xs_check(th, "the exception is passed on"); xs_check(W.live == live + 1 && q.read_available() == (std::size_t)live, "a failed push queues nothing"); xs_reach("thrown");
    xs_check(q.push(std::move(t)) && q.read_available() == (std::size_t)live + 1, "usable afterwards"); live++;
  }
  int m = xs_choice(0, live, "taken");
  for (int i = 0; i < m; i++) { if (xs_choice(0, 1, "pop")) q.pop(); else q.consume([&](Trk &&t) { t.ok(); xs_check(t.v == 99 || t.v == 10u + i, "order"); }); live--; xs_check(W.live == live, "a removed element is destroyed"); }
  xs_reach("done");
}
XS_ENTRY(e_static2) { W.reset(); uint64_t h0 = xs_live_heap(); { xme::SPSCQueue<Trk, xme::Capacity<2>> q; xs_check(W.ctors == 0, "no element is created in advance"); life(q, 2); } END; }
XS_ENTRY(e_static4) { W.reset(); uint64_t h0 = xs_live_heap(); { xme::SPSCQueue<Trk, xme::Capacity<4>> q; life(q, 4); } END; }
XS_ENTRY(e_dynamic) { W.reset(); uint64_t h0 = xs_live_heap(); { int c = xs_choice(0, 1, "cap") ? 2 : 4; xme::SPSCQueue<Trk> q(c); xs_check(W.ctors == 0, "no element is created in advance"); life(q, c); } END; }
XS_ENTRY(e_consumer_throws) {
  W.reset(); uint64_t h0 = xs_live_heap();
  { xme::SPSCQueue<Trk, xme::Capacity<4>> q; q.emplace(1u); q.emplace(2u); bool th = false; try { q.consume([](Trk &&) { throw Thrown{2}; }); } catch (const Thrown &) { th = true; }
    xs_check(th, "the exception is passed on"); xs_check((std::size_t)W.live == q.read_available(), "exactly the queued elements are alive"); }
  END;
}
// a consuming function that throws leaves its element in the queue, for another attempt
template <typename Q> static void again(Q &q, int cap) {
  int r = xs_choice(0, cap - 1, "rotation"); for (int i = 0; i < r; i++) { q.emplace(1u); q.pop(); } int n = xs_choice(1, cap - 1, "fill"); u32 v[8]; for (int i = 0; i < n; i++) { v[i] = xs_u32("x"); q.emplace(v[i]); }
  int bad = xs_choice(0, n - 1, "throwing"), times = xs_choice(1, 2, "times");
  for (int i = 0; i < n; i++) {
    if (i == bad) for (int k = 0; k < times; k++) { bool th = false; try { q.consume([&](Trk &&t) { t.ok(); xs_check(t.v == v[i], "the element offered is the oldest"); throw Thrown{2}; }); } catch (const Thrown &e) { th = e.what == 2; } xs_check(th, "the exception is passed on"); xs_check(q.read_available() == (std::size_t)(n - i) && q.write_available() == (std::size_t)(cap - 1 - n + i) && W.live == n - i, "the element is still queued"); }
    q.consume([&](Trk &&t) { t.ok(); xs_check(t.v == v[i], "order"); }); xs_check(W.live == n - 1 - i && q.read_available() == (std::size_t)(n - 1 - i), "taken");
  }
  xs_check(q.push(Trk(3u)) && q.read_available() == 1, "usable"); xs_reach("again");
}
XS_ENTRY(e_consume_again) { W.reset(); uint64_t h0 = xs_live_heap(); if (xs_choice(0, 1, "dynamic")) { xme::SPSCQueue<Trk> q(4); again(q, 4); } else { xme::SPSCQueue<Trk, xme::Capacity<4>> q; again(q, 4); } END; }
XS_ENTRY(e_alloc_fails) {
  W.reset(); uint64_t h0 = xs_live_heap(); xs_alloc_budget(0); bool th = false; try { xme::SPSCQueue<Trk> q(4); } catch (const std::bad_alloc &) { th = true; } xs_alloc_budget(-1);
  xs_check(th, "allocation failure is reported"); END;
}
// argument forwarding: an rvalue is moved, an lvalue is copied
XS_ENTRY(e_forward) {
  W.reset(); { xme::SPSCQueue<Trk, xme::Capacity<4>> q; Trk a(xs_u32("a")), b(xs_u32("b")); u32 av = a.v, bv = b.v; long c0 = W.copies, m0 = W.moves;
    q.push(a); xs_check(a.v == av && W.copies == c0 + 1 && W.moves == m0, "an lvalue is copied"); q.push(std::move(b)); xs_check(W.copies == c0 + 1 && W.moves == m0 + 1, "an rvalue is moved");
    q.consume([&](Trk &&t) { xs_check(t.v == av, "first"); }); q.consume([&](Trk &&t) { xs_check(t.v == bv, "second"); }); }
  xs_check(W.live == 0, "all destroyed");
}
// a large ring: filled across its end, partly taken, the rest destroyed with the queue
template <typename Q> static void big(Q &q, int cap) { int rot = xs_choice(0, 2, "rotation"); int s = rot == 0 ? 0 : rot == 1 ? cap / 2 : cap - 1; for (int i = 0; i < s; i++) { q.emplace(1u); q.pop(); } xs_check(W.live == 0, "removed elements are destroyed"); int n = xs_choice(0, 1, "fill") ? cap : cap / 2 + 1; int live = n < cap ? n : cap - 1; for (int i = 0; i < n; i++) xs_check(q.emplace((u32)i) == (i < cap - 1), "full"); xs_check(W.live == live, "exactly the queued elements are alive"); int t = xs_choice(0, 2, "taken"); t = t == 0 ? 0 : t == 1 ? live / 2 : live; for (int i = 0; i < t; i++) { if (i & 1) q.pop(); else q.consume([&](Trk &&x) { x.ok(); xs_check(x.v == (u32)i, "order"); }); } xs_check(W.live == live - t, "exactly the queued elements are alive"); xs_reach("big"); }
XS_ENTRY(e_big) { W.reset(); uint64_t h0 = xs_live_heap(); switch (xs_choice(0, 2, "kind")) { case 0: { xme::SPSCQueue<Trk, xme::Capacity<16>> q; big(q, 16); break; } case 1: { xme::SPSCQueue<Trk, xme::Capacity<64>> q; big(q, 64); break; } default: { int c = xs_choice(0, 1, "capacity") ? 128 : 32; xme::SPSCQueue<Trk> q(c); big(q, c); } } END; }
