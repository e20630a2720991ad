// @configs none, ndebug
// @opt maxsteps=40000000
// @bounds capacities 1, 2, 4, 8 (static and dynamic), every starting rotation; capacities 8 to 512 (4096) filled, drained and refilled from four rotations; every power-of-two capacity from 8 to 2^60 with up to 6 elements; capacity 131072 with 66000 elements; of the ring, every history of 6 (thorough: 8) push/emplace/pop/consume steps for capacity 4, symbolic 32-bit values
#include "assert_expect.hpp"
#include "track.hpp"
#include <xme/container/spsc_queue.hpp>
using namespace hx;
struct Fifo { u32 d[40]; int h = 0, t = 0; int n() const { return t - h; } };
template <typename Q> static void avail(Q &q, Fifo &f, int cap) {
  xs_check(q.read_available() == (std::size_t)f.n(), "read_available is the number of queued elements");
  xs_check(q.write_available() == (std::size_t)(cap - 1 - f.n()), "write_available is the number of free slots");
}
template <typename Q> static bool put(Q &q, Fifo &f, int cap) {
  u32 x = xs_u32("value"); bool ok = xs_choice(0, 1, "emplace") ? q.emplace(x) : q.push(x);
  xs_check(ok == (f.n() < cap - 1), "a push fails exactly when the queue is full");
  if (ok) f.d[f.t++] = x;
  return ok;
}
template <typename Q> static void get(Q &q, Fifo &f) {
  int calls = 0; u32 got = 0; reject_expected = f.n() == 0;
  q.consume([&](u32 &&v) { calls++; got = v; });
  xs_check(f.n() > 0, "consuming from an empty queue is refused");
  xs_check(calls == 1, "consume calls its function once"); xs_check(got == f.d[f.h], "elements leave in the order they came"); f.h++; xs_obs_u64("got", got);
}
template <typename Q> static void drop(Q &q, Fifo &f) { reject_expected = f.n() == 0; q.pop(); xs_check(f.n() > 0, "popping an empty queue is refused"); f.h++; }
template <typename Q> static void rotated(Q &q, int cap) {
  Fifo f; avail(q, f, cap);
  if (cap == 1) { put(q, f, cap); avail(q, f, cap); return; }
  int r = xs_choice(0, cap - 1, "rotation"); for (int i = 0; i < r; i++) { q.push(1u); q.pop(); }
  avail(q, f, cap);
  int n = xs_choice(0, cap, "pushes"); for (int i = 0; i < n; i++) { put(q, f, cap); avail(q, f, cap); }
  while (f.n()) { get(q, f); avail(q, f, cap); }
  if (cap > 1) { put(q, f, cap); get(q, f); avail(q, f, cap); }
  xs_reach("rotated");
}
XS_ENTRY(e_static1) { xme::SPSCQueue<u32, xme::Capacity<1>> q; rotated(q, 1); }
XS_ENTRY(e_static2) { xme::SPSCQueue<u32, xme::Capacity<2>> q; rotated(q, 2); }
XS_ENTRY(e_static4) { xme::SPSCQueue<u32, xme::Capacity<4>> q; rotated(q, 4); }
XS_ENTRY(e_dynamic) { int cap = 1 << xs_choice(0, 2, "log2 capacity"); xme::SPSCQueue<u32> q(cap); rotated(q, cap); }
XS_ENTRY(et_static8) { xme::SPSCQueue<u32, xme::Capacity<8>> q; rotated(q, 8); }
XS_ENTRY(et_dynamic8) { xme::SPSCQueue<u32> q(8); rotated(q, 8); }
template <typename Q> static void history(Q &q, int cap, int steps) {
  Fifo f;
  for (int s = 0; s < steps; s++) {
    switch (xs_choice(0, 2, "operation")) { case 0: put(q, f, cap); break; case 1: if (!f.n()) xs_stop_path(); get(q, f); break; case 2: if (!f.n()) xs_stop_path(); drop(q, f); break; }
    avail(q, f, cap);
  }
  xs_reach("history");
}
XS_ENTRY(e_history_static) { xme::SPSCQueue<u32, xme::Capacity<4>> q; history(q, 4, QT(6, 8)); }
XS_ENTRY(e_history_dynamic) { xme::SPSCQueue<u32> q(4); history(q, 4, QT(6, 8)); }
#ifndef NDEBUG
XS_ENTRY(e_empty) {
  xme::SPSCQueue<u32, xme::Capacity<4>> s; xme::SPSCQueue<u32> d(4); Fifo f; int r = xs_choice(0, 4, "rotation"); for (int i = 0; i < r; i++) { s.push(1u); s.pop(); d.push(1u); d.pop(); }
  switch (xs_choice(0, 3, "which")) { case 0: get(s, f); break; case 1: drop(s, f); break; case 2: get(d, f); break; case 3: drop(d, f); break; }
  xs_fail("an empty queue yields nothing");
}
#endif
XS_ENTRY(e_capacity) {
  std::size_t c = xs_u64("capacity"); xs_assume(c >= 1 && c <= 16); bool pow2 = (c & (c - 1)) == 0; reject_expected = !pow2;
  c = c == 1 ? 1 : c == 2 ? 2 : c == 3 ? 3 : c == 4 ? 4 : c == 5 ? 5 : c == 6 ? 6 : c == 7 ? 7 : c == 8 ? 8 : c == 12 ? 12 : c == 16 ? 16 : 15; pow2 = (c & (c - 1)) == 0; reject_expected = !pow2;
  xme::SPSCQueue<u32> q(c); xs_check(pow2, "other capacities are refused"); xs_check(q.write_available() == c - 1, "capacity N holds N-1 elements"); xs_reach("accepted");
}
// element type wider and narrower than a word, move-only values, arguments forwarded
struct Big { uint64_t a, b, c; };
XS_ENTRY(e_types) {
  xme::SPSCQueue<Big, xme::Capacity<4>> q; xme::SPSCQueue<uint8_t> d(4); xme::SPSCQueue<MoveOnly, xme::Capacity<4>> m; Big x[3]; uint8_t y[3]; u32 z[3];
  for (int r = xs_choice(0, 3, "rotation"); r > 0; r--) { q.emplace(Big{}); q.pop(); d.push((uint8_t)0); d.pop(); m.emplace(0u); m.pop(); }
  for (int i = 0; i < 3; i++) { x[i] = {xs_u64("a"), xs_u64("b"), xs_u64("c")}; y[i] = xs_u8("y"); z[i] = xs_u32("z"); q.push(x[i]); d.push(y[i]); if (i & 1) m.emplace(z[i]); else m.push(MoveOnly(z[i])); }
  for (int i = 0; i < 3; i++) {
    q.consume([&](Big &&v) { xs_check(v.a == x[i].a && v.b == x[i].b && v.c == x[i].c, "wide element"); });
    d.consume([&](uint8_t &&v) { xs_check(v == y[i], "narrow element"); });
    m.consume([&](MoveOnly &&v) { MoveOnly t(std::move(v)); xs_check(t.v == z[i], "move-only element"); });
  }
}
// large rings: filled, drained and refilled across the end, with symbolic values
template <typename Q> static void big(Q &q, int cap) {
  u32 s = xs_u32("value"); int w = 0, r = 0; auto in = [&] { bool ok = w & 1 ? q.push(s ^ (u32)w) : q.emplace(s ^ (u32)w); bool room = w - r < cap - 1; xs_check(ok == room, "a push fails exactly when the queue is full"); if (ok) w++; }; auto out = [&] { if (r & 1) { q.consume([&](u32 &&v) { xs_check(v == (s ^ (u32)r), "elements leave in the order they came"); }); } else { bool ok = false; q.consume([&](u32 &&v) { ok = v == (s ^ (u32)r); }); xs_check(ok, "elements leave in the order they came"); } r++; };
  auto av = [&] { xs_check(q.read_available() == (std::size_t)(w - r) && q.write_available() == (std::size_t)(cap - 1 - (w - r)), "available"); };
  int rot = xs_choice(0, 3, "rotation"), start = rot == 0 ? 0 : rot == 1 ? 1 : rot == 2 ? cap / 2 : cap - 1; for (int i = 0; i < start; i++) { in(); out(); } av();
  for (int i = 0; i < cap + 1; i++) in(); av(); int k = xs_choice(0, 2, "drain"); k = k == 0 ? 1 : k == 1 ? cap / 2 : cap - 1; for (int i = 0; i < k; i++) out(); av(); for (int i = 0; i < k + 1; i++) in(); av(); while (r < w) out(); av(); in(); out(); av(); xs_reach("big");
}
XS_ENTRY(e_big_static) { switch (xs_choice(0, QT(2, 4), "capacity")) { case 0: { xme::SPSCQueue<u32, xme::Capacity<16>> q; big(q, 16); break; } case 1: { xme::SPSCQueue<u32, xme::Capacity<64>> q; big(q, 64); break; } case 2: { xme::SPSCQueue<u32, xme::Capacity<256>> q; big(q, 256); break; } case 3: { xme::SPSCQueue<u32, xme::Capacity<512>> q; big(q, 512); break; } default: { static xme::SPSCQueue<u32, xme::Capacity<1024>> q; big(q, 1024); } } }
XS_ENTRY(e_big_dynamic) { static const int c[] = {8, 32, 128, 512, 1024, 4096}; int cap = c[xs_choice(0, QT(3, 5), "capacity")]; xme::SPSCQueue<u32> q(cap); big(q, cap); }
// beyond sixteen bits
XS_ENTRY(e_huge) {
  const int cap = 1 << 17, n = 66000; xme::SPSCQueue<u32> q((std::size_t)cap); u32 x = xs_u32("value"); int rot = xs_choice(QT(1, 0), 1, "rotated"); if (rot) { for (int i = 0; i < cap - 100; i++) { q.push(1u); q.pop(); } xs_check(q.read_available() == 0, "empty"); }
  bool ok = true; for (int i = 0; i < n; i++) ok &= q.push((u32)i ^ x); xs_check(ok, "there was room"); xs_check(q.read_available() == (std::size_t)n && q.write_available() == (std::size_t)(cap - 1 - n), "available");
  for (int i = 0; i < n; i++) q.consume([&](u32 &&v) { ok &= v == ((u32)i ^ x); }); xs_check(ok, "elements leave in the order they came"); xs_check(q.read_available() == 0 && q.read_available() == 0 && q.write_available() == (std::size_t)(cap - 1), "empty again"); xs_reach("huge");
}
// every power of two as a capacity, up to sizes no memory has: the allocator notes what it is asked for, only the beginning is used
template <typename T> struct AnySize {
  using value_type = T; using size_type = std::size_t; using difference_type = std::ptrdiff_t; static inline std::size_t asked = 0, given = 0; static inline int blocks = 0; alignas(T) static inline std::byte mem[8 * sizeof(T)];
  T *allocate(std::size_t n) { asked = n; blocks++; return reinterpret_cast<T *>(mem); } void deallocate(T *, std::size_t n) { given = n; blocks--; } bool operator==(const AnySize &) const = default;
};
XS_ENTRY(e_any_capacity) {
  using Al = AnySize<u32>; Al::blocks = 0; int bits = xs_choice(3, 60, "capacity"); const std::size_t c = (std::size_t)1 << bits; u32 v[6]; for (u32 &x : v) x = xs_u32("value"); int n = xs_choice(0, 6, "pushes"), m = xs_choice(0, 6, "pops"); if (m > n) xs_stop_path();
  {
    xme::SPSCQueue<u32, Al> q(c); xs_check(Al::asked == c && Al::blocks == 1, "one block of the capacity"); xs_check(q.write_available() == c - 1 && q.read_available() == 0, "empty");
    for (int i = 0; i < n; i++) { xs_check(q.push(v[i]), "there is room"); xs_check(q.read_available() == (std::size_t)i + 1 && q.write_available() == c - 2 - i, "after a push"); }
    for (int i = 0; i < m; i++) { u32 got = 0; q.consume([&](u32 &&x) { got = x; }); xs_check(got == v[i], "in order"); xs_check(q.read_available() == (std::size_t)(n - 1 - i) && q.write_available() == c - 1 - (n - 1 - i), "after a pop"); }
    xs_reach("any capacity");
  }
  xs_check(Al::given == c && Al::blocks == 0, "the block is returned with its size");
}
