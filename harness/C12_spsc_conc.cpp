// @configs none, ndebug
// @bounds one producer and one consumer thread, every interleaving and every C11 release/acquire-visible value; capacity 2 and 4; 2..3 (thorough: 5) concurrent pushes against 2..3 (4) consumer polls, symbolic values; polling bounded to one attempt per step
// @assume threads use the queue as documented: one producer, one consumer; a failed poll is not retried forever (bounded attempts)
#include "track.hpp"
#include <xme/container/spsc_queue.hpp>
using namespace hx;
template <typename Q> struct Sh { Q *q; u32 v[6]; int ok[6]; int pushes; int attempts; u32 got[8]; int ngot; };
template <typename Q, bool E> static void prod(void *p) { auto &s = *(Sh<Q> *)p; for (int i = 0; i < s.pushes; i++) { if constexpr (E) s.ok[i] = s.q->emplace(s.v[i]); else s.ok[i] = s.q->push(s.v[i]); } }
template <typename Q> static void cons(void *p) {
  auto &s = *(Sh<Q> *)p;
  for (int i = 0; i < s.attempts; i++) if (s.q->read_available() > 0) s.q->consume([&](u32 &&x) { s.got[s.ngot++] = x; });
}
template <typename Q> static void cons_batch(void *p) {
  auto &s = *(Sh<Q> *)p; std::size_t n = s.q->read_available();
  for (std::size_t i = 0; i < n; i++) s.q->consume([&](u32 &&x) { s.got[s.ngot++] = x; });
}
template <typename Q> static void prod_avail(void *p) {
  auto &s = *(Sh<Q> *)p;
  for (int i = 0; i < s.pushes; i++) { if (s.q->write_available() > 0) { s.ok[i] = s.q->push(s.v[i]); xs_check(s.ok[i], "a push into available space succeeds"); } else s.ok[i] = 0; }
}
template <typename Q> static void fifo(Q &q, int cap, int prefill, int pushes, int attempts, void (*P)(void *), void (*C)(void *)) {
  static Sh<Q> s; s = Sh<Q>{}; s.q = &q; s.pushes = pushes; s.attempts = attempts;
  u32 exp[16]; int ne = 0;
  for (int i = 0; i < prefill; i++) { exp[ne] = xs_u32("prefill"); q.push(exp[ne]); ne++; }
  for (int i = 0; i < pushes; i++) s.v[i] = xs_u32("value");
  xs_thread(P, &s); xs_thread(C, &s); xs_join();
  int accepted = 0;
  for (int i = 0; i < pushes; i++) if (s.ok[i]) { exp[ne++] = s.v[i]; accepted++; }
  if (pushes + prefill <= cap - 1) xs_check(accepted == pushes, "a push succeeds while there is room whatever the consumer does");
  for (int i = 0; i < s.ngot; i++) xs_check(i < ne && s.got[i] == exp[i], "the consumer sees the accepted elements in order");
  int rest = ne - s.ngot; xs_check(rest >= 0 && q.read_available() == (std::size_t)rest && q.write_available() == (std::size_t)(cap - 1 - rest), "what was not consumed is still queued");
  for (int i = s.ngot; i < ne; i++) q.consume([&](u32 &&x) { xs_check(x == exp[i], "remaining elements are intact and in order"); });
  if (s.ngot > 0) xs_reach("consumed concurrently");
  if (s.ngot < ne) xs_reach("left over");
}
using S2 = xme::SPSCQueue<u32, xme::Capacity<2>>; using S4 = xme::SPSCQueue<u32, xme::Capacity<4>>; using D = xme::SPSCQueue<u32>;
template <typename Q> static void rot(Q &q, int r) { for (int i = 0; i < r; i++) { q.push(0u); q.pop(); } }
XS_ENTRY(e_cap2) { S2 q; rot(q, xs_choice(0, 1, "rotation")); fifo(q, 2, 0, QT(3, 5), QT(3, 4), prod<S2, false>, cons<S2>); }
XS_ENTRY(e_cap2_full) { S2 q; fifo(q, 2, 1, QT(3, 4), QT(3, 4), prod<S2, true>, cons<S2>); }
XS_ENTRY(e_cap4) { S4 q; rot(q, xs_choice(0, 3, "rotation")); fifo(q, 4, 0, QT(2, 4), QT(2, 3), prod<S4, true>, cons<S4>); }
XS_ENTRY(e_cap4_full) { S4 q; rot(q, 2); fifo(q, 4, xs_choice(2, 3, "prefill"), QT(2, 3), QT(3, 4), prod<S4, false>, cons<S4>); }
XS_ENTRY(e_batch) { S4 q; rot(q, xs_choice(0, 3, "rotation")); fifo(q, 4, 1, 2, 1, prod_avail<S4>, cons_batch<S4>); }
XS_ENTRY(e_dynamic) { int cap = xs_choice(0, 1, "cap") ? 2 : 4; D q(cap); fifo(q, cap, 1, 2, 2, prod<D, true>, cons<D>); }
XS_ENTRY(e_dynamic_avail) { D q(4); rot(q, 3); fifo(q, 4, 2, 2, 2, prod_avail<D>, cons<D>); }
// pop by the consumer: the slot may be reused only after the element is gone
template <typename Q> static void cpop(void *p) { auto &s = *(Sh<Q> *)p; for (int i = 0; i < s.attempts; i++) if (s.q->read_available() > 0) { s.q->pop(); s.ngot++; } }
XS_ENTRY(e_pop) {
  S2 q; static Sh<S2> s; s = Sh<S2>{}; s.q = &q; s.pushes = 2; s.attempts = 2; u32 a = xs_u32("a"); q.push(a); s.v[0] = xs_u32("v"); s.v[1] = xs_u32("v");
  xs_thread(prod<S2, false>, &s); xs_thread(cpop<S2>, &s); xs_join();
  u32 exp[3] = {a}; int ne = 1; for (int i = 0; i < 2; i++) if (s.ok[i]) exp[ne++] = s.v[i];
  for (int i = s.ngot; i < ne; i++) q.consume([&](u32 &&x) { xs_check(x == exp[i], "pop removes the oldest element"); });
  xs_check(q.read_available() == 0, "nothing else is queued"); if (ne > 2) xs_reach("slot reused");
}
// elements with parts and a destructor that looks at them: a slot is reused only after its element is destroyed, and an element is seen only complete
struct Part { u32 a, b; Part(u32 x) : a(x), b(~x) {} Part(Part &&o) : a(o.a), b(o.b) {} ~Part() { xs_check(b == ~a, "a destroyed element is complete"); } };
template <typename Q> struct ShP { Q *q; u32 v[4]; int ok[4]; int pushes, attempts, mode; u32 got[4]; int ngot; };
template <typename Q> static void pprod(void *p) { auto &s = *(ShP<Q> *)p; for (int i = 0; i < s.pushes; i++) s.ok[i] = s.mode & 1 ? s.q->push(Part(s.v[i])) : s.q->emplace(s.v[i]); }
template <typename Q> static void pcons(void *p) { auto &s = *(ShP<Q> *)p; for (int i = 0; i < s.attempts; i++) if (s.q->read_available() > 0) { if (s.mode & 2) s.q->pop(); else s.q->consume([&](Part &&e) { xs_check(e.b == ~e.a, "an element is seen complete"); s.got[s.ngot] = e.a; }); s.ngot++; } }
template <typename Q> static void parts(Q &q, int mode) {
  static ShP<Q> s; s = ShP<Q>{}; s.q = &q; s.pushes = 2; s.attempts = QT(2, 3); s.mode = mode; u32 exp[3]; int ne = 0; exp[ne] = xs_u32("first"); q.emplace(exp[ne++]); for (int i = 0; i < 2; i++) s.v[i] = xs_u32("value");
  xs_thread(pprod<Q>, &s); xs_thread(pcons<Q>, &s); xs_join(); for (int i = 0; i < 2; i++) if (s.ok[i]) exp[ne++] = s.v[i]; if (!(mode & 2)) for (int i = 0; i < s.ngot; i++) xs_check(s.got[i] == exp[i], "elements arrive in order");
  for (int i = s.ngot; i < ne; i++) q.consume([&](Part &&e) { xs_check(e.a == exp[i] && e.b == ~exp[i], "remaining elements are intact"); }); xs_check(q.read_available() == 0, "nothing else is queued"); if (s.ok[1] && ne > 2) xs_reach("slot reused"); if (s.ngot) xs_reach("consumed concurrently");
}
using P2 = xme::SPSCQueue<Part, xme::Capacity<2>>; using PD = xme::SPSCQueue<Part>;
XS_ENTRY(e_parts_pop) { P2 q; parts(q, 2); } XS_ENTRY(e_parts_consume) { P2 q; parts(q, 1); } XS_ENTRY(e_parts_dynamic_pop) { PD q(2); parts(q, 3); } XS_ENTRY(e_parts_dynamic_consume) { PD q(2); parts(q, 0); }
