// @bounds delegates holding lifetime-tracked functors of every storage class; every history of 4 (thorough: 5) operations over two delegates; one throwing copy or refused allocation at any point
#include "track.hpp"
#include <xme/core/functional/delegate.hpp>
using namespace hx;
template <int Pad> struct Fn { TrkT<false, Pad> t; Fn(u32 x) : t(x) {} u32 operator()(u32 x) const { t.ok(); return t.v + x; } };
using Small = Fn<0>; using Large = Fn<60>; using D = xme::Delegate<u32(u32)>;
struct Tiny { u32 k; u32 operator()(u32 x) const { return k + x; } };
XS_ENTRY(e_history) {
  W.reset(); uint64_t h0 = xs_live_heap();
  { D d[2]; bool full[2] = {}; u32 v[2] = {}; bool trk[2] = {};
    for (int s = 0; s < QT(4, 5); s++) { int i = s ? xs_choice(0, 1, "delegate") : 0, j = 1 - i;
      switch (xs_choice(0, 9, "operation")) {
      case 0: d[i] = nullptr; full[i] = false; break;
      case 1: d[i] = Small(10 + s); full[i] = trk[i] = true; v[i] = 10 + s; break;
      case 2: { Large l(20 + s); d[i] = l; full[i] = trk[i] = true; v[i] = 20 + s; break; }
      case 3: d[i] = Tiny{30u + s}; full[i] = true; trk[i] = false; v[i] = 30 + s; break;
      case 4: d[i] = d[j]; full[i] = full[j]; v[i] = v[j]; trk[i] = trk[j]; break;
      case 5: d[i] = std::move(d[j]); full[i] = full[j]; v[i] = v[j]; trk[i] = trk[j]; full[j] = false; break;
      case 6: d[0].swap(d[1]); std::swap(full[0], full[1]); std::swap(v[0], v[1]); std::swap(trk[0], trk[1]); break;
      case 7: { D c(d[i]); xs_check((bool)c == full[i], "copy"); D m(std::move(c)); xs_check((bool)m == full[i] && !c, "move"); if (full[i]) xs_check(m(5) == v[i] + 5, "target"); break; }
      case 8: { auto &self = d[i]; self = d[i]; break; }
      case 9: { auto &self = d[i]; self = std::move(d[i]); self.swap(d[i]); break; }
      }
      xs_check(W.live == (full[0] && trk[0]) + (full[1] && trk[1]), "exactly the held functors are alive");
      for (int q = 0; q < 2; q++) { xs_check((bool)d[q] == full[q], "empty"); if (full[q]) xs_check(d[q](1) == v[q] + 1, "own target"); }
    }
    xs_reach("history"); }
  xs_check(W.live == 0 && W.ctors == W.dtors, "every functor is destroyed exactly once"); xs_check(xs_live_heap() == h0, "no block is leaked");
}
XS_ENTRY(e_faults) {
  W.reset(); uint64_t h0 = xs_live_heap();
  { D a = Large(1), b = Small(2); if (xs_choice(0, 1, "empty")) b = nullptr; bool had = (bool)b; Large l(3); Small sm(4); long live0 = W.live; int f = xs_choice(0, 5, "fault"), k = xs_choice(0, 6, "operation"); bool th = false; W.ops = 0;
    if (f < 3) W.throw_at = f; else xs_alloc_budget(f - 3);
    try { switch (k) { case 0: { D c(a); break; } case 1: b = a; break; case 2: b = l; break; case 3: { D c(l); break; } case 4: b = sm; break; case 5: { D c(sm); break; } case 6: { D c(a); D e(c); b = e; break; } } } catch (const Thrown &) { th = true; } catch (const std::bad_alloc &) { th = true; }
    W.throw_at = -1; xs_alloc_budget(-1);
    if (th) { xs_check(W.live == live0, "a failed operation leaves no functor behind"); xs_check((bool)b == had && (!had || b(5) == 7) && a(5) == 6, "a failed operation leaves the delegates as they were"); xs_reach("fault"); } }
  xs_check(W.live == 0 && W.ctors == W.dtors, "every functor is destroyed exactly once"); xs_check(xs_live_heap() == h0, "no block is leaked");
}
XS_ENTRY(e_forwarding) { W.reset(); { Large l(3); long c0 = W.copies, m0 = W.moves; D a(l); xs_check(W.copies == c0 + 1, "an lvalue functor is copied once"); D b(std::move(l)); xs_check(W.copies == c0 + 1 && W.moves == m0 + 1, "an rvalue functor is moved"); c0 = W.copies; D c(std::move(a)); D e; e = std::move(b); xs_check(W.copies == c0, "moving a delegate copies no functor"); xs_check(c(1) == 4 && e(2) == 5, "targets"); } xs_check(W.live == 0, "destroyed"); }
XS_ENTRY(e_forwarding_assign) { W.reset(); { int start = xs_choice(0, 2, "start"); D a; if (start == 1) a = Small(1); if (start == 2) a = Large(1); bool big = xs_choice(0, 1, "big"); u32 s = xs_u32("s"), x = xs_u32("x"); long c0, live;
  if (big) { Large l(s); live = W.live; c0 = W.copies; a = std::move(l); xs_check(W.copies == c0, "an rvalue functor is moved into the delegate by assignment"); xs_check(a(x) == s + x, "target"); xs_check(W.live == live + (start == 0), "the earlier functor is gone"); Large k(s + 1); c0 = W.copies; a = k; xs_check(W.copies == c0 + 1 && k(1) == s + 2 && a(x) == s + 1 + x, "an lvalue functor is copied once by assignment"); }
  else { Small l(s); live = W.live; c0 = W.copies; a = std::move(l); xs_check(W.copies == c0, "an rvalue functor is moved into the delegate by assignment"); xs_check(a(x) == s + x, "target"); xs_check(W.live == live + (start == 0), "the earlier functor is gone"); const Small k(s + 1); c0 = W.copies; a = k; xs_check(W.copies == c0 + 1 && a(x) == s + 1 + x, "an lvalue functor is copied once by assignment"); } xs_reach("assigned"); } xs_check(W.live == 0 && W.ctors == W.dtors, "destroyed"); }
