// @bounds nesting depth 3, up to four exceptions in flight, leaving the scope by fall-through, return, break and exception; symbolic values
#include "track.hpp"
#include <memory>
#include <xme/core/functional/scoped_delegate.hpp>
using namespace hx;
static u32 log_[8]; static int nl;
static u32 leave(int how, u32 x) {
  for (int i = 0; i < 2; i++) { xme::ScopedDelegate a([x] { log_[nl++] = x; }); xs_check(nl == 0 || i == 1, "not called before the end of the scope"); { auto g = [&] { log_[nl++] = x + 1; }; xme::ScopedDelegate b(g); if (how == 0) return x; if (how == 1) throw Thrown{1}; if (how == 2) break; if (how == 3) continue; } log_[nl++] = 77; }
  return 0;
}
XS_ENTRY(e_exits) {
  u32 x = xs_u32("x"); nl = 0; int how = xs_choice(0, 4, "how"); bool th = false; try { leave(how, x); } catch (const Thrown &) { th = true; } xs_check(th == (how == 1), "exceptions pass");
  if (how <= 2) xs_check(nl == 2 && log_[0] == x + 1 && log_[1] == x, "called once per scope, inner first"); else if (how == 3) xs_check(nl == 4 && log_[0] == x + 1 && log_[1] == x && log_[2] == x + 1 && log_[3] == x, "called once per iteration"); else xs_check(nl == 6 && log_[0] == x + 1 && log_[1] == 77 && log_[2] == x, "called at the end of each scope");
  for (int i = 0; i < nl; i++) xs_obs_u64("log", log_[i]);
}
static int hits; static void plain() { hits++; }
XS_ENTRY(e_targets) {
  hits = 0; { xme::ScopedDelegate<void (*)()> f(plain); xs_check(hits == 0, "not called early"); } xs_check(hits == 1, "function pointer is called once"); u32 x = xs_u32("x"), y = x; { xme::ScopedDelegate s([&y] { y++; }); y += 10; xs_check(y == x + 10, "not called early"); } xs_check(y == x + 11, "called at the end, after the last statement"); int order[3], k = 0; { xme::ScopedDelegate a([&] { order[k++] = 0; }); xme::ScopedDelegate b([&] { order[k++] = 1; }); xme::ScopedDelegate c([&] { order[k++] = 2; }); } xs_check(k == 3 && order[0] == 2 && order[1] == 1 && order[2] == 0, "reverse order of construction");
}
struct Fn { Trk t; int *n; void operator()() { t.ok(); ++*n; } };
XS_ENTRY(e_lifetime) {
  W.reset(); int n = 0; bool th = false; { Fn f{Trk(1), &n}; long c0 = W.copies; int k = xs_choice(0, 2, "how"); try { if (k == 0) { xme::ScopedDelegate<Fn> s(f); xs_check(W.live == 2 && W.copies == c0 + 1 && n == 0, "an lvalue callable is copied"); } else if (k == 1) { xme::ScopedDelegate<Fn> s(std::move(f)); xs_check(W.copies == c0 && W.live == 2, "an rvalue callable is moved"); } else { W.ops = 0; W.throw_at = 0; xme::ScopedDelegate<Fn> s(f); } } catch (const Thrown &) { th = true; } W.throw_at = -1; xs_check(th == (k == 2) && n == (k == 2 ? 0 : 1), "called once, or never if it was not created"); xs_check(W.live == 1, "the callable is destroyed"); }
  xs_check(W.live == 0 && W.ctors == W.dtors, "balanced");
}
// scopes left while other exceptions are in flight; callables kept, called and destroyed in place
template <int D> struct Deep { ~Deep() { bool th = false; int n0 = nl; try { Deep<D - 1> d; xme::ScopedDelegate s([] { log_[nl++] = D; }); throw Thrown{D}; } catch (const Thrown &e) { th = e.what == D; } xs_check(th, "the inner exception is caught inside"); xs_check(nl > n0 && log_[n0] == (u32)D, "called although exceptions are in flight"); } };
template <> struct Deep<0> { ~Deep() { log_[nl++] = 0; } };
XS_ENTRY(e_nested_unwind) { nl = 0; u32 x = xs_u32("x"); bool th = false; try { xme::ScopedDelegate o([x] { log_[nl++] = x; }); Deep<3> d; throw Thrown{9}; } catch (const Thrown &e) { th = e.what == 9; } xs_check(th, "passes"); xs_check(nl == 5 && log_[0] == 3 && log_[1] == 2 && log_[2] == 1 && log_[3] == 0 && log_[4] == x, "every scope calls its function once"); xs_reach("deep"); }
XS_ENTRY(e_in_handler) { nl = 0; u32 x = xs_u32("x"); try { throw Thrown{1}; } catch (const Thrown &) { { xme::ScopedDelegate s([x] { log_[nl++] = x; }); } xs_check(nl == 1 && log_[0] == x, "called in a handler"); } try { try { throw Thrown{1}; } catch (const Thrown &) { xme::ScopedDelegate s([x] { log_[nl++] = x + 1; }); throw; } } catch (const Thrown &) {} xs_check(nl == 2 && log_[1] == x + 1, "called when a handler rethrows"); xs_reach("handler"); }
struct Quiet { Trk t; long *seen; u32 *got; void operator()() { t.ok(); *seen = W.moves + W.copies; *got = t.v; } };
XS_ENTRY(e_in_place) { W.reset(); u32 x = xs_u32("x"), got = ~x; long seen = -1, made; { Quiet q{Trk(x), &seen, &got}; int k = xs_choice(0, 1, "rvalue"); if (k) { xme::ScopedDelegate<Quiet> s(std::move(q)); made = W.moves + W.copies; } else { xme::ScopedDelegate<Quiet> s(q); made = W.moves + W.copies; } xs_check(seen == made && got == x, "the stored callable itself is called"); } xs_check(W.live == 0 && W.ctors == W.dtors, "balanced"); xs_reach("in place"); }
struct OnlyRef { u32 *p; void operator()() & { *p += 1; } void operator()() && { *p += 100; } }; struct Const { u32 *p; void operator()() const { *p += 1; } }; struct Both { u32 *p; void operator()() { *p += 1; } void operator()() const { *p += 100; } }; struct Ret { u32 *p; std::unique_ptr<u32> operator()() { *p += 1; return std::make_unique<u32>(4u); } };
XS_ENTRY(e_callables) { u32 x = xs_u32("x"), y = x; uint64_t h0 = xs_live_heap(); switch (xs_choice(0, 7, "callable")) { case 0: { OnlyRef f{&y}; xme::ScopedDelegate s(f); break; } case 1: { xme::ScopedDelegate s(Const{&y}); break; } case 2: { xme::ScopedDelegate s(Ret{&y}); break; } case 3: { auto p = std::make_unique<u32>(1u); xme::ScopedDelegate s([&y, p = std::move(p)] { y += *p; }); break; } case 4: { auto *v = new xme::ScopedDelegate([&y] { y++; }); xs_check(y == x, "not called early"); delete v; break; } case 5: { u32 z[3] = {0, 0, 0}; { xme::ScopedDelegate s([z = &z[0]]() mutable { *z++ += 1; z[0] = 5; }); } xs_check(z[0] == 1 && z[1] == 5, "mutable state"); y++; break; } case 6: { Both f{&y}; if (xs_choice(0, 1, "rvalue")) { xme::ScopedDelegate<Both> s(std::move(f)); } else { xme::ScopedDelegate<Both> s(f); } xs_reach("not constant"); break; } case 7: { const Const f{&y}; xme::ScopedDelegate<const Const> s(f); xs_check(y == x, "not called early"); break; } } xs_check(y == x + 1, "called once"); xs_check(xs_live_heap() == h0, "captures are released"); }
