// @bounds alignments 1..64, 128, 256, 1024 and 4096 over 1..24 byte types, objects placed at every address that satisfies alignof(AlignedData); symbolic contents
#include "track.hpp"
#include <xme/container/aligned_data.hpp>
using namespace hx;
struct NoDef { u32 a; uint8_t b; NoDef(u32 x, uint8_t y) : a(x), b(y) {} };
struct Wide { uint64_t a[3]; };
template <typename T, std::size_t A> static void layout() {
  using D = xme::AlignedData<T, A>; static_assert(sizeof(D) >= sizeof(T)); std::size_t n = sizeof(D);
  xs_check(alignof(D) >= A && n % A == 0, "type alignment");
  auto *m = (unsigned char *)xs_malloc(3 * n, alignof(D)); auto *d = ::new ((void *)m) D[3];
  for (int i = 0; i < 3; i++) { xs_check((uintptr_t)d[i].data() % A == 0, "storage is aligned"); xs_check((void *)d[i].data() == d[i].address() && (const void *)std::as_const(d[i]).data() == std::as_const(d[i]).address() && (const void *)std::as_const(d[i]).data() == d[i].address(), "data and address agree");
    xs_check((unsigned char *)d[i].data() >= (unsigned char *)&d[i] && (unsigned char *)(d[i].data() + 1) <= (unsigned char *)(&d[i] + 1), "storage lies inside the object"); }
  xs_free(m, 3 * n);
}
XS_ENTRY(e_layout) { layout<uint8_t, 1>(); layout<u32, 4>(); layout<uint64_t, 8>(); layout<NoDef, 4>(); layout<Wide, 8>(); }
XS_ENTRY(e_overaligned) { layout<uint8_t, 16>(); layout<u32, 16>(); layout<u32, 64>(); layout<Wide, 32>(); layout<NoDef, 64>(); }
XS_ENTRY(e_large_alignments) { layout<uint8_t, 128>(); layout<u32, 256>(); layout<Wide, 1024>(); layout<NoDef, 4096>(); layout<std::array<uint8_t, 100>, 128>(); }
XS_ENTRY(e_construct) {
  u32 a = xs_u32("a"); uint8_t b = xs_u8("b"); xme::AlignedData<NoDef, 16> d(a, b); xs_check(d.data()->a == a && d.data()->b == b, "constructed from the arguments");
  xme::AlignedData<u32, 8> i(a); xs_check(*i.data() == a, "one argument"); *i.data() = 7; xs_check(*std::as_const(i).data() == 7, "writable");
  xme::AlignedData<u32, 8> k(i); xs_check(*k.data() == 7, "copies hold the value"); *i.data() = a; xs_check(*k.data() == 7, "copies are independent"); k = i; xs_check(*k.data() == a, "assignment copies"); const auto &ck = k; xme::AlignedData<u32, 8> l(ck); xs_check(*l.data() == a, "copy of a const object"); xme::AlignedData<u32, 8> n(std::move(k)); xs_check(*n.data() == a, "move of trivial data");
  xme::AlignedData<Wide> w(Wide{{a, b, 3}}); xs_check(w.data()->a[0] == a && w.data()->a[1] == b && w.data()->a[2] == 3, "aggregate");
}
XS_ENTRY(e_lifetime) {
  W.reset(); u32 a = xs_u32("a");
  { xme::AlignedData<Trk, 32> d; xs_check(W.ctors == 0, "default construction creates no element"); std::construct_at(d.data(), a); d.data()->ok(); xs_check(d.data()->v == a && W.live == 1, "constructed in place"); std::destroy_at(d.data()); xs_check(W.live == 0, "destroyed by the user"); }
  { xme::AlignedData<Trk> d(a); xs_check(W.live == 1 && d.data()->v == a, "constructed once"); d.data()->ok(); std::destroy_at(d.data()); }
  { xme::AlignedData<Trk> d; } xs_check(W.ctors == 1 + 1 && W.dtors == 2, "never destroys an element itself");
  Trk t(a); long c0 = W.copies, m0 = W.moves; { xme::AlignedData<Trk> d(t); xs_check(W.copies == c0 + 1, "lvalue argument is copied"); std::destroy_at(d.data()); } { xme::AlignedData<Trk> d(std::move(t)); xs_check(W.moves == m0 + 1 && W.copies == c0 + 1, "rvalue argument is moved"); std::destroy_at(d.data()); }
}
XS_ENTRY(e_throw) { // exceptions of T's constructor reach the caller, nothing is constructed
  W.reset(); u32 a = xs_u32("a"); bool th = false; { Trk t(a); int k = xs_choice(0, 1, "argument"), f = xs_choice(-1, 0, "fault"); W.ops = 0; W.throw_at = f; try { if (k == 0) { xme::AlignedData<Trk> d(a); d.data()->ok(); std::destroy_at(d.data()); } else { xme::AlignedData<Trk, 32> d(t); d.data()->ok(); xs_check(d.data()->v == a, "copied"); std::destroy_at(d.data()); } } catch (const Thrown &) { th = true; } W.throw_at = -1; xs_check(th == (f >= 0), "the exception of the element's constructor is passed on"); xs_check(W.live == 1 && t.v == a, "nothing else is constructed or destroyed"); if (th) xs_reach("thrown"); }
  xs_check(W.live == 0 && W.ctors == W.dtors, "every element destroyed once");
}
// construction is T(args...), not a list of elements, also for explicit constructors and arguments of other types
#include <initializer_list>
#include <memory>
struct Lst { int how; u32 a, b; Lst(u32 x, u32 y) : how(1), a(x), b(y) {} Lst(std::initializer_list<u32> l) : how(2), a((u32)l.size()), b(0) {} explicit Lst(u32 x) : how(3), a(x), b(0) {} };
struct Exp { u32 v; explicit Exp(u32 x) : v(x) {} explicit Exp(const void *) : v(7) {} };
struct Ref { u32 &r; Ref(u32 &x) : r(x) {} };
XS_ENTRY(e_arguments) {
  u32 a = xs_u32("a"), b = xs_u32("b"); xme::AlignedData<Lst, 16> l(a, b); xs_check(l.data()->how == 1 && l.data()->a == a && l.data()->b == b, "two arguments select the two-argument constructor"); xme::AlignedData<Lst> one(a); xs_check(one.data()->how == 3 && one.data()->a == a, "one argument"); std::initializer_list<u32> il{a, b, a}; xme::AlignedData<Lst> li(il); xs_check(li.data()->how == 2 && li.data()->a == 3, "a list is passed as a list");
  xme::AlignedData<Exp> e(a); xs_check(e.data()->v == a, "explicit constructor"); xme::AlignedData<uint8_t> n(a); xs_check(*n.data() == (uint8_t)a, "converted argument"); xme::AlignedData<int64_t, 16> s((int32_t)a); xs_check(*s.data() == (int32_t)a, "converted argument keeps its sign"); u32 z = a; xme::AlignedData<Ref> r(z); xs_check(&r.data()->r == &z, "reference argument"); xme::AlignedData<std::unique_ptr<u32>> u(new u32(a)); xs_check(**u.data() == a, "move-only type"); std::destroy_at(u.data()); xme::AlignedData<std::unique_ptr<u32>> u2(std::make_unique<u32>(b)); xs_check(**u2.data() == b, "move-only argument"); std::destroy_at(u2.data());
}
