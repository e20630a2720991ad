// @bounds delegates over plain functions, member functions and members, captureless/small/large (up to 5000 words)/over-aligned/non-trivial/list-constructible functors, copies and moves; symbolic arguments and captured state; every history of 3 (thorough: 4) construct/assign/copy/move/swap/clear/call steps over three delegates
#include "track.hpp"
#include <xme/core/functional/delegate.hpp>
using namespace hx;
static u32 fsub(u32 a, u32 b) { return a - 3 * b; }
static u32 fadd(u32 a, u32 b) { return a + 5 * b; }
using D = xme::Delegate<u32(u32, u32)>;
struct Obj { u32 k; u32 m(u32 x) { return k += x; } u32 cm(u32 x) const { return k ^ x; } };
struct Big { u32 a[10]; u32 operator()(u32 x, u32 y) const { return a[0] * x + a[9] * y + a[5]; } };
struct Exact { uint64_t a, b; u32 operator()(u32 x, u32 y) const { return (u32)(a * x - b * y); } };
struct Over { uint64_t a, b, c; u32 operator()(u32 x, u32 y) const { return (u32)(a * x - b * y + c); } };
struct alignas(32) Aligned { u32 a; u32 operator()(u32 x, u32 y) const { xs_check((uintptr_t)this % 32 == 0, "functor is aligned"); return a + x + y; } };
struct NonTriv { Val a; NonTriv(u32 x) : a(x) {} u32 operator()(u32 x, u32 y) const { return a.v + x - y; } };
struct SelfRef { u32 v; const u32 *p; SelfRef(u32 x) : v(x), p(&v) {} SelfRef(const SelfRef &o) : v(o.v), p(&v) {} u32 operator()(u32 x, u32) const { xs_check(p == &v, "functor is copied, not relocated bytewise"); return *p + x; } };
XS_ENTRY(e_kinds) {
  u32 x = xs_u32("x"), y = xs_u32("y"), k = xs_u32("k"), l = xs_u32("l");
  D f(&fsub); xs_check((bool)f && f(x, y) == fsub(x, y), "function pointer"); D g(fadd); xs_check(g(x, y) == fadd(x, y), "function name");
  D h([](u32 a, u32 b) { return a ^ b; }); xs_check(h(x, y) == (x ^ y), "captureless"); D s([k](u32 a, u32 b) { return a + k * b; }); xs_check(s(x, y) == x + k * y, "small capture");
  Big b{}; b.a[0] = k; b.a[9] = l; b.a[5] = 7; D d(b); xs_check(d(x, y) == k * x + l * y + 7, "large functor"); D e(Exact{k, l}); xs_check(e(x, y) == (u32)(k * x - l * y), "functor that fills the local storage"); D o(Over{k, l, 9}); xs_check(o(x, y) == (u32)(k * x - l * y + 9), "functor one word too large"); D al(Aligned{{k}}); xs_check(al(x, y) == k + x + y, "over-aligned"); D nt(NonTriv{k}); xs_check(nt(x, y) == k + x - y, "non-trivial"); D sr(SelfRef{k}); xs_check(sr(x, y) == k + x, "self-referential"); D sr2(sr); xs_check(sr2(x, y) == k + x, "copy of a self-referential functor"); D sr3(std::move(sr)); sr3.swap(sr2); xs_check(sr3(x, y) == k + x && sr2(x, y) == k + x, "moved and swapped"); const auto lam = [l](u32 a, u32 b) { return a - b + l; }; D cl(lam); xs_check(cl(x, y) == x - y + l, "const lvalue functor"); auto mut = [k](u32 a, u32 b) mutable { return k += a + b; }; D ml(mut); xs_check(ml(x, y) == k + x + y && ml(x, y) == k + 2 * (x + y), "mutable state is kept by the delegate"); xs_check(mut(x, y) == k + x + y, "the original functor is untouched");
  const D cd(fsub); xs_check(cd(x, y) == fsub(x, y), "const delegate"); D ded = xme::Delegate(&fadd); xs_check(ded(x, y) == fadd(x, y), "deduction");
}
XS_ENTRY(e_members) {
  u32 k = xs_u32("k"), x = xs_u32("x"); Obj ob{k}; xme::Delegate<u32(Obj &, u32)> m(&Obj::m); xs_check(m(ob, x) == k + x && ob.k == k + x, "member function acts on the object"); xme::Delegate<u32(const Obj &, u32)> c(&Obj::cm); xs_check(c(ob, x) == ((k + x) ^ x), "const member function"); xme::Delegate<u32(Obj *, u32)> p(&Obj::cm); xs_check(p(&ob, x) == ((k + x) ^ x), "through a pointer"); xme::Delegate<u32 &(Obj &)> d(&Obj::k); xs_check(&d(ob) == &ob.k, "data member");
  u32 (Obj::*null)(u32) = nullptr; xme::Delegate<u32(Obj &, u32)> n(null); xs_check(!n, "null member pointer makes an empty delegate"); u32 (*nf)(u32, u32) = nullptr; D e(nf); xs_check(!e, "null function pointer makes an empty delegate"); bool th = false; try { e(1, 2); } catch (const std::bad_function_call &) { th = true; } xs_check(th, "calling an empty delegate throws");
}
// functors that can also be built from a list of themselves: a copy is a copy
template <typename Pad> struct Listed { u32 a; Pad pad{}; explicit Listed(u32 x) : a(x) {} Listed(std::initializer_list<Listed> l) : a(0) { for (auto &x : l) a += x.a + 1; } u32 operator()(u32 x, u32 y) const { return a + x * y; } };
template <typename Pad> static void listed() { u32 k = xs_u32("k"), x = xs_u32("x"), y = xs_u32("y"); Listed<Pad> l(k); D d(l), e(d), f; f = e; D g(std::move(d)); g = Listed<Pad>(k); xs_check(e(x, y) == k + x * y && f(x, y) == k + x * y && g(x, y) == k + x * y, "copies of the functor are held"); xs_reach("listed"); }
XS_ENTRY(e_listed) { if (xs_choice(0, 1, "size")) listed<u32>(); else listed<std::array<u32, 9>>(); }
// very large functors, at the sizes of a cache line, a page and beyond
template <std::size_t N> struct Huge { u32 a[N]; Huge() { for (auto &x : a) x = 0; } u32 operator()(u32 x, u32 y) const { return a[0] * x + a[N - 1] * y + a[N / 2]; } };
template <std::size_t N> static void huge() {
  u32 k = xs_u32("k"), l = xs_u32("l"), x = xs_u32("x"), y = xs_u32("y"); Huge<N> b; b.a[0] = k; b.a[N / 2] = l; b.a[N - 1] = k + l; u32 want = b(x, y); D d(b); xs_check(d(x, y) == want, "called"); b.a[0] = 0; b.a[N - 1] = 1; xs_check(d(x, y) == want, "a copy of the functor is held"); D e(d); D f(&fsub); f = d; xs_check(e(x, y) == want && f(x, y) == want, "copies");
  auto *h = d.handle<Huge<N>>(), *i = e.handle<Huge<N>>(); xs_check(h && i && h != i, "copies are independent"); const_cast<Huge<N> *>(h)->a[N / 2] += 5; xs_check(e(x, y) == want && d(x, y) == want + 5, "copies are independent"); D g(std::move(d)); xs_check(g(x, y) == want + 5, "moved"); g.swap(e); xs_check(g(x, y) == want && e(x, y) == want + 5, "swapped"); xs_reach("huge");
}
XS_ENTRY(e_huge) { switch (xs_choice(0, 4, "size")) { case 0: huge<16>(); break; case 1: huge<64>(); break; case 2: huge<300>(); break; case 3: huge<1200>(); break; default: huge<5000>(); } }
XS_ENTRY(e_args) {
  W.reset(); { u32 a = xs_u32("a"); Trk t(a); xme::Delegate<u32(Trk &)> r([](Trk &x) { x.v++; return x.v; }); xs_check(r(t) == a + 1 && t.v == a + 1 && W.copies == 0 && W.moves == 0, "reference argument is not copied"); xme::Delegate<u32(Trk)> v([](Trk x) { return x.v; }); xs_check(v(t) == a + 1 && W.copies == 1, "a by-value argument is copied once"); xme::Delegate<u32(Trk &&)> mv([](Trk &&x) { Trk y(std::move(x)); return y.v; }); xs_check(mv(std::move(t)) == a + 1 && t.v == 0xdead && W.copies == 1, "rvalue argument is moved"); xme::Delegate<Trk(u32)> ret([](u32 x) { return Trk(x); }); Trk q = ret(a); xs_check(q.v == a && W.copies == 1, "result is returned without copies"); u32 hit = 0; xme::Delegate<void(u32)> vd([&](u32 x) { hit = x; }); vd(a); xs_check(hit == a, "void result"); xme::Delegate<void()> none([&] { hit++; }); none(); xs_check(hit == a + 1, "no arguments"); xme::Delegate<u32(MoveOnly)> mo([](MoveOnly m) { return m.v; }); xs_check(mo(MoveOnly(a)) == a, "move-only argument"); }
  xs_check(W.live == 0, "balanced");
}
XS_ENTRY(e_throwing_target) { D d([](u32 a, u32) -> u32 { if (a > 5) throw Thrown{(int)a}; return a; }); u32 a = xs_u32("a"); bool th = false; u32 r = 0; try { r = d(a, 1); } catch (const Thrown &t) { th = true; xs_check((u32)t.what == a, "exception value"); } xs_check(th == (a > 5) && (th || r == a), "exceptions of the target pass through"); xs_check((bool)d && d(3, 1) == 3, "usable afterwards"); xs_reach(th ? "thrown" : "returned"); }
XS_ENTRY(e_handle) {
  u32 k = xs_u32("k"); Big b{}; b.a[0] = k; D d(b); auto *h = d.handle<Big>(); xs_check(h && h != &b && h->a[0] == k, "handle to a large functor"); xs_check(!d.handle<Exact>() && !d.handle<Over>(), "handle of another type is null"); D e(Exact{k, 2}); auto *q = e.handle<Exact>(); xs_check(q && q->a == k && (const void *)q >= (const void *)&e && (const void *)q < (const void *)(&e + 1), "handle to a small functor lies in the delegate"); D n(NonTriv{k}); xs_check(n.handle<NonTriv>() && n.handle<NonTriv>()->a.v == k, "handle to a non-trivial functor"); D emp; xs_check(!emp.handle<Big>() && !emp, "handle of an empty delegate is null"); D f(&fsub); auto *fp = f.handle<u32 (*)(u32, u32)>(); xs_check(fp && *fp == &fsub, "handle to a function pointer"); D c(d); xs_check(c.handle<Big>() && c.handle<Big>() != h && c.handle<Big>()->a[0] == k, "a copy holds its own functor");
}
// histories over three delegates; model: which target and state each holds
XS_ENTRY(e_history) {
  D d[3]; int kind[3] = {0, 0, 0}; u32 st[3] = {};
  auto expect = [&](int i, u32 x, u32 y) { switch (kind[i]) { case 1: return fsub(x, y); case 2: return x + st[i] * y; case 3: return st[i] * x + 7 * y + 1; default: return st[i] + x - y; } };
  for (int s = 0; s < QT(3, 4); s++) {
    int i = s == 0 ? 0 : xs_choice(0, 2, "delegate");
    switch (xs_choice(s == 0 ? 1 : 0, 8, "operation")) {
    case 0: d[i] = nullptr; kind[i] = 0; break;
    case 1: d[i] = &fsub; kind[i] = 1; break;
    case 2: { u32 k = xs_u32("k"); d[i] = [k](u32 a, u32 b) { return a + k * b; }; kind[i] = 2; st[i] = k; break; }
    case 3: { Big b{}; b.a[0] = xs_u32("k"); b.a[9] = 7; b.a[5] = 1; d[i] = b; kind[i] = 3; st[i] = b.a[0]; break; }
    case 4: { u32 k = xs_u32("k"); d[i] = NonTriv(k); kind[i] = 4; st[i] = k; break; }
    case 5: { int j = xs_choice(0, 1, "source"); d[i] = d[j]; kind[i] = kind[j]; st[i] = st[j]; break; }
    case 6: { int j = xs_choice(0, 1, "source"); if (j == i) xs_stop_path(); d[i] = std::move(d[j]); kind[i] = kind[j]; st[i] = st[j]; if (d[j]) xs_check(false, "a moved-from delegate is empty"); kind[j] = 0; break; }
    case 7: { int j = xs_choice(0, 1, "other"); d[i].swap(d[j]); std::swap(kind[i], kind[j]); std::swap(st[i], st[j]); break; }
    case 8: { int j = xs_choice(0, 1, "source"); D c(d[j]); d[i] = std::move(c); kind[i] = kind[j]; st[i] = st[j]; xs_check(!c, "moved-from delegate is empty"); break; }
    }
    if (s >= 1) for (int q = 0; q < 3; q++) xs_check((bool)d[q] == (kind[q] != 0), "empty exactly when it holds no target");
  }
  u32 x = xs_u32("x"), y = xs_u32("y");
  for (int q = 0; q < 3; q++) if (kind[q]) { u32 r = d[q](x, y); xs_check(r == expect(q, x, y), "calls its own target"); xs_obs_u64("r", r); } else { bool th = false; try { d[q](x, y); } catch (const std::bad_function_call &) { th = true; } xs_check(th, "calling an empty delegate throws"); }
  xs_reach("history");
}
// functors of every alignment, in delegates at every address a delegate may have
template <std::size_t A> struct alignas(A) AlT { u32 a; u32 operator()(u32 x) const { xs_check((uintptr_t)this % A == 0, "the functor is aligned as its type requires"); return a + x; } };
template <std::size_t A> static void aligned_at() {
  using E = xme::Delegate<u32(u32)>; alignas(64) static unsigned char raw[2][sizeof(E) + 128]; int i = xs_choice(0, (int)(64 / alignof(E)) - 1, "address"), j = xs_choice(0, 1, "other"); u32 k = xs_u32("k"), x = xs_u32("x");
  E *p = ::new ((void *)(raw[0] + i * alignof(E))) E(AlT<A>{k}), *q = ::new ((void *)(raw[1] + j * alignof(E))) E(*p); xs_check((*p)(x) == k + x && (*q)(x) == k + x, "called"); E *m = q; if (j == 0) { q->~E(); m = ::new ((void *)raw[1]) E; }
  *m = std::move(*p); xs_check(!*p && (*m)(x) == k + x, "moved"); m->swap(*p); xs_check(!*m && (*p)(x) == k + x, "swapped"); auto *h = p->template handle<AlT<A>>(); xs_check(h && (uintptr_t)h % A == 0 && h->a == k, "the handle is aligned"); p->~E(); m->~E(); xs_reach("aligned");
}
XS_ENTRY(e_aligned) { switch (xs_choice(0, 4, "alignment")) { case 0: aligned_at<4>(); break; case 1: aligned_at<8>(); break; case 2: aligned_at<16>(); break; case 3: aligned_at<32>(); break; default: aligned_at<64>(); } }
