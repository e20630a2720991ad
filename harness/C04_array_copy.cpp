// @bounds two arrays with size <= 3 (thorough: 4), capacity - size <= 1, symbolic contents; any of copy/move construction and assignment, swap, then one arbitrary change to either side
#include "array_ops.hpp"
using namespace hx;
template <typename T> static void run() {
  xme::Array<T> a, b; Model m, q; any_state(a, m, QT(3, 4), 1); any_state(b, q, QT(3, 4), 1);
  auto ca = a.capacity(), cb = b.capacity(); auto pa = a.data(), pb = b.data();
  int k = xs_choice(0, 8, "operation");
  auto poke = [&](xme::Array<T> &x, Model &mx, xme::Array<T> &y, Model &my) {
    if (xs_choice(0, 1, "which")) { u32 v = fresh(); if (mx.n && xs_choice(0, 1, "write")) { x[0] = T(v); mx.d[0] = v; } else { x.insert(x.begin(), T(v)); mx.insert(0, v); } }
    else { u32 v = fresh(); if (my.n) { y[my.n - 1] = T(v); my.d[my.n - 1] = v; y.erase(y.begin()); my.erase(0); } else { y.push_back(T(v)); my.push(v); } }
    same(x, mx); same(y, my);
  };
  switch (k) {
  case 0: { xme::Array<T> c(a); Model mc = m; same(c, mc); same(a, m); poke(a, m, c, mc); xs_reach("copy"); break; }
  case 1: { xme::Array<T> c(std::move(a)); same(c, m); xs_check(c.capacity() == ca && c.data() == pa, "the storage is transferred"); Model e; same(a, e); poke(a, e, c, m); xs_reach("move"); break; }
  case 2: { auto &r = (a = b); xs_check(&r == &a, "assignment returns the target"); Model mc = q; same(a, mc); same(b, q); poke(a, mc, b, q); break; }
  case 3: { auto &r = (a = std::move(b)); xs_check(&r == &a, "assignment returns the target"); same(a, q); xs_check(a.capacity() == cb && a.data() == pb, "the storage is transferred"); Model e; same(b, e); poke(a, q, b, e); break; }
  case 4: { a.swap(b); same(a, q); same(b, m); xs_check(a.capacity() == cb && b.capacity() == ca && a.data() == pb && b.data() == pa, "swap exchanges the storages"); poke(a, q, b, m); xs_reach("swap"); break; }
  case 5: { auto &r = a; a = r; same(a, m); poke(a, m, b, q); break; }
  case 6: { a.swap(a); same(a, m); break; }
  case 7: { auto &r = a; auto &t = (a = std::move(r)); xs_check(&t == &a && a.data() == pa && a.capacity() == ca, "self-move changes nothing"); same(a, m); poke(a, m, b, q); xs_reach("self-move"); break; }
  case 8: { using std::swap; swap(a, b); same(a, q); same(b, m); swap(a, a); same(a, q); poke(a, q, b, m); break; }
  }
}
XS_ENTRY(e_int) { run<u32>(); }
XS_ENTRY(e_val) { run<Val>(); }
