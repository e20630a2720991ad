// @bounds every list of up to 3 (thorough: 4) lifetime-tracked elements, any one operation or any copy, move or assignment between two lists; lists of 12 and 40 (200) elements; every position of one thrown element operation or one refused allocation
// @assume user operations throw at most once per run and destructors never throw
#include "list_ops.hpp"
using namespace hx;
template <typename F> static bool faulty(F f) {
  int fault = xs_choice(-1, 11, "fault");
  if (fault >= 0 && fault <= 7) { W.ops = 0; W.throw_at = fault; } else if (fault > 7) xs_alloc_budget(fault - 8);
  bool thrown = false;
  try { f(); } catch (const Thrown &) { thrown = true; } catch (const std::bad_alloc &) { thrown = true; }
  W.throw_at = -1; xs_alloc_budget(-1); return thrown;
}
static long count(xme::LinkedList<Trk> &l) { long n = 0; for (auto &e : l) { e.ok(); n++; xs_check(n < 20, "list is finite"); } return n; }
static void op_life(int lo, int hi) {
  W.reset(); uint64_t h0 = xs_live_heap();
  { xme::LinkedList<Trk> l; Model m; any_list(l, m, QT(3, 4)); xs_check(W.live == m.n, "live elements"); one_op(l, m, lo, hi, 2); xs_check(W.live == m.n, "after an operation exactly the elements of the list are alive"); xs_check(count(l) == m.n, "count"); }
  xs_check(W.live == 0 && W.ctors == W.dtors, "every element is destroyed exactly once"); xs_check(xs_live_heap() == h0, "every node is released"); xs_reach("life");
}
XS_ENTRY(e_life_a) { op_life(L_PUSH, L_INSERT_RANGE); }
XS_ENTRY(e_life_b) { op_life(L_ERASE, L_LAST); }
XS_ENTRY(e_fault_ops) {
  W.reset(); uint64_t h0 = xs_live_heap();
  { xme::LinkedList<Trk> l; Model m; any_list(l, m, 2); u32 src[3] = {fresh(), fresh(), fresh()}; InIt<Trk>::Src s{src, src + 3}; Trk t(src[0]);
    int k = xs_choice(0, 6, "operation"); int p = (k >= 2 && k <= 4) ? xs_choice(-1, m.n - 1, "position") : 0; auto pos = at(l, p); xme::LinkedList<Trk> o; if (k == 6) { o.push_front(t); o.push_front(t); o.push_front(t); }
    bool thrown = faulty([&] { switch (k) {
      case 0: l.push_front(t); break;
      case 1: l.emplace_front(4u); break;
      case 2: l.insert_after(pos, t); break;
      case 3: l.insert_after(pos, src + 0, src + 3); break;
      case 4: l.insert_after(pos, InIt<Trk>{&s}, std::default_sentinel); break;
      case 5: l.assign(src + 0, src + 3); break;
      case 6: l = o; break;
    } });
    if (thrown && k <= 2) { same(l, m); xs_reach("single insertion fault"); }
    long n = count(l); xs_check(W.live == n + 1 + (k == 6 ? 3 : 0), "exactly the elements of the list are alive");
    if (thrown) { l.push_front(Trk(3)); xs_check(count(l) == n + 1, "usable afterwards"); } }
  xs_check(W.live == 0 && W.ctors == W.dtors && xs_live_heap() == h0, "nothing is leaked or destroyed twice");
}
XS_ENTRY(e_fault_ctors) {
  W.reset(); uint64_t h0 = xs_live_heap();
  { u32 src[3] = {fresh(), fresh(), fresh()}; InIt<Trk>::Src s{src, src + 3}; xme::LinkedList<Trk> o; Model m; any_list(o, m, 3); Trk t(1); long live0 = W.live; int k = xs_choice(0, 5, "constructor"); int n = k <= 2 ? xs_choice(0, 3, "n") : 3;
    bool thrown = faulty([&] { switch (k) {
      case 0: { xme::LinkedList<Trk> l((std::size_t)n); break; }
      case 1: { xme::LinkedList<Trk> l((std::size_t)n, t); break; }
      case 2: { xme::LinkedList<Trk> l(src + 0, src + n); break; }
      case 3: { xme::LinkedList<Trk> l(InIt<Trk>{&s}, std::default_sentinel); break; }
      case 4: { xme::LinkedList<Trk> l(std::as_const(o)); break; }
      case 5: { xme::LinkedList<Trk> l{t, t}; break; }
    } });
    xs_check(W.live == live0, "a failed construction leaves no element"); same(o, m); if (thrown) xs_reach("ctor fault"); }
  xs_check(W.live == 0 && W.ctors == W.dtors && xs_live_heap() == h0, "nothing is leaked or destroyed twice");
}
XS_ENTRY(e_long) { W.reset(); uint64_t h0 = xs_live_heap(); long_list<Trk>(xs_choice(0, 1, "length") ? QT(40, 200) : 12); xs_check(W.live == 0 && W.ctors == W.dtors && xs_live_heap() == h0, "everything is released exactly once"); }
// the special members between two lists of any small sizes
XS_ENTRY(e_special) {
  W.reset(); uint64_t h0 = xs_live_heap();
  { xme::LinkedList<Trk> a, b; Model m, q; any_list(a, m, QT(2, 3)); any_list(b, q, QT(2, 3)); Model e; long c0 = W.ctors;
    switch (xs_choice(0, 7, "operation")) {
    case 0: { xme::LinkedList<Trk> c(std::as_const(a)); same(c, m); same(a, m); xs_check(W.live == 2 * m.n + q.n, "a copy has its own elements"); break; }
    case 1: { xme::LinkedList<Trk> c(std::move(a)); same(c, m); same(a, e); xs_check(W.live == m.n + q.n && W.ctors == c0, "moving transfers the elements"); break; }
    case 2: { auto &r = (a = b); xs_check(&r == &a, "returns the target"); same(a, q); same(b, q); xs_check(W.live == 2 * q.n, "copy assignment destroys the old elements"); break; }
    case 3: { auto &r = (a = std::move(b)); xs_check(&r == &a, "returns the target"); same(a, q); xs_check(W.ctors == c0 && (W.live == q.n || W.live == q.n + m.n), "move assignment transfers the elements"); b.push_front(Trk(1)); break; }
    case 4: { xme::LinkedList<Trk> c(std::move(a)); a = std::move(b); b = std::move(c); same(a, q); same(b, m); xs_check(W.ctors == c0 && W.live == m.n + q.n, "swap transfers the elements"); break; }
    case 5: { auto &r = a; a = r; same(a, m); break; }
    case 6: { b.clear(); a = std::move(b); same(a, e); a.push_front(Trk(3)); break; }
    default: { xme::LinkedList<Trk> c(std::move(a)); a = std::move(c); same(a, m); same(c, e); c = a; same(c, m); } } }
  xs_check(W.live == 0 && W.ctors == W.dtors && xs_live_heap() == h0, "everything is released exactly once"); xs_reach("special");
}
