// @configs none, ndebug
// @bounds every (size, capacity) state with size <= 3 (thorough: 4) and capacity - size <= 2 of a lifetime-tracked element type, then any one operation; every 3-step (4-step) history; arrays of 17 to 128 (300) elements with one operation; heap blocks, object addresses and uninitialised bytes are tracked by the engine
#include "array_ops.hpp"
using namespace hx;
template <typename T> static void life(int lo, int hi) {
  W.reset(); uint64_t h0 = xs_live_heap();
  {
    xme::Array<T> a; Model m;
    any_state(a, m, QT(3, 4), 2);
    xs_check(W.live == m.n, "as many live elements as the size");
    one_op(a, m, lo, hi, QT(2, 3));
    xs_check(a.size() == (std::size_t)m.n, "size");
    xs_check(W.live == m.n, "after an operation exactly size elements are alive");
    for (int i = 0; i < m.n; i++) a[i].ok();
    a.emplace_back(1u); m.push(1);
    xs_check(W.live == m.n, "after growth exactly size elements are alive");
    for (int i = 0; i < m.n; i++) a[i].ok();
  }
  xs_check(W.live == 0 && W.ctors == W.dtors, "every element is destroyed exactly once");
  xs_check(xs_live_heap() == h0, "every block is released");
  xs_reach("life end");
}
XS_ENTRY(e_push) { life<Trk>(OP_PUSH, OP_PUSH_INPUT); }
XS_ENTRY(e_insert) { life<Trk>(OP_INSERT, OP_INSERT_INPUT); }
XS_ENTRY(e_other) { life<Trk>(OP_ERASE, OP_LAST); }
XS_ENTRY(e_other_mt) { life<TrkMT>(OP_PUSH, OP_LAST); }
static const int hist[] = {OP_PUSH, OP_INSERT_SELF, OP_INSERT_RANGE, OP_ERASE, OP_POP, OP_CLEAR, OP_RESIZE, OP_PUSH_ITERS};
XS_ENTRY(e_hist) {
  W.reset(); uint64_t h0 = xs_live_heap();
  { xme::Array<Trk> a; Model m;
    for (int s = 0; s < QT(3, 4); s++) { int o = hist[xs_choice(0, 7, "kind")]; one_op(a, m, o, o, 2); xs_check(W.live == m.n, "after each operation exactly size elements are alive"); } }
  xs_check(W.live == 0 && xs_live_heap() == h0, "everything is released");
}
XS_ENTRY(e_special) {
  W.reset(); uint64_t h0 = xs_live_heap();
  { xme::Array<Trk> a, b; Model m, q;
    any_state(a, m, 2, 1); any_state(b, q, 2, 1);
    switch (xs_choice(0, 6, "operation")) {
    case 0: { xme::Array<Trk> c(a); xs_check(W.live == 2 * m.n + q.n, "a copy has its own elements"); break; }
    case 1: { long c0 = W.ctors; xme::Array<Trk> c(std::move(a)); xs_check(W.live == m.n + q.n && W.ctors == c0, "moving transfers the elements"); break; }
    case 2: a = b; xs_check(W.live == 2 * q.n, "copy assignment"); break;
    case 3: a = std::move(b); xs_check(W.live == q.n || W.live == q.n + m.n, "move assignment"); break;
    case 4: a.swap(b); xs_check(W.live == m.n + q.n, "swap"); break;
    case 5: { auto &r = a; a = r; xs_check(W.live == m.n + q.n, "self copy assignment"); break; }
    case 6: { xme::Array<Trk> c((std::size_t)xs_choice(0, 3, "fill"), Trk(4)); break; }
    } }
  xs_check(W.live == 0 && W.ctors == W.dtors && xs_live_heap() == h0, "everything is released exactly once");
  xs_reach("special end");
}
XS_ENTRY(e_move_only) {
  W.reset(); uint64_t h0 = xs_live_heap();
  { xme::Array<MoveOnly> a; int n = xs_choice(0, QT(4, 5), "size"); u32 v[5];
    for (int i = 0; i < n; i++) { v[i] = fresh(); a.push_back(MoveOnly(v[i])); }
    for (int i = 0; i < n; i++) xs_check(raw(a[i]) == v[i], "move-only contents");
    if (n) { int p = xs_choice(0, n - 1, "position"); a.erase(a.begin() + p); for (int i = 0; i + 1 < n; i++) xs_check(raw(a[i]) == v[i < p ? i : i + 1], "move-only contents after erase"); }
    int p = xs_choice(0, (int)a.size(), "insert"); u32 x = fresh(); a.insert(a.begin() + p, MoveOnly(x)); xs_check(raw(a[p]) == x, "move-only insert");
    xs_check(W.live == (long)a.size(), "live"); }
  xs_check(W.live == 0 && W.ctors == W.dtors && xs_live_heap() == h0, "everything is released exactly once");
}
static const int longs[] = {17, 33, 65, 128, 257, 300};
XS_ENTRY(e_long) {
  W.reset(); uint64_t h0 = xs_live_heap(); int n0 = longs[xs_choice(0, QT(3, 5), "length")]; long_op<Trk>(n0, xs_choice(0, 1, "tight"), [](int n) { xs_check(W.live == n, "exactly size elements are alive"); });
  xs_check(W.live == 0 && W.ctors == W.dtors && xs_live_heap() == h0, "everything is released exactly once");
}
