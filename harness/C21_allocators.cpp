// @configs none, ndebug
// @bounds two arrays with different allocators, sizes 0..3 (thorough 0..4), spare 0..1, every history of 2 (thorough 3) operations out of 13; lists of up to 3 (thorough 4) nodes and histories of 3 operations, with stateless and with propagating stateful allocators; queues of capacity 2, 4 and 8
#include "track.hpp"
#include <xme/container/heap.hpp>
#include <xme/container/linked_list.hpp>
#include <xme/container/spsc_queue.hpp>
using namespace hx;
// Every block is registered with its length and the identity of the allocator that provided it, every element with the identity of the allocator that constructed it.
struct Book {
  struct B { void *p; std::size_t n; int id; std::size_t sz; }; struct E { void *p; int id; }; B b[64]; int nb = 0; E e[128]; int ne = 0; long allocs = 0, used[4] = {};
  void take(void *p, std::size_t n, int id, std::size_t sz) { b[nb++] = {p, n, id, sz}; allocs++; used[id]++; }
  void give(void *p, std::size_t n, int id, std::size_t sz) {
    for (int i = 0; i < nb; i++) if (b[i].p == p) { xs_check(b[i].n == n, "released with the size it was allocated with"); xs_check(b[i].id == id, "released through the allocator it came from"); xs_check(b[i].sz == sz, "released as the type it was allocated for");
      for (int k = 0; k < ne; k++) xs_check((char *)e[k].p < (char *)p || (char *)e[k].p >= (char *)p + n * sz, "no element is left in a released block"); b[i] = b[--nb]; return; }
    xs_check(false, "released block was not allocated");
  }
  void born(void *p, int id) { e[ne++] = {p, id}; bool in = false; for (int i = 0; i < nb; i++) if (b[i].id == id && (char *)p >= (char *)b[i].p && (char *)p < (char *)b[i].p + b[i].n * b[i].sz) in = true; xs_check(in, "constructed inside a block of the same allocator"); }
  void dead(void *p, int id) { for (int i = 0; i < ne; i++) if (e[i].p == p) { xs_check(e[i].id == id, "destroyed through the allocator that constructed it"); e[i] = e[--ne]; return; } xs_check(false, "destroyed element was not constructed through an allocator"); }
  void reset() { nb = ne = 0; allocs = 0; for (auto &u : used) u = 0; }
};
static Book K;
// Stateful, propagates on swap, constructs and destroys.
template <typename T> struct Id {
  using value_type = T; using size_type = std::size_t; using difference_type = std::ptrdiff_t; using propagate_on_container_swap = std::true_type; using is_always_equal = std::false_type;
  int id; Id(int i = 0) : id(i) {} template <typename U> Id(const Id<U> &o) : id(o.id) {}
  T *allocate(std::size_t n) { T *p = (T *)xs_malloc(n * sizeof(T), alignof(T)); K.take(p, n, id, sizeof(T)); return p; }
  void deallocate(T *p, std::size_t n) { K.give(p, n, id, sizeof(T)); xs_free(p, n * sizeof(T)); }
  template <typename U, typename... A> void construct(U *p, A &&...a) { ::new ((void *)p) U(std::forward<A>(a)...); K.born(p, id); }
  template <typename U> void destroy(U *p) { K.dead(p, id); p->~U(); }
  bool operator==(const Id &o) const { return id == o.id; }
};
// Stateless, does not propagate, no construct and destroy.
template <typename T> struct Plain {
  using value_type = T; using size_type = std::size_t; using difference_type = std::ptrdiff_t; Plain() = default; template <typename U> Plain(const Plain<U> &) {}
  T *allocate(std::size_t n) { T *p = (T *)xs_malloc(n * sizeof(T), alignof(T)); K.take(p, n, 0, sizeof(T)); return p; }
  void deallocate(T *p, std::size_t n) { K.give(p, n, 0, sizeof(T)); xs_free(p, n * sizeof(T)); }
  bool operator==(const Plain &) const { return true; }
};
template <typename A> static void same(const A &a, const Model &m) { xs_check((int)a.size() == m.n, "size"); for (int i = 0; i < m.n && i < (int)a.size(); i++) { a[i].ok(); xs_check(a[i].v == m.d[i], "value"); } }
static void start() { K.reset(); W.reset(); }
static void finish(uint64_t h0) { xs_check(K.nb == 0, "every block is released"); xs_check(K.ne == 0, "every element is destroyed through an allocator"); xs_check(W.live == 0 && xs_live_heap() == h0, "nothing is left"); }
using A = xme::Array<Trk, Id<Trk>>;
template <typename A, typename T = typename A::value_type> static void fill(A &a, Model &m, int cap, const char *nm) { int n = xs_choice(0, cap, nm); for (int i = 0; i < n; i++) { u32 x = xs_u32("x"); a.push_back(T(x)); m.push(x); } int sp = xs_choice(0, 1, "spare"); a.resize(n + sp); }
template <typename A, typename T = typename A::value_type> static void op(int o, A &a, A &b, Model &ma, Model &mb) {
  u32 x = xs_u32("x"), s[2] = {x, x + 1};
  switch (o) {
  case 0: a.push_back(T(x)); ma.push(x); break;
  case 1: { int p = ma.n ? xs_choice(0, 1, "end") * ma.n : 0; a.insert(a.begin() + p, T(x)); ma.insert(p, x); break; }
  case 2: if (ma.n) { a.erase(a.begin()); ma.erase(0); } break;
  case 3: a.reserve(ma.n + 2); break;
  case 4: { int k = xs_choice(0, 1, "to"); a.resize(k); ma.trunc(k); break; }
  case 5: a.clear(); ma.n = 0; break;
  case 6: a = b; ma = mb; break;
  case 7: a = std::move(b); ma = mb; mb.n = 0; xs_check(b.size() == 0, "the source of a move is empty"); break;
  case 8: { a.swap(b); Model t = ma; ma = mb; mb = t; break; }
  case 9: a = {T(x), T(x + 1)}; ma.n = 0; ma.push(x); ma.push(x + 1); break;
  case 10: { A c(a); same(c, ma); c.push_back(T(x)); b.swap(c); Model t = ma; t.push(x); mb = t; break; }
  case 11: { A c(std::move(a)); same(c, ma); c.push_back(T(x)); a.swap(c); ma.push(x); break; }
  case 12: { int p = xs_choice(0, 1, "end") * ma.n; a.insert(a.begin() + p, s, s + 2); ma.insert(p, s, 2); break; }
  }
}
XS_ENTRY(e_histories) {
  start(); uint64_t h0 = xs_live_heap(); {
    A a{Id<Trk>(1)}, b{Id<Trk>(2)}; Model ma, mb; { int n = xs_choice(0, QT(2, 3), "a"); for (int i = 0; i < n; i++) { u32 x = xs_u32("x"); a.push_back(Trk(x)); ma.push(x); } if (xs_choice(0, 1, "b")) { b.push_back(Trk(7)); mb.push(7); } }
    for (int k = 0; k < QT(2, 3); k++) { int o = xs_choice(0, 12, "op"); if (k && xs_choice(0, 1, "other")) op(o, b, a, mb, ma); else op(o, a, b, ma, mb); }
    same(a, ma); same(b, mb); xs_reach("done");
    a.push_back(Trk(1)); b.push_back(Trk(2)); ma.push(1); mb.push(2); same(a, ma); same(b, mb);
  } finish(h0);
}
template <typename T> static void each() { using A = xme::Array<T, Id<T>>;
  start(); uint64_t h0 = xs_live_heap(); {
    A a{Id<T>(1)}, b{Id<T>(2)}; Model ma, mb; fill(a, ma, QT(3, 4), "a"); fill(b, mb, QT(2, 3), "b"); int o = xs_choice(0, 12, "op"); op(o, a, b, ma, mb); same(a, ma); same(b, mb); a.push_back(T(1)); b.push_back(T(2)); ma.push(1); mb.push(2); same(a, ma); same(b, mb);
  } finish(h0);
}
XS_ENTRY(e_each) { each<Trk>(); }
// elements with a trivial destructor and trivial copies
struct Triv { u32 v; Triv(u32 x) : v(x) {} void ok() const {} };
static_assert(std::is_trivially_copyable_v<Triv> && std::is_trivially_destructible_v<Triv>);
XS_ENTRY(e_each_trivial) { each<Triv>(); }
XS_ENTRY(e_self) { start(); uint64_t h0 = xs_live_heap(); { A a{Id<Trk>(1)}; Model m; fill(a, m, 3, "a"); int o = xs_choice(0, 1, "op"); if (o) { a.swap(a); same(a, m); } else { A &r = a; a = r; same(a, m); } a.push_back(Trk(4)); m.push(4); same(a, m); } finish(h0); }
// an allocator given to a constructor provides the storage, then and later
XS_ENTRY(e_constructors) {
  start(); uint64_t h0 = xs_live_heap(); { u32 x = xs_u32("x"); u32 d[3] = {x, x + 1, x + 2}; int n = xs_choice(0, 3, "n"), w = xs_choice(0, 7, "constructor"); Id<Trk> al(3); Model m; Trk t(x), ini[3] = {Trk(d[0]), Trk(d[1]), Trk(d[2])};
    auto rest = [&](A &a) { same(a, m); a.push_back(Trk(9)); m.push(9); same(a, m); xs_check(K.used[3] == K.allocs && K.allocs > 0, "all storage comes from the given allocator"); xs_reach("constructed"); };
    switch (w) {
    case 0: { A a(al); rest(a); break; }
    case 1: { A a((std::size_t)n, al); xs_check(a.capacity() == (std::size_t)n, "capacity"); rest(a); break; }
    case 2: { A a((std::size_t)n, t, al); for (int i = 0; i < n; i++) m.push(x); rest(a); break; }
    case 3: { A a({Trk(d[0]), Trk(d[1])}, al); m.push(d[0]); m.push(d[1]); rest(a); break; }
    case 4: { A a(ini + 0, ini + n, al); for (int i = 0; i < n; i++) m.push(d[i]); rest(a); break; }
    case 5: { InIt<Trk>::Src s{d, d + n}; A a(InIt<Trk>{&s}, std::default_sentinel, al); for (int i = 0; i < n; i++) m.push(d[i]); rest(a); break; }
    case 6: { BiList<Trk> l; for (int i = 0; i < n; i++) { l.emplace_back(d[i]); m.push(d[i]); } A a(l.begin(), l.end(), al); rest(a); break; }
    case 7: { std::ranges::subrange<Trk *> r(ini + 0, ini + n); for (int i = 0; i < n; i++) m.push(d[i]); A a(r, al); rest(a); break; }
    }
  } finish(h0);
}
// one failing element operation: blocks and elements still go back where they came from
XS_ENTRY(e_failing) {
  start(); uint64_t h0 = xs_live_heap(); { A a{Id<Trk>(1)}, b{Id<Trk>(2)}; Model ma, mb; fill(a, ma, 2, "a"); b.push_back(Trk(7)); mb.push(7); int o = xs_choice(0, 12, "op"); if (o == 7 || o == 8) xs_stop_path(); int f = xs_choice(0, 5, "fault"); bool th = false; W.ops = 0; W.throw_at = f; try { op(o, a, b, ma, mb); } catch (const Thrown &) { th = true; } W.throw_at = -1; if (th) xs_reach("thrown"); else { same(a, ma); same(b, mb); } } finish(h0);
}
// relocation fails: the new block goes back with the size it was requested with
template <typename T> struct MvT : Trk { using Trk::Trk; MvT(const MvT &) = delete; MvT(MvT &&o) noexcept(false) : Trk((W.may_throw(), std::move(o))) {} MvT &operator=(MvT &&o) noexcept(false) { W.may_throw(); Trk::operator=(std::move(o)); return *this; } };
template <typename T, bool CopyAssign> static void relocating() {
  start(); uint64_t h0 = xs_live_heap(); { xme::Array<T, Id<T>> a{Id<T>(1)}; int n = xs_choice(0, 3, "n"); if (xs_choice(0, 1, "spare")) a.reserve(n + 1); for (int i = 0; i < n; i++) a.emplace_back(xs_u32("x")); int o = xs_choice(0, CopyAssign ? 6 : 4, "op"), f = xs_choice(0, 5, "fault"); bool th = false; W.ops = 0; W.throw_at = f;
    try { switch (o) { case 0: a.emplace_back(1u); break; case 1: a.insert(a.begin(), T(2u)); break; case 2: a.reserve(n + 3); break; case 3: a.resize(xs_choice(0, 4, "to")); break; case 4: if (n) a.erase(a.begin()); break;
      case 5: if constexpr (CopyAssign) { T s[2] = {T(1u), T(2u)}; a.insert(a.begin(), s, s + 2); } break; case 6: if constexpr (CopyAssign) { xme::Array<T, Id<T>> b(a); a = b; } break; } } catch (const Thrown &) { th = true; }
    W.throw_at = -1; if (th) xs_reach("thrown"); a.clear(); a.emplace_back(3u); xs_check(a[0].v == 3, "usable afterwards"); } finish(h0);
}
XS_ENTRY(e_failing_relocation) { relocating<TrkMT, true>(); }
XS_ENTRY(e_failing_relocation_move_only) { relocating<MvT<int>, false>(); }
XS_ENTRY(e_plain) {
  start(); uint64_t h0 = xs_live_heap(); { using P = xme::Array<Trk, Plain<Trk>>; P a, b; Model ma, mb; int n = xs_choice(0, 2, "n"); for (int i = 0; i < n; i++) { u32 x = xs_u32("x"); a.push_back(Trk(x)); ma.push(x); } b.push_back(Trk(7)); mb.push(7);
    for (int k = 0; k < 2; k++) { u32 x = xs_u32("x"); switch (xs_choice(0, 7, "op")) { case 0: a.push_back(Trk(x)); ma.push(x); break; case 1: a.insert(a.begin(), Trk(x)); ma.insert(0, x); break; case 2: a.reserve(ma.n + 3); break; case 3: { int r = xs_choice(0, 1, "to"); a.resize(r); ma.trunc(r); break; } case 4: a = b; ma = mb; break; case 5: a = std::move(b); ma = mb; mb.n = 0; break; case 6: { a.swap(b); Model t = ma; ma = mb; mb = t; break; } case 7: if (ma.n) { a.erase(a.begin(), a.end()); ma.n = 0; } break; } }
    same(a, ma); same(b, mb); xs_reach("done"); } finish(h0);
}
XS_ENTRY(e_heap) {
  start(); uint64_t h0 = xs_live_heap(); { using H = xme::Heap<Trk, A>; H h; int n = xs_choice(0, QT(4, 5), "n"); for (int i = 0; i < n; i++) h.push(Trk(xs_u8("key") & 3)); H c(h); H m(std::move(h)); if (n) { u32 top = m.front().v; m.pop(); xs_check(c.front().v == top, "copy keeps its elements"); c.push(Trk(9)); xs_check(c.front().v == 9, "copy is usable"); } if (xs_choice(0, 1, "assign")) m = c; else m = std::move(c); xs_check(n == 0 || m.front().v == 9, "assigned"); xs_reach("done"); } finish(h0);
}
template <typename L> static void list_run(int len) {
  start(); uint64_t h0 = xs_live_heap(); { L l, o; int n = xs_choice(0, len, "n"); for (int i = 0; i < n; i++) l.emplace_front(xs_u32("x")); o.emplace_front(5u); xs_check(K.nb == n + 1, "one block per node"); for (int i = 0; i < K.nb; i++) xs_check(K.b[i].n == 1, "nodes are allocated one by one");
    int m = 1; for (int k = 0; k < QT(2, 3); k++) switch (xs_choice(0, 7, "op")) {
      case 0: l.push_front(Trk(xs_u32("x"))); n++; break; case 1: if (n) { l.pop_front(); n--; } break; case 2: l.clear(); n = 0; break; case 3: l = o; n = m; break; case 4: l = std::move(o); n = m; m = 0; break;
      case 5: { u32 s[2] = {1, 2}; l.insert_after(l.before_begin(), s, s + 2); n += 2; break; } case 6: if (n) { l.erase_after(l.before_begin(), l.end()); n = 0; } break; case 7: { L c(l); L d(std::move(c)); d.reverse(); xs_check(K.nb == 2 * n + m, "a copy has its own nodes"); break; } }
    xs_check(K.nb == n + m && W.live == n + m, "one block and one element per node"); xs_reach("done"); } finish(h0);
}
// Stateful: a default-constructed allocator takes the identity that is current at that moment, as an arena allocator does.
static int arena = 0;
template <typename T> struct Arena {
  using value_type = T; using size_type = std::size_t; using difference_type = std::ptrdiff_t; using propagate_on_container_swap = std::true_type; using propagate_on_container_move_assignment = std::true_type; using is_always_equal = std::false_type;
  int id = arena; Arena() = default; template <typename U> Arena(const Arena<U> &o) : id(o.id) {}
  T *allocate(std::size_t n) { T *p = (T *)xs_malloc(n * sizeof(T), alignof(T)); K.take(p, n, id, sizeof(T)); return p; }
  void deallocate(T *p, std::size_t n) { K.give(p, n, id, sizeof(T)); xs_free(p, n * sizeof(T)); }
  bool operator==(const Arena &o) const { return id == o.id; }
};
XS_ENTRY(e_list_arenas) {
  using L = xme::LinkedList<Trk, Arena<Trk>>; start(); uint64_t h0 = xs_live_heap(); { arena = 0; L a; arena = 1; L b; arena = 2; int n = xs_choice(0, 2, "n"), m = xs_choice(0, 2, "m"); for (int i = 0; i < n; i++) a.emplace_front(xs_u32("x")); for (int i = 0; i < m; i++) b.emplace_front(xs_u32("y"));
    for (int k = 0; k < QT(2, 3); k++) { switch (xs_choice(0, 6, "op")) {
      case 0: a.push_front(Trk(xs_u32("x"))); n++; break; case 1: if (n) { a.pop_front(); n--; } break; case 2: a = std::move(b); n = m; m = 0; break; case 3: b = std::move(a); m = n; n = 0; break;
      case 4: { L c(std::move(a)); if (n) { c.pop_front(); n--; } c.emplace_front(3u); n++; b = std::move(c); m = n; n = 0; break; } case 5: a = b; n = m; break; case 6: { L c(b); c.emplace_front(4u); a = std::move(c); n = m + 1; break; } }
      int x = 0, y = 0; for (auto i = a.begin(); i != a.end(); ++i) { (*i).ok(); x++; } for (auto i = b.begin(); i != b.end(); ++i) { (*i).ok(); y++; } xs_check(x == n && y == m, "both lists hold their elements"); }
    xs_check(K.nb == n + m && W.live == n + m, "one block and one element per node"); xs_reach("done"); } finish(h0);
}
XS_ENTRY(e_list) { list_run<xme::LinkedList<Trk, Plain<Trk>>>(QT(3, 4)); }
XS_ENTRY(e_queue) {
  start(); uint64_t h0 = xs_live_heap(); { static const int cs[] = {2, 4, 8}; int c = cs[xs_choice(0, 2, "capacity")]; xme::SPSCQueue<Trk, Plain<Trk>> q((std::size_t)c); xs_check(K.nb == 1 && K.b[0].n == (std::size_t)c, "one block of the capacity"); int pre = xs_choice(0, c, "rotate"), n = xs_choice(0, c - 1, "n"); for (int i = 0; i < pre; i++) { q.emplace(1u); q.pop(); } for (int i = 0; i < n; i++) xs_check(q.emplace(xs_u32("x")), "room"); xs_check(K.nb == 1 && K.allocs == 1 && W.live == n, "no further allocation"); xs_reach("done"); } finish(h0);
}
