// @configs none, ndebug
// @opt maxsteps=80000000
// @bounds (a) every heap built by up to 5 (thorough: 6) pushes of symbolic 8-bit keys, then popped empty; (b) every push/pop history of 6 (8) steps; (c) every binary-heap content of up to 8 (16) symbolic 32-bit keys, then one pop or push; (d) heaps of 40 to 260 (520) elements in three insertion orders with one symbolic key; (e) heaps of 66001 and 132000 elements, with sifts from and to positions beyond 65536; both std::less and std::greater
#include "track.hpp"
#include <array>
#include <functional>
#include <xme/container/heap.hpp>
using namespace hx;
struct Item { int8_t key; uint8_t id; };
struct Less { bool operator()(const Item &a, const Item &b) const { return a.key < b.key; } };
struct Greater { bool operator()(const Item &a, const Item &b) const { return a.key > b.key; } };
template <typename C> struct Bag {
  Item in[10]; bool there[10] = {}; int n = 0, c = 0;
  Item add() { Item i{(int8_t)xs_u8("key"), (uint8_t)n}; in[n] = i; there[n] = true; n++; c++; return i; }
  template <typename H> void agree(const H &h) {
    xs_check(h.size() == (std::size_t)c && h.empty() == (c == 0), "size is the number of elements");
    bool seen[10] = {};
    for (auto &e : h) {
      xs_check(e.id < n && there[e.id] && !seen[e.id], "holds exactly the pushed, not yet popped elements");
      xs_check(in[e.id].key == e.key, "elements keep their value"); seen[e.id] = true;
      xs_check(!C{}(h.front(), e), "no element comes before the front");
    }
  }
  template <typename H> void pop(H &h) { int id = h.front().id; xs_check(id < n && there[id], "front is an element"); h.pop(); there[id] = false; c--; }
};
template <typename C> static void drain(int maxn) {
  xme::Heap<Item, xme::Array<Item>, C> h; Bag<C> b; int n = xs_choice(0, maxn, "n");
  for (int i = 0; i < n; i++) h.push(b.add());
  b.agree(h);
  Item prev{}; 
  for (int i = 0; i < n; i++) { Item f = h.front(); if (i) xs_check(!C{}(prev, f), "popped in order"); prev = f; b.pop(h); b.agree(h); xs_obs_u64("f", (uint8_t)f.key); }
  xs_reach("drained");
}
XS_ENTRY(e_drain_less) { drain<Less>(QT(5, 6)); }
XS_ENTRY(e_drain_greater) { drain<Greater>(QT(4, 5)); }
XS_ENTRY(e_history) {
  xme::Heap<Item, xme::Array<Item>, Less> h; Bag<Less> b;
  for (int s = 0; s < QT(6, 7); s++) {
    int k = b.c == 0 ? 0 : xs_choice(0, 2, "operation");
    if (k == 0) h.push(b.add()); else if (k == 1) { if (b.c >= 4) xs_stop_path(); Item i = b.add(); h.emplace(i); } else b.pop(h);
    if (b.c > QT(4, 5)) xs_stop_path();
    b.agree(h);
  }
  xs_reach("history");
}
XS_ENTRY(e_ctor) {
  Bag<Less> b; Item v[4]; int n = xs_choice(0, QT(3, 4), "n"); for (int i = 0; i < n; i++) v[i] = b.add();
  if (xs_choice(0, 1, "which")) { xme::Heap<Item, xme::Array<Item>, Less> h(v + 0, v + n); b.agree(h); while (b.c) { b.pop(h); b.agree(h); } }
  else { xme::Array<Item> a(v + 0, v + n); xme::Heap<Item, xme::Array<Item>, Less> h(a); b.agree(h); if (n == 0) { b.agree(h); return; } xme::Heap<Item, xme::Array<Item>, Less> g(h); b.pop(h); b.agree(h); b.c++; for (int i = 0; i < n; i++) b.there[i] = true; b.agree(g); }
}
// any content: keys[parent] >= keys[child] is assumed, so that the pushes build this very layout
XS_ENTRY(e_layout) {
  int n = xs_choice(1, QT(8, 16), "n"); int32_t k[24]; xme::Heap<int32_t> h;
  for (int i = 0; i < n; i++) { k[i] = (int32_t)xs_u32("key"); if (i) xs_assume(k[(i - 1) / 2] >= k[i]); h.push(k[i]); }
  xs_check(h.front() == k[0], "front is the greatest");
  uint32_t sum = 0; for (int i = 0; i < n; i++) sum += (uint32_t)k[i];
  if (xs_choice(0, 1, "which")) { int32_t x = (int32_t)xs_u32("key"); h.push(x); sum += (uint32_t)x; xs_check(h.size() == (std::size_t)n + 1, "size"); }
  else { h.pop(); sum -= (uint32_t)k[0]; xs_check(h.size() == (std::size_t)n - 1, "size"); }
  uint32_t s2 = 0; for (int32_t e : h) { s2 += (uint32_t)e; xs_check(h.front() >= e, "front is the greatest"); }
  xs_check(sum == s2, "elements are permuted");
  if (!h.empty()) { h.pop(); for (int32_t e : h) xs_check(h.front() >= e, "front is the greatest after a further pop"); }
  xs_reach("layout");
}
// long heaps: one symbolic key among many, then some pops
XS_ENTRY(e_long) {
  static const int ns[] = {40, 70, 130, 200, 260, 520}; int n = ns[xs_choice(0, QT(4, 5), "n")]; int shape = xs_choice(0, 2, "order"); xme::Heap<int32_t> h; uint32_t sum = 0;
  for (int i = 0; i < n; i++) { int32_t k = shape == 0 ? i : shape == 1 ? n - i : (i * 37) % n; k *= 4; h.push(k); sum += (uint32_t)k; }
  int32_t x = (int32_t)xs_u32("key"); h.push(x); sum += (uint32_t)x; xs_check(h.size() == (std::size_t)n + 1, "size");
  for (int r = 0; r < 4; r++) { int32_t f = h.front(); uint32_t s2 = 0; bool top = true; for (int32_t e : h) { s2 += (uint32_t)e; top &= f >= e; } xs_check(top, "no element exceeds the front"); xs_check(s2 == sum, "no element is lost"); h.pop(); sum -= (uint32_t)f; }
  xs_reach("long");
}
XS_ENTRY(e_long_drain) {
  int n = QT(140, 300); int shape = xs_choice(0, 2, "order"); xme::Heap<int32_t> h; int32_t x = (int32_t)xs_u32("key"); xs_assume(x > 4 * n - 12); h.push(x);
  for (int i = 0; i < n; i++) { int32_t k = shape == 0 ? i : shape == 1 ? n - i : (i * 37) % n; h.push(4 * k); }
  int32_t p = h.front(); int c = 0; bool ok = true; while (!h.empty()) { int32_t f = h.front(); ok &= p >= f; p = f; h.pop(); c++; } xs_check(ok, "popped in order"); xs_check(c == n + 1, "every element is popped"); xs_reach("drained");
}
// beyond sixteen bits
XS_ENTRY(e_huge) {
  const int n = 66000; xme::Heap<int32_t> h; int32_t x = (int32_t)xs_u32("key"); if (xs_choice(0, QT(0, 1), "low")) xs_assume(x <= 2); else xs_assume(x > 2 * n); for (int i = 0; i < n; i++) h.push(2 * (n - i)); h.push(x); xs_check(h.size() == (std::size_t)n + 1, "size"); int32_t p = h.front(); xs_check(p >= x && p >= 2 * n, "the front is the greatest");
  long long before = 0, after = 0; for (int32_t e : h) before += e; h.pop(); bool top = true; int c = 0; for (int32_t e : h) { after += e; top &= e <= h.front(); c++; } xs_check(top && h.front() <= p, "popped in order"); xs_check(c == n && before - after == p, "only the front has left"); xs_reach("huge");
}
// one path of great elements through a heap of equal ones: every level is left in order, however far down
XS_ENTRY(e_deep) {
  const int n = 132000; static int32_t v[n]; static bool path[n]; for (int i = 0; i < n; i++) { v[i] = -i; path[i] = false; } int side = xs_choice(0, 2, "side"), depth = 0; if (side < 2) { for (int i = 0; i < n; i = 2 * i + 1 + side) { path[i] = true; v[i] = 1000 - depth++; } } else { int at[20], k = 0; for (int i = 131601; i; i = (i - 1) / 2) at[k++] = i; at[k++] = 0; while (k--) { path[at[k]] = true; v[at[k]] = 1000 - depth++; } } xme::Heap<int32_t> h(v + 0, v + n); int32_t x = (int32_t)xs_u32("key"); xs_assume(x < -n); h.push(x);
  for (int i = 0; i < depth; i++) { xs_check(h.front() == 1000 - i, "the greatest comes first"); h.pop(); } for (int i = 0, k = 0; i < 20; i++, k++) { while (path[k]) k++; xs_check(h.front() == -k, "then the others"); h.pop(); } xs_check(h.size() == (std::size_t)(n + 1 - depth - 20), "size"); xs_reach("deep");
}
// an element pushed far back rises above all lesser ones
XS_ENTRY(e_far_back) {
  const int n = 66000, top = 600; xme::Heap<int32_t> h; int32_t x = (int32_t)xs_u32("key"); xs_assume(x > 0 && x < 50); static int32_t v[n]; for (int i = 0; i < n; i++) v[i] = i < top ? 50 + top - i : -i; h = xme::Heap<int32_t>(v + 0, v + n); h.push(x); for (int i = 0; i < top + 20; i++) h.push(-n - i);
  for (int i = 0; i < top; i++) { if (h.front() != 50 + top - i) xs_check(false, "the greatest comes first"); h.pop(); } xs_check(h.front() == x, "then the pushed one"); h.pop(); xs_check(h.front() == -top, "then the others"); xs_reach("far back");
}
// ranges of every kind: sized or not, traversed once or more, elements of another type
#include <forward_list>
#include <ranges>
#include <xme/container/linked_list.hpp>
struct Once { const Item *p, *e; struct It { using value_type = Item; using difference_type = std::ptrdiff_t; using iterator_category = std::input_iterator_tag; Once *o = nullptr; Item operator*() const { return *o->p; } It &operator++() { ++o->p; return *this; } void operator++(int) { ++o->p; } bool operator==(std::default_sentinel_t) const { return o->p == o->e; } }; It begin() { return {this}; } std::default_sentinel_t end() { return {}; } };
XS_ENTRY(e_ranges) {
  Bag<Less> b; Item v[4]; int n = xs_choice(0, 4, "n"); for (int i = 0; i < n; i++) v[i] = b.add();
  auto rest = [&](auto &&h) { b.agree(h); xs_reach("built"); while (b.c) { b.pop(h); b.agree(h); } };
  using H = xme::Heap<Item, xme::Array<Item>, Less>;
  switch (xs_choice(0, 6, "range")) {
  case 0: { std::forward_list<Item> l(v + 0, v + n); rest(H(l)); break; }
  case 1: { xme::LinkedList<Item> l(v + 0, v + n); rest(H(l)); break; }
  case 2: { hx::BiList<Item> l; for (int i = 0; i < n; i++) l.push_back(v[i]); rest(H(l.begin(), l.end())); break; }
  case 3: { Once o{v, v + n}; rest(H(o)); break; }
  case 4: { Once o{v, v + n}; rest(H(o.begin(), o.end())); break; }
  case 5: { auto w = std::views::take_while(std::ranges::subrange(v + 0, v + n), [](const Item &) { return true; }); rest(H(w)); break; }
  case 6: { xme::Array<Item> a(v + 0, v + n); rest(H(a)); break; }
  }
}
// A comparison, an element construction or an allocation that fails: the caller is told, nothing is leaked or destroyed twice and the heap stays usable; a push whose element or storage cannot be made changes nothing.
static int cmp_left = -1;
struct Frail { bool operator()(const Trk &a, const Trk &b) const { a.ok(); b.ok(); if (cmp_left == 0) { cmp_left = -1; throw Thrown{7}; } if (cmp_left > 0) cmp_left--; return a.v < b.v; } };
XS_ENTRY(e_failing) {
  W.reset(); uint64_t h0 = xs_live_heap(); cmp_left = -1;
  { xme::Heap<Trk, xme::Array<Trk>, Frail> h; u32 sum = 0; int n = xs_choice(0, QT(4, 6), "n"); int shape = xs_choice(0, 1, "order"); for (int i = 0; i < n; i++) { u32 k = shape ? 3 * i : 30 - 3 * i; h.push(Trk(k)); sum += k; }
    u32 x = xs_u8("key"); int what = xs_choice(0, 3, "operation"), f = xs_choice(-1, 3, "fault"); bool th = false, cmp = false; if (what == 2 && !n) xs_stop_path(); u32 front = n ? h.front().v : 0; { Trk t(x); long live = W.live; W.ops = 0; cmp = xs_choice(0, 1, "comparison") != 0; if (cmp) cmp_left = f; else W.throw_at = f;
    try { if (what == 0) h.push(t); else if (what == 1) h.push(std::move(t)); else if (what == 2) h.pop(); else h.emplace(x); } catch (const Thrown &e) { th = true; } cmp_left = -1; W.throw_at = -1;
    long d = (long)h.size() - n; if (!th) xs_check(d == (what == 2 ? -1 : 1), "size"); else xs_check(what == 2 ? d == 0 || d == -1 : d == 0 || d == 1, "size"); xs_check(W.live == live + d, "exactly the held elements are alive"); u32 want = sum + (d == 1 ? x : 0) - (d == -1 ? front : 0), got = 0; for (const Trk &e : h) { e.ok(); got += e.v; } xs_check((th && cmp) || got == want, "no element is lost or duplicated"); sum = got; if (th && !cmp) xs_check(d == 0, "a push that cannot make its element leaves the heap unchanged"); if (th) xs_reach("failed"); else xs_reach("finished"); }
    h.push(Trk(1000u)); xs_check((int)h.size() >= 1, "usable"); int c = (int)h.size(); for (; !h.empty(); c--) h.pop(); xs_check(c == 0, "popped empty"); }
  xs_check(W.live == 0 && W.ctors == W.dtors, "every element destroyed once"); xs_check(xs_live_heap() == h0, "no block is leaked");
}
