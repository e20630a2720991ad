// Element types used by the harnesses.
#pragma once
#include "xs.h"
#include <compare>
#include <iterator>
#include <utility>
namespace hx {
using u32 = uint32_t;
// Value with a visible moved-from state, no lifetime bookkeeping.
struct Val {
  u32 v;
  Val() : v(0) {}
  Val(u32 x) : v(x) {}
  Val(const Val &o) : v(o.v) {}
  Val(Val &&o) noexcept : v(o.v) { o.v = 0xdeadu; }
  Val &operator=(const Val &o) { v = o.v; return *this; }
  Val &operator=(Val &&o) noexcept { u32 t = o.v; o.v = 0xdeadu; v = t; return *this; }
  bool operator==(const Val &) const = default;
  auto operator<=>(const Val &) const = default;
};
struct Thrown { int what; };
struct World {
  long live = 0, ctors = 0, dtors = 0, copies = 0, moves = 0, assigns = 0;
  long ops = 0;          // throwing-capable operations so far
  long throw_at = -1;    // the operation with this index throws
  void reset() { *this = World{}; }
  void may_throw() {
    if (throw_at >= 0 && ops++ == throw_at) throw Thrown{1};
  }
};
inline World W;
// Lifetime tracked element. Each object knows its own address, so that use of raw or destroyed storage, double
// destruction, construction over a live object and bytewise relocation are all seen.
template <bool MoveThrows = false, int Pad = 0> struct TrkT {
  const void *self;
  u32 v;
  unsigned char pad[Pad + 4] = {};
  static constexpr bool mt = MoveThrows;
  void ok() const { xs_check(self == this, "operation on storage that holds no live object"); }
  void born() { self = this; W.live++; W.ctors++; }
  TrkT() : v(0) { W.may_throw(); born(); }
  TrkT(u32 x) : v(x) { W.may_throw(); born(); }
  TrkT(const TrkT &o) : v(o.v) { o.ok(); W.may_throw(); born(); W.copies++; }
  TrkT(TrkT &&o) noexcept(!MoveThrows) : v(o.v) {
    o.ok();
    if constexpr (MoveThrows) W.may_throw();
    o.v = 0xdeadu; born(); W.moves++;
  }
  TrkT &operator=(const TrkT &o) { ok(); o.ok(); W.may_throw(); v = o.v; W.assigns++; return *this; }
  TrkT &operator=(TrkT &&o) noexcept(!MoveThrows) {
    ok(); o.ok();
    if constexpr (MoveThrows) W.may_throw();
    u32 t = o.v; o.v = 0xdeadu; v = t; W.assigns++; return *this;
  }
  ~TrkT() { ok(); self = nullptr; W.live--; W.dtors++; }
  bool operator==(const TrkT &o) const { ok(); o.ok(); return v == o.v; }
  auto operator<=>(const TrkT &o) const { ok(); o.ok(); return v <=> o.v; }
};
using Trk = TrkT<false>;
using TrkMT = TrkT<true>;
struct MoveOnly : private Trk {
  MoveOnly(u32 x) : Trk(x) {}
  MoveOnly(MoveOnly &&) = default;
  MoveOnly &operator=(MoveOnly &&) = default;
  MoveOnly(const MoveOnly &) = delete;
  using Trk::v;
};
inline u32 raw(u32 x) { return x; }
inline u32 raw(const Val &x) { return x.v; }
template <bool M, int P> u32 raw(const TrkT<M, P> &x) { return x.v; }
inline u32 raw(const MoveOnly &x) { return x.v; }
// Single-pass input iterator over u32 source; every position can be read once.
template <typename T> struct InIt {
  using value_type = T; using difference_type = std::ptrdiff_t; using reference = T; using pointer = void;
  using iterator_category = std::input_iterator_tag; using iterator_concept = std::input_iterator_tag;
  struct Src { const u32 *p; const u32 *e; };
  Src *s = nullptr;
  T operator*() const { return T(*s->p); }
  InIt &operator++() { ++s->p; return *this; }
  void operator++(int) { ++s->p; }
  bool operator==(std::default_sentinel_t) const { return s->p == s->e; }
};
// A doubly linked list of the harness: bidirectional, not random access iterators.
template <typename T> struct BiList {
  struct L { L *p, *n; }; struct N : L { T v; template <typename... A> N(L *a, L *b, A &&...x) : L{a, b}, v(std::forward<A>(x)...) {} };
  L fake;
  struct iterator {
    using value_type = T; using difference_type = std::ptrdiff_t; using reference = T &; using pointer = T *; using iterator_category = std::bidirectional_iterator_tag;
    L *c = nullptr;
    T &operator*() const { return static_cast<N *>(c)->v; } T *operator->() const { return &static_cast<N *>(c)->v; }
    iterator &operator++() { c = c->n; return *this; } iterator operator++(int) { auto t = *this; c = c->n; return t; }
    iterator &operator--() { c = c->p; return *this; } iterator operator--(int) { auto t = *this; c = c->p; return t; }
    bool operator==(const iterator &) const = default;
  };
  BiList() { fake.p = fake.n = &fake; } BiList(const BiList &) = delete;
  ~BiList() { for (L *c = fake.n; c != &fake;) { L *x = c->n; delete static_cast<N *>(c); c = x; } }
  template <typename... A> void emplace_back(A &&...a) { L *x = new N(fake.p, &fake, std::forward<A>(a)...); fake.p->n = x; fake.p = x; }
  void push_back(const T &v) { emplace_back(v); }
  iterator begin() { return {fake.n}; } iterator end() { return {&fake}; }
};
// Reference sequence.
struct Model {
  u32 d[24]; int n = 0;
  void push(u32 x) { d[n++] = x; }
  void insert(int p, u32 x) { for (int i = n; i > p; i--) d[i] = d[i - 1]; d[p] = x; n++; }
  void insert(int p, const u32 *x, int k) { for (int i = 0; i < k; i++) insert(p + i, x[i]); }
  void erase(int p, int k = 1) { for (int i = p; i + k < n; i++) d[i] = d[i + k]; n -= k; }
  void pop() { n--; }
  void trunc(int k) { if (n > k) n = k; }
};
}
