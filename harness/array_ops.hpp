// One arbitrary Array operation from an arbitrary (size, capacity) state, mirrored on a reference sequence.
#pragma once
#include "track.hpp"
#include <xme/container/array.hpp>
#include <array>
namespace hx {
inline u32 fresh() { return xs_u32("value"); }
// every reachable (size, capacity) with size <= maxn and capacity <= size + slack, symbolic contents
template <typename T> void any_state(xme::Array<T> &a, Model &m, int maxn, int slack) {
  int n = xs_choice(0, maxn, "size");
  int cap = n + xs_choice(0, slack, "slack");
  if (cap) a.reserve(cap);
  for (int i = 0; i < n; i++) { u32 x = fresh(); a.push_back(T(x)); m.push(x); }
}
template <typename T> void same(xme::Array<T> &a, const Model &m) {
  const xme::Array<T> &c = a;
  xs_check(a.size() == (std::size_t)m.n && c.size() == (std::size_t)m.n, "size is the number of elements");
  xs_check(a.empty() == (m.n == 0) && c.empty() == (m.n == 0), "empty agrees with size");
  xs_check(a.capacity() >= a.size(), "capacity holds the elements");
  xs_check(a.end() - a.begin() == m.n && c.end() - c.begin() == m.n, "end - begin is size");
  for (int i = 0; i < m.n; i++) {
    xs_check(raw(a[i]) == m.d[i], "element by index");
    xs_check(raw(c[i]) == m.d[i], "element by const index");
    xs_check(raw(a.begin()[i]) == m.d[i] && raw(*(c.begin() + i)) == m.d[i], "element by iterator");
    xs_check(raw(a.data()[i]) == m.d[i] && c.data() + i == &c[i], "element by data pointer");
  }
  if (m.n) {
    xs_check(raw(a.front()) == m.d[0] && raw(c.front()) == m.d[0], "front is the first element");
    xs_check(raw(a.back()) == m.d[m.n - 1] && raw(c.back()) == m.d[m.n - 1], "back is the last element");
  }
  int k = 0;
  for (auto &&e : a) { xs_check(k < m.n && raw(e) == m.d[k], "range-for order"); k++; }
  xs_check(k == m.n, "range-for length");
}
enum { OP_PUSH, OP_PUSH_SELF, OP_PUSH_RV, OP_EMPLACE, OP_EMPLACE_SELF, OP_PUSH_RANGE, OP_PUSH_ITERS, OP_PUSH_INPUT, OP_INSERT, OP_INSERT_SELF, OP_INSERT_RV, OP_INSERT_RANGE, OP_INSERT_ITERS, OP_INSERT_INPUT, OP_ERASE, OP_ERASE_RANGE, OP_POP, OP_CLEAR, OP_RESERVE, OP_RESIZE, OP_ASSIGN_LIST, OP_LAST = OP_ASSIGN_LIST };
template <typename T> void one_op(xme::Array<T> &a, Model &m, int lo, int hi, int maxr) {
  int op = xs_choice(lo, hi, "operation");
  switch (op) {
  case OP_PUSH: { u32 x = fresh(); T t(x); a.push_back(t); m.push(x); xs_check(raw(t) == x, "pushed lvalue unchanged"); xs_reach("push_back"); break; }
  case OP_PUSH_RV: { u32 x = fresh(); a.push_back(T(x)); m.push(x); break; }
  case OP_PUSH_SELF: { if (!m.n) xs_stop_path(); int i = xs_choice(0, m.n - 1, "source"); a.push_back(a[i]); m.push(m.d[i]); xs_reach("push_back of own element"); break; }
  case OP_EMPLACE: { u32 x = fresh(); auto &r = a.emplace_back(x); m.push(x); xs_check(&r == &a[m.n - 1], "emplace_back returns the new element"); break; }
  case OP_EMPLACE_SELF: { if (!m.n) xs_stop_path(); int i = xs_choice(0, m.n - 1, "source"); auto &r = a.emplace_back(std::as_const(a)[i]); m.push(m.d[i]); xs_check(&r == &a[m.n - 1], "emplace_back returns the new element"); break; }
  case OP_PUSH_RANGE: case OP_PUSH_ITERS: case OP_PUSH_INPUT: case OP_INSERT_RANGE: case OP_INSERT_ITERS: case OP_INSERT_INPUT: {
    int k = xs_choice(0, maxr, "range length");
    u32 src[4]; for (int i = 0; i < k; i++) src[i] = fresh();
    int p = m.n; if (op >= OP_INSERT_RANGE) p = xs_choice(0, m.n, "position");
    typename InIt<T>::Src s{src, src + k};
    xme::Array<T> r; 
    if (op == OP_PUSH_RANGE || op == OP_INSERT_RANGE) { r.reserve(4); for (int i = 0; i < k; i++) r.emplace_back(src[i]); }
    typename xme::Array<T>::iterator it;
    if (op == OP_PUSH_RANGE) a.push_back(r);
    else if (op == OP_PUSH_ITERS) a.push_back(src + 0, src + k);
    else if (op == OP_PUSH_INPUT) a.push_back(InIt<T>{&s}, std::default_sentinel);
    else if (op == OP_INSERT_RANGE) it = a.insert(a.begin() + p, r);
    else if (op == OP_INSERT_ITERS) it = a.insert(a.begin() + p, src + 0, src + k);
    else it = a.insert(a.begin() + p, InIt<T>{&s}, std::default_sentinel);
    if (op >= OP_INSERT_RANGE) xs_check(it - a.begin() == p, "range insert returns the first inserted position");
    m.insert(p, src, k); xs_reach("range insertion"); break; }
  case OP_INSERT: { u32 x = fresh(); T t(x); int p = xs_choice(0, m.n, "position"); auto it = a.insert(a.begin() + p, t); m.insert(p, x); xs_check(it - a.begin() == p, "insert returns the new position"); xs_check(raw(t) == x, "inserted lvalue unchanged"); break; }
  case OP_INSERT_RV: { u32 x = fresh(); int p = xs_choice(0, m.n, "position"); auto it = a.insert(a.begin() + p, T(x)); m.insert(p, x); xs_check(it - a.begin() == p, "insert returns the new position"); break; }
  case OP_INSERT_SELF: { if (!m.n) xs_stop_path(); int i = xs_choice(0, m.n - 1, "source"); int p = xs_choice(0, m.n, "position"); auto it = a.insert(a.begin() + p, a[i]); m.insert(p, u32(m.d[i])); xs_check(it - a.begin() == p, "insert returns the new position"); xs_reach("insert of own element"); break; }
  case OP_ERASE: { if (!m.n) xs_stop_path(); int p = xs_choice(0, m.n - 1, "position"); auto it = a.erase(a.begin() + p); m.erase(p); xs_check(it - a.begin() == p, "erase returns the position after"); xs_reach("erase"); break; }
  case OP_ERASE_RANGE: { int p = xs_choice(0, m.n, "first"); int q = xs_choice(p, m.n, "last"); auto it = a.erase(a.begin() + p, a.begin() + q); m.erase(p, q - p); xs_check(it - a.begin() == p, "range erase returns the position of the element that was at last"); xs_reach("erase range"); break; }
  case OP_POP: { if (!m.n) xs_stop_path(); a.pop_back(); m.pop(); xs_reach("pop_back"); break; }
  case OP_CLEAR: { auto c = a.capacity(); a.clear(); m.n = 0; xs_check(a.capacity() == c, "clear keeps the capacity"); xs_reach("clear"); break; }
  case OP_RESERVE: { int k = xs_choice(0, m.n + 3, "reserve"); auto c = a.capacity(); a.reserve(k); xs_check(a.capacity() >= (std::size_t)k && a.capacity() >= c, "reserve grows capacity"); xs_reach("reserve"); break; }
  case OP_RESIZE: { int k = xs_choice(0, m.n + 3, "resize"); a.resize(k); m.trunc(k); xs_check(a.capacity() == (std::size_t)k, "resize sets the capacity"); xs_reach("resize"); break; }
  case OP_ASSIGN_LIST: {
    u32 x = fresh(), y = fresh(), z = fresh(); int len = xs_choice(0, 3, "length"); m.n = 0;
    if (len == 0) { std::initializer_list<T> e; a = e; } else if (len == 1) { std::initializer_list<T> e{T(x)}; a = e; m.push(x); } else if (len == 2) { a = {T(x), T(y)}; m.push(x); m.push(y); } else { a = {T(x), T(y), T(z)}; m.push(x); m.push(y); m.push(z); }
    xs_reach("list assignment"); break; }
  }
}
}

// A long array with one concrete shape and symbolic contents, then one operation near the start, in the middle, near the end.
namespace hx {
template <int Max> struct LongModel { u32 d[Max + 16]; int n = 0; void insert(int p, u32 x) { for (int i = n; i > p; i--) d[i] = d[i - 1]; d[p] = x; n++; } void erase(int p, int k) { for (int i = p; i + k < n; i++) d[i] = d[i + k]; n -= k; }
  template <typename F> void splice(int p, int k, F f) { for (int i = n; i-- > p;) d[i + k] = d[i]; for (int i = 0; i < k; i++) d[p + i] = f(i); n += k; } };
template <typename A, typename M> void same_long(A &a, const M &m) {
  xs_check(a.size() == (std::size_t)m.n && a.capacity() >= a.size(), "size is the number of elements"); bool ok = true; for (int i = 0; i < m.n; i++) ok &= raw(a[i]) == m.d[i]; xs_check(ok, "every element by index"); if (m.n) xs_check(&a.back() == a.data() + m.n - 1, "back is the last element");
}
template <typename T, typename After> void long_op(int n, bool tight, After after) {
  xme::Array<T> a; LongModel<600> m; u32 s = fresh(); if (tight) a.reserve(n); for (int i = 0; i < n; i++) { u32 x = s + (u32)i * 7u; a.push_back(T(x)); m.insert(m.n, x); }
  int where = xs_choice(0, 3, "where"); int p = where == 0 ? 0 : where == 1 ? n / 2 : where == 2 ? n - 1 : n; u32 x = fresh(), y = fresh(); u32 src[5] = {x, y, x ^ y, 3, 4};
  switch (xs_choice(0, 9, "operation")) {
  case 0: { auto it = a.insert(a.begin() + p, T(x)); m.insert(p, x); xs_check(it - a.begin() == p, "returned position"); break; }
  case 1: { auto it = a.insert(a.begin() + p, src + 0, src + 5); for (int i = 0; i < 5; i++) m.insert(p + i, src[i]); xs_check(it - a.begin() == p, "returned position"); break; }
  case 2: { if (where == 3) xs_stop_path(); auto it = a.erase(a.begin() + p); m.erase(p, 1); xs_check(it - a.begin() == p, "returned position"); break; }
  case 3: { int k = n - p < 5 ? n - p : 5; auto it = a.erase(a.begin() + p, a.begin() + p + k); m.erase(p, k); xs_check(it - a.begin() == p, "returned position"); break; }
  case 4: { if (where == 3) xs_stop_path(); a.insert(a.begin() + n / 3, a[p]); u32 v = m.d[p]; m.insert(n / 3, v); break; }
  case 5: { if (where == 3) xs_stop_path(); a.push_back(a[p]); m.insert(n, m.d[p]); break; }
  case 6: { a.resize(p); if (m.n > p) m.n = p; xs_check(a.capacity() == (std::size_t)p, "resize sets the capacity"); break; }
  case 7: { if (where) xs_stop_path(); xme::Array<T> c(a); same_long(c, m); a = T(x) == T(y) ? c : xme::Array<T>(c); break; }
  case 8: { if (where) xs_stop_path(); a.reserve(2 * n + 1); xs_check(a.capacity() >= (std::size_t)(2 * n + 1), "reserve"); break; }
  default: { if (where) xs_stop_path(); xme::Array<T> c(a.begin(), a.end()); a.clear(); xs_check(a.empty(), "cleared"); a.push_back(c); break; }
  }
  same_long(a, m); after(m.n); a.push_back(T(y)); m.insert(m.n, y); same_long(a, m); xs_reach("long");
}
}
